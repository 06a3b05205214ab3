"""Effect analysis over the linked module: call graph, inclusion-based (Andersen) points-to sets, reads and writes of
storage that outlives a call, and loop/recursion structure."""
import re
from collections import defaultdict, deque

PURE_EXTERN = re.compile(
    r'^(llvm\.(?!readcyclecounter|trap|returnaddress|frameaddress|thread).*|__assert_fail|__cxa_guard_(acquire|release|abort)|__errno_location|'
    r'(a?(sin|cos|tan)h?|atan2|exp|exp2|expm1|log|log10|log2|log1p|pow|sqrt|cbrt|hypot|fmod|remainder|remquo|modf|frexp|ldexp|'
    r'scalbn|logb|ilogb|fabs|floor|ceil|round|l?lround|trunc|rint|l?lrint|nearbyint|copysign|fmin|fmax|fdim|fma|sincos|'
    r'nextafter|nexttoward|abs|labs|llabs|div|ldiv|__isnan|__isinf|__finite|__signbit|__fpclassify)[fl]?|'
    r'str(len|nlen|n?cmp|chr|rchr|str|spn|cspn|pbrk|n?casecmp|n?cpy|n?cat)|mem(cpy|move|set|cmp|chr)|to(upper|lower)|is(alpha|digit|upper|lower|space|alnum|xdigit|punct|print)|'
    r'__gxx_personality_v0|__clang_call_terminate|__stack_chk_fail|abort|'
    r'_Zn[wa]m.*|_Zd[la]Pv.*|malloc|calloc|realloc|free|__cxa_(begin_catch|end_catch|throw|allocate_exception|free_exception|rethrow|throw_bad_array_new_length)|'
    r'_ZSt\d+__throw_.*|_ZNSt.*|_ZNKSt.*|_ZSt.*|_ZNS[abiod].*|_ZNKS[abiod].*|bsearch|qsort)$')
# state kept inside the C library, or input from outside the program
IMPURE = {
    'rand': 'hidden generator state', 'srand': 'hidden generator state', 'random': 'hidden generator state',
    'drand48': 'hidden generator state', 'lrand48': 'hidden generator state', 'rand_r': 'generator state',
    'time': 'the clock', 'clock': 'the clock', 'clock_gettime': 'the clock', 'gettimeofday': 'the clock',
    'localtime': 'the clock/time zone', 'gmtime': 'static buffer', 'mktime': 'the time zone', 'asctime': 'static buffer',
    'ctime': 'static buffer', 'strtok': 'static parser state', 'getenv': 'the environment', 'setenv': 'the environment',
    'secure_getenv': 'the environment', 'setlocale': 'the locale', 'localeconv': 'the locale', 'printf': 'a standard stream',
    'puts': 'a standard stream', 'putchar': 'a standard stream', 'fprintf': 'a stream', 'fputs': 'a stream', 'fputc': 'a stream',
    'fwrite': 'a stream', 'fopen': 'a file', 'fclose': 'a file', 'fread': 'a file', 'fgets': 'a file', 'fscanf': 'a file',
    'open': 'a file', 'read': 'a file', 'write': 'a file', 'scanf': 'a standard stream', 'getpid': 'the process',
    'nanosleep': 'the scheduler', 'sleep': 'the scheduler', 'usleep': 'the scheduler', 'fesetround': 'the floating-point mode',
    'fegetround': 'the floating-point mode', 'fetestexcept': 'floating-point status flags', 'feclearexcept': 'floating-point status flags',
    'feraiseexcept': 'floating-point status flags', 'pthread_self': 'the thread', 'lgamma': 'signgam',
    '_ZNSt6chrono3_V212system_clock3nowEv': 'the clock', '_ZNSt6chrono3_V212steady_clock3nowEv': 'the clock',
    '_ZNSt6chrono3_V221high_resolution_clock3nowEv': 'the clock',
}
IMPURE_RE = [(re.compile(r'^_ZNSt13random_device'), 'a random device'), (re.compile(r'^_ZNS[oi]|^_ZSt(4cout|4cerr|3cin|ls|rs)|^_ZNSt1\d(basic_)?[io]?f?stream'), 'a stream'),
             (re.compile(r'^_ZNSt6locale'), 'the locale'), (re.compile(r'^llvm\.readcyclecounter'), 'the clock'),
             (re.compile(r'^_ZNSt11this_thread'), 'the thread')]


def extern_effect(name):
    """None when an external function is pure; otherwise what it consults, or '?' when unknown"""
    if name in IMPURE:
        return IMPURE[name]
    for r, w in IMPURE_RE:
        if r.match(name):
            return w
    return None if PURE_EXTERN.match(name) else '?'


def consts_in(op, acc):
    """globals mentioned by an operand (including constant expressions)"""
    if isinstance(op, tuple):
        if len(op) >= 2 and op[0] == 'glob' and isinstance(op[1], str):
            acc.append(op[1])
            return acc
        for x in op:
            consts_in(x, acc)
    elif isinstance(op, list):
        for x in op:
            consts_in(x, acc)
    return acc


def regs_in(op, acc):
    if isinstance(op, tuple):
        if len(op) == 2 and op[0] == 'reg':
            acc.append(op[1])
            return acc
        for x in op:
            regs_in(x, acc)
    elif isinstance(op, list):
        for x in op:
            regs_in(x, acc)
    return acc


class Effects:
    def __init__(self, mod):
        self.mod = mod
        self.calls = defaultdict(list)        # function -> [(callee, instr)]
        self.edges()
        self.points()

    # ------------------------------------------------------------ call graph
    def edges(self):
        for f in self.mod.funcs.values():
            for I in f.instrs():
                if I.op in ('call', 'invoke'):
                    c = I.a[0]
                    if c[0] == 'glob':
                        self.calls[f.name].append((c[1], I))
                # functions whose address is taken may be called
                ops = I.a[1] if I.op in ('call', 'invoke') else I.a
                for g in consts_in(ops, []):
                    if g in self.mod.funcs:
                        self.calls[f.name].append((g, I))

    def reach(self, root):
        """functions reachable from root with one call path each"""
        seen = {root: None}
        q = deque([root])
        while q:
            f = q.popleft()
            for c, I in self.calls.get(f, ()):
                if c not in seen:
                    seen[c] = (f, I)
                    q.append(c)
        return seen

    def path(self, seen, f):
        out = []
        while f is not None:
            e = seen[f]
            out.append(f)
            f = e[0] if e else None
        return out[::-1]

    # ------------------------------------------------------------ points-to
    def points(self):
        """inclusion-based, flow- and context-insensitive, one cell per object"""
        pts = defaultdict(set)
        copy = defaultdict(set)               # node -> successors
        loads, stores = defaultdict(set), defaultdict(set)
        mod = self.mod
        work = deque()

        def node(f, op):
            if op[0] == 'reg':
                return (f.name, op[1])
            return None

        def seed(n, o):
            if o not in pts[n]:
                pts[n].add(o)
                work.append(n)

        def flow(src, f, dst):
            """src operand flows to node dst"""
            n = node(f, src) if isinstance(src, tuple) and src and src[0] == 'reg' else None
            if n is not None:
                copy[n].add(dst)
            else:
                for g in consts_in(src, []):
                    if g in mod.globals:
                        seed(dst, ('glob', g))
                    elif g in mod.funcs:
                        seed(dst, ('func', g))
        for f in mod.funcs.values():
            for I in f.instrs():
                r = (f.name, I.res) if I.res else None
                if I.op == 'alloca':
                    seed(r, ('alloca', f.name, I.res))
                elif I.op == 'getelementptr':
                    flow(I.a[0][1], f, r)
                elif I.op in ('bitcast', 'addrspacecast', 'inttoptr', 'ptrtoint', 'freeze'):
                    flow(I.a[0], f, r)
                elif I.op == 'phi':
                    for v, b in I.a:
                        flow(v, f, r)
                elif I.op == 'select':
                    flow(I.a[1], f, r)
                    flow(I.a[2], f, r)
                elif I.op == 'load':
                    t = (f.name, '%ld', id(I))
                    flow(I.a[0], f, t)
                    loads[t].add(r)
                elif I.op == 'store':
                    t, v = (f.name, '%st', id(I)), (f.name, '%sv', id(I))
                    flow(I.a[1], f, t)
                    flow(I.a[0], f, v)
                    stores[t].add(v)
                elif I.op in ('extractvalue', 'insertvalue', 'add', 'sub', 'and', 'or'):
                    for x in I.a[:2]:
                        if isinstance(x, tuple) and x and isinstance(x[0], str):
                            flow(x, f, r)
                elif I.op in ('call', 'invoke') and I.a[0][0] == 'glob':
                    c = I.a[0][1]
                    if c in mod.funcs:
                        for (pt, pn), a in zip(((p[0], p[1]) for p in mod.funcs[c].params), I.a[1]):
                            flow(a[1], f, (c, pn))
                        if r:
                            copy[(c, '%ret')].add(r)
                    elif c.startswith(('llvm.memcpy', 'llvm.memmove')) or c in ('memcpy', 'memmove'):
                        t, s, v = (f.name, '%mt', id(I)), (f.name, '%ms', id(I)), (f.name, '%mv', id(I))
                        flow(I.a[1][0][1], f, t)
                        flow(I.a[1][1][1], f, s)
                        loads[s].add(v)
                        stores[t].add(v)
                        if r:
                            flow(I.a[1][0][1], f, r)
                    elif c.startswith('llvm.threadlocal'):
                        flow(I.a[1][0][1], f, r)
                    elif r:
                        if c in ('malloc', 'calloc') or c.startswith('_Zn'):
                            seed(r, ('heap', f.name, I.res))
                        for a in I.a[1]:
                            flow(a[1], f, r)
                elif I.op == 'ret' and I.a[0] is not None:
                    flow(I.a[0], f, (f.name, '%ret'))
        mem = defaultdict(set)                # object -> nodes reading its content are copies of ('mem', obj)
        for g in mod.globals.values():
            if g.init is not None:
                for h in consts_in(g.init if isinstance(g.init, (tuple, list)) else (), []):
                    if h in mod.globals:
                        seed(('mem', ('glob', g.name)), ('glob', h))
        done = set()
        while work:
            n = work.popleft()
            objs = pts[n]
            for r in loads.get(n, ()):
                for o in objs:
                    m = ('mem', o)
                    if r not in copy[m]:
                        copy[m].add(r)
                        if pts[m] - pts[r]:
                            pts[r] |= pts[m]
                            work.append(r)
            for v in stores.get(n, ()):
                for o in objs:
                    m = ('mem', o)
                    if m not in copy[v]:
                        copy[v].add(m)
                        if pts[v] - pts[m]:
                            pts[m] |= pts[v]
                            work.append(m)
            for s in copy.get(n, ()):
                if objs - pts[s]:
                    pts[s] |= objs
                    work.append(s)
        self.pts = pts

    def targets(self, f, op):
        if isinstance(op, tuple) and op and op[0] == 'reg':
            return self.pts.get((f.name, op[1]), set())
        return {('glob', g) for g in consts_in(op, []) if g in self.mod.globals}

    # ------------------------------------------------------------ accesses to static storage
    def accesses(self):
        """[(function, instr, 'r'|'w', global name)]"""
        out = []
        for f in self.mod.funcs.values():
            for I in f.instrs():
                if I.op == 'load':
                    out += [(f, I, 'r', o[1]) for o in self.targets(f, I.a[0]) if o[0] == 'glob']
                elif I.op == 'store':
                    out += [(f, I, 'w', o[1]) for o in self.targets(f, I.a[1]) if o[0] == 'glob']
                elif I.op in ('atomicrmw', 'cmpxchg'):
                    for g in re.findall(r'@([\w.$]+)', getattr(I, 'text', '')):
                        if g in self.mod.globals:
                            out.append((f, I, 'w', g))
                elif I.op in ('call', 'invoke') and I.a[0][0] == 'glob':
                    c, args = I.a[0][1], I.a[1]
                    if c in self.mod.funcs or c.startswith('__cxa_guard'):
                        continue
                    if c.startswith('llvm.threadlocal'):
                        continue
                    wr = None
                    if c.startswith(('llvm.memcpy', 'llvm.memmove')) or c in ('memcpy', 'memmove', 'strcpy', 'strncpy', 'strcat'):
                        wr = (0,)
                    elif c.startswith('llvm.memset') or c == 'memset':
                        wr = (0,)
                    elif c in ('sincos', 'sincosf'):
                        wr = (1, 2)
                    elif c in ('modf', 'modff', 'frexp', 'frexpf'):
                        wr = (1,)
                    elif c.startswith('llvm.lifetime'):
                        continue
                    for k, a in enumerate(args):
                        if a[0].k != 'ptr':
                            continue
                        for o in self.targets(f, a[1]):
                            if o[0] == 'glob':
                                out.append((f, I, 'w' if (wr and k in wr) else 'r', o[1]))
        return out


def is_guard(name):
    return name.startswith('_ZGV')


# ---------------------------------------------------------------- control flow
class CFG:
    def __init__(self, f):
        self.f = f
        self.succ = {}
        for b in f.order:
            t = f.blocks[b].ins[-1]
            if t.op == 'br':
                s = [t.a[1]] if t.a[0] is None else [t.a[1], t.a[2]]
            elif t.op == 'switch':
                s = [t.a[1]] + [x for _, x in t.a[2]]
            elif t.op == 'invoke':
                s = [t.a[2], t.a[3]]
            else:
                s = []
            self.succ[b] = [x for x in dict.fromkeys(s) if x in f.blocks]
        self.pred = defaultdict(list)
        for b, ss in self.succ.items():
            for s in ss:
                self.pred[s].append(b)
        self.entry = f.order[0]
        self.dom = self.dominators()

    def dominators(self):
        order, seen = [], set()
        stack = [(self.entry, iter(self.succ[self.entry]))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = order[::-1]
        self.rpo = rpo
        dom = {self.entry: {self.entry}}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == self.entry:
                    continue
                ps = [dom[p] for p in self.pred[b] if p in dom]
                d = set.intersection(*ps) | {b} if ps else {b}
                if dom.get(b) != d:
                    dom[b] = d
                    ch = True
        return dom

    def loops(self):
        """natural loops: {header: (latches, blocks)}"""
        out = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if s in self.dom.get(b, ()):
                    body = {s, b}
                    st = [b]
                    while st:
                        x = st.pop()
                        if x == s:
                            continue
                        for p in self.pred[x]:
                            if p not in body and p in self.dom:
                                body.add(p)
                                st.append(p)
                    if s in out:
                        out[s][0].append(b)
                        out[s][1].update(body)
                    else:
                        out[s] = ([b], body)
        return out

    def irreducible(self):
        idx = {b: i for i, b in enumerate(self.rpo)}
        return [(b, s) for b in self.rpo for s in self.succ[b] if s in idx and idx[s] <= idx[b] and s not in self.dom[b]]

    def once_regions(self, mod):
        """blocks executed only while a static-initialisation guard is held"""
        out = {}
        f = self.f
        for b in f.order:
            t = f.blocks[b].ins[-1]
            if t.op != 'br' or t.a[0] is None:
                continue
            # condition derived from __cxa_guard_acquire
            c = t.a[0]
            if c[0] != 'reg':
                continue
            defs = {i.res: i for i in f.instrs() if i.res}
            i = defs.get(c[1])
            if i is None or i.op != 'icmp' or i.a[1][0] != 'reg':
                continue
            g = defs.get(i.a[1][1])
            if g is None or g.op not in ('call', 'invoke') or g.a[0] != ('glob', '__cxa_guard_acquire'):
                continue
            into = t.a[1] if i.a[0] == 'ne' else t.a[2]
            gv = consts_in(g.a[1], [])
            for x in f.order:
                if x in self.dom and into in self.dom[x]:
                    # until the release
                    out.setdefault(x, set()).update(gv)
        # blocks after the release are not dominated exclusively: the join point leaves the region by dominance
        return out


class StaticState:
    """classification of every write to storage that outlives a call"""
    def __init__(self, mod):
        self.mod = mod
        self.E = Effects(mod)
        self.cfg = {}
        self.once = {}
        for f in mod.funcs.values():
            c = self.cfg[f.name] = CFG(f)
            self.once[f.name] = c.once_regions(mod)
        self.blk = {}
        for f in mod.funcs.values():
            for b in f.order:
                for i in f.blocks[b].ins:
                    self.blk[id(i)] = b
        self.acc = self.E.accesses()
        ctors = set()
        for c in mod.ctors:
            ctors |= set(self.E.reach(c))
        api_called = set()
        for f in mod.funcs.values():
            if f.name not in ctors:
                api_called |= {c for c, _ in self.E.calls.get(f.name, ())}
        self.only_ctor = {c for c in ctors if c not in api_called}
        self.writes, self.reads = [], []
        self.initwrites = []
        for f, I, k, g in self.acc:
            if is_guard(g):
                if k == 'w' and not self.in_once(f, I):
                    pass
                continue
            if mod.globals[g].const:
                if k == 'r':
                    continue
            if k == 'w':
                if self.is_once_write(f, I, g):
                    self.initwrites.append((f, I, g))
                else:
                    self.writes.append((f, I, g))
            else:
                self.reads.append((f, I, g))
        self.mutable = {g for _, _, g in self.writes}

    def in_once(self, f, I):
        return self.blk[id(I)] in self.once[f.name]

    def is_once_write(self, f, I, g):
        if f.name in self.only_ctor:
            return True
        if self.in_once(f, I):
            return True
        # written by a helper that receives the object: every call that hands it over must hold the guard
        sites = self.sites_passing(g, f.name)
        return bool(sites) and all(self.in_once(h, J) or h.name in self.only_ctor for h, J in sites)

    def sites_passing(self, g, target):
        out = []
        for h in self.mod.funcs.values():
            for c, J in self.E.calls.get(h.name, ()):
                if J.op not in ('call', 'invoke') or c not in self.mod.funcs or J.a[0] != ('glob', c):
                    continue
                if target != c and target not in self.E.reach(c):
                    continue
                if any(a[0].k == 'ptr' and g in consts_in(a[1], []) or
                       a[0].k == 'ptr' and a[1][0] == 'reg' and ('glob', g) in self.E.targets(h, a[1]) and h.name != target
                       for a in J.a[1]):
                    out.append((h, J))
        return out

    def depends_on_argument(self, f, I, g):
        """parameter of f that the one-time initialisation of g (instruction I in f) depends on, or None"""
        defs = {i.res: i for i in f.instrs() if i.res}
        params = {p[1] for p in f.params}
        seen, st = set(), []
        if I.op == 'store':
            st += regs_in(I.a[0], [])
        elif I.op in ('call', 'invoke'):
            for a in I.a[1]:
                st += regs_in(a[1], [])
        reg = self.once[f.name]
        for b in f.order:
            if b in reg:
                t = f.blocks[b].ins[-1]
                if t.op in ('br', 'switch') and t.a[0] is not None:
                    st += regs_in(t.a[0], [])
        while st:
            r = st.pop()
            if r in seen:
                continue
            seen.add(r)
            if r in params:
                return r
            i = defs.get(r)
            if i is None:
                continue
            st += regs_in(i.a, [])
            if i.op in ('load', 'alloca'):
                objs = self.E.targets(f, i.a[0]) if i.op == 'load' else {('alloca', f.name, r)}
                for j in f.instrs():
                    if j.op == 'store' and self.E.targets(f, j.a[1]) & objs:
                        st += regs_in(j.a[0], [])
        return None

"""Gated value graph builder: a forward dataflow analysis over the SSA form of one routine (and everything it calls).

Every block receives the merged state of its predecessors (gated by the path condition, as in gated SSA), every value is
kept in the normal form of alg.py, loops whose trip count folds to a constant are flattened, and calls are resolved
context-sensitively.  No input is chosen and no path is enumerated: one pass yields, for every output cell, one closed
form that is valid for all inputs.
"""
import heapq
import math
from . import alg
from .alg import Poly, Ptr, Undef, Node, Unsupported


class SymbolicLoop(Unsupported):
    def __init__(self, msg, loop=None):
        Unsupported.__init__(self, msg)
        self.loop = loop


class LoopReached(Exception):
    """the analysis was asked to stop in front of the first summarised loop"""
    def __init__(self, state):
        self.state = state


class LoopVar:
    def __init__(self, key, init, atom):
        self.key, self.init, self.atom, self.next = key, init, atom, None


class LoopRec:
    """a loop as a recurrence: symbols, their initial values and successors, and the condition for another turn"""
    def __init__(self, id, fname, header, pc, path):
        self.id, self.fname, self.header, self.pc, self.path = id, fname, header, pc, path
        self.vars, self.cont, self.children = [], None, []


class Obj:
    """memory object: kind in param/alloca/glob/str"""
    def __init__(self, name, kind, size=None, glob=None, readonly=False):
        self.name, self.kind, self.size, self.glob, self.readonly = name, kind, size, glob, readonly
        self.intcells = False


class State:
    __slots__ = ('pc', 'regs', 'mem')

    def __init__(self, pc, regs, mem):
        self.pc, self.regs, self.mem = pc, regs, mem


class FInfo:
    """CFG facts of a function: reverse postorder, natural loops, liveness"""

    def __init__(self, f):
        self.f = f
        succ = {}
        for b in f.order:
            t = f.blocks[b].ins[-1]
            if t.op == 'br':
                s = [x for x in t.a[1:]]
            elif t.op == 'switch':
                s = [t.a[1]] + [c[1] for c in t.a[2]]
            elif t.op == 'invoke':
                s = [t.a[2]]
            else:
                s = []
            succ[b] = list(dict.fromkeys(s))
        self.succ = succ
        order, seen = [], set()
        stack = [(f.order[0], iter(succ[f.order[0]]))]
        seen.add(f.order[0])
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.order = order
        self.rpo = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in succ[b]:
                preds[s].append(b)
        self.preds = preds
        # dominators
        dom = {order[0]: {order[0]}}
        full = set(order)
        for b in order[1:]:
            dom[b] = full
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [dom[p] for p in preds[b]]
                n = set.intersection(*ps) | {b} if ps else {b}
                if n != dom[b]:
                    dom[b] = n
                    ch = True
        self.dom = dom
        loops = {}
        for b in order:
            for s in succ[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
                elif self.rpo[s] <= self.rpo[b]:
                    raise Unsupported('irreducible control flow in ' + f.name)
        self.loops = loops
        self.counted = {}
        self.nest = {b: sorted([h for h in loops if b in loops[h]], key=lambda h: -len(loops[h])) for b in order}
        # liveness of registers
        use, defs, phiuse = {}, {}, {}
        for b in order:
            u, d = set(), set()
            for I in f.blocks[b].ins:
                if I.op == 'phi':
                    for v, pb in I.a:
                        if v[0] == 'reg':
                            phiuse.setdefault(pb, set()).add(v[1])
                else:
                    for r in regs_of(I.a):
                        if r not in d:
                            u.add(r)
                if I.res:
                    d.add(I.res)
            use[b], defs[b] = u, d
        live_in = {b: set() for b in order}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                out = set(phiuse.get(b, ()))
                for s in succ[b]:
                    out |= live_in[s]
                n = use[b] | (out - defs[b])
                if n != live_in[b]:
                    live_in[b] = n
                    ch = True
        self.live_in = live_in


def counted(f, inf, h):
    """every way out of the loop is one comparison of a counter (constant start and step) with a constant"""
    body = inf.loops[h]
    defs = {I.res: (I, b) for b in body for I in f.blocks[b].ins if I.res}
    for b in body:
        t = f.blocks[b].ins[-1]
        if all(x in body for x in inf.succ[b]):
            continue
        if t.op != 'br' or t.a[0] is None or t.a[0][0] != 'reg' or t.a[0][1] not in defs:
            return False
        c = defs[t.a[0][1]][0]
        if c.op != 'icmp':
            return False
        good = False
        for x, y in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
            if x[0] != 'reg' or y[0] != 'int' and y[0] != 'const':
                continue
            d, db = defs.get(x[1], (None, None))
            if d is None or d.op != 'phi' or db != h:
                continue
            good = all(v[0] in ('int', 'const') or v[0] == 'reg' and v[1] in defs and defs[v[1]][0].op == 'add' and
                       any(z == x for z in defs[v[1]][0].a) and any(z[0] in ('int', 'const') for z in defs[v[1]][0].a if isinstance(z, tuple))
                       for v, pb in d.a)
        if not good:
            return False
    return True


def regs_of(a):
    out = []
    st = [a]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'reg' and isinstance(x[1], str):
                out.append(x[1])
            else:
                st.extend(x)
        elif isinstance(x, list):
            st.extend(x)
    return out


MATH1 = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sqrt', 'exp', 'log', 'log10', 'trunc', 'round', 'floor', 'ceil',
         'cbrt', 'sinh', 'cosh', 'tanh'}


def scalars(ty, off):
    if ty.k in ('struct', 'array', 'vector'):
        for t, o in elems(ty):
            yield from scalars(t, off + o)
    else:
        yield ty, off


def elems(ty):
    if ty.k == 'struct':
        return list(zip(ty.a, ty.offs))
    return [(ty.b, i * ty.b.size) for i in range(ty.a)]


class Builder:
    MAXSYM = 40

    def __init__(self, mod, opaque=None, observer=None, maxsym=None, summarise=None):
        if maxsym is not None:
            self.MAXSYM = maxsym
        self.mod = mod
        self.info = {}
        self.objs = {}
        self.opaque = opaque or {}
        self.obs = observer
        self.fresh = 0
        self.depth = 0
        self.calls = {}
        self.steps = 0
        self.callstack = []
        self.visited = set()
        self.summarised = set(summarise or ())
        self.loopcells = {}                 # cells that every summarised loop is taken to change: {cell: (size, isint)}
        self.loopstop = False
        self.looprecs, self.looppath, self.nloop, self.looptag = [], [], 0, 'loop'

    # ------------------------------------------------------------ objects
    def newobj(self, name, kind, **kw):
        if name in self.objs:
            raise Unsupported('duplicate object ' + name)
        self.objs[name] = Obj(name, kind, **kw)
        return name

    def param(self, name, size=None, readonly=False):
        return alg.ptr(self.newobj(name, 'param', size=size, readonly=readonly), alg.ZERO)

    def prelude(self, st):
        """values of namespace-scope constants that need dynamic initialisation"""
        for c in self.mod.ctors:
            try:
                r, ns = self.run(c, [], State(alg.ONE, {}, dict(st.mem)))
            except Unsupported:
                continue
            if ns is not None:
                st.mem = {k: v for k, v in ns.mem.items() if k[0].startswith('@')}

    def globptr(self, name):
        on = '@' + name
        if on not in self.objs:
            g = self.mod.globals.get(name)
            self.objs[on] = Obj(on, 'glob', size=g.ty.size if g else None, glob=g)
        return alg.ptr(on, alg.ZERO)

    def string_at(self, p):
        """constant C string a pointer leaf designates, or None"""
        if isinstance(p, Ptr) and p.off.is_const():
            o = self.objs[p.obj]
            if o.kind == 'str':
                return o.glob[p.off.cval():]
            if o.kind == 'glob' and o.glob and o.glob.init and o.glob.init[0] == 'agg' and o.glob.ty.k == 'array' and \
                    o.glob.ty.b.k == 'int' and o.glob.ty.b.a == 8:
                s = ''
                for _, c in o.glob.init[1][p.off.cval():]:
                    if c[1] == 0:
                        return s
                    s += chr(c[1])
        return None

    # ------------------------------------------------------------ constants
    def operand(self, op, st):
        k = op[0]
        if k == 'reg':
            v = st.regs.get(op[1])
            if v is None:
                raise Unsupported('use of undefined register %s in %s' % (op[1], self.callstack[-1:]))
            return v
        if k == 'int':
            return alg.const(op[1])
        if k == 'fp':
            x = op[1]
            if x != x or x in (math.inf, -math.inf):
                return alg.patom(alg.atom('in', repr(x)))
            return alg.const(x)
        if k == 'glob':
            return self.globptr(op[1])
        if k == 'null':
            return alg.ZERO
        if k == 'undef':
            return alg.undef('undef')
        if k == 'zero':
            return alg.ZERO
        if k == 'cgep':
            return self.gep(op[1], [(t, self.operand(c, st)) for t, c in op[2]])
        if k == 'agg':
            raise Unsupported('aggregate operand')
        raise Unsupported('operand %r' % (op,))

    def gep_const(self, p, o):
        return alg.add(p, alg.const(o)) if o else p

    def gep(self, ty, ops):
        base = ops[0][1]
        off = alg.ZERO
        cur = ty
        for n, (t, v) in enumerate(ops[1:]):
            if n == 0:
                off = alg.add(off, alg.mul(v, alg.const(ty.size)))
            elif cur.k in ('array', 'vector'):
                cur = cur.b
                off = alg.add(off, alg.mul(v, alg.const(cur.size)))
            elif cur.k == 'struct':
                i = v.cval()
                off = alg.add(off, alg.const(cur.offs[i]))
                cur = cur.a[i]
            else:
                raise Unsupported('gep into %r' % cur)

        def f(p, o):
            if isinstance(p, Undef):
                return p
            if isinstance(o, Undef):
                return o
            if isinstance(p, Ptr):
                return alg.ptr(p.obj, alg.padd(p.off, o))
            if isinstance(p, Poly) and not p.t:
                return alg.undef('null pointer')
            raise Unsupported('gep on %r' % p)
        return alg.lift(f, base, off)

    # ------------------------------------------------------------ memory
    def init_value(self, ty, init, off, want):
        """constant at byte offset off of an initialiser of type ty"""
        while True:
            if init is None:
                return None
            if init[0] == 'zero':
                return alg.ZERO
            if init[0] == 'undef':
                return alg.undef('undef initialiser')
            if ty.k in ('array', 'vector'):
                i, off = divmod(off, ty.b.size)
                if i >= len(init[1]):
                    return None
                init, ty = init[1][i][1], ty.b
            elif ty.k == 'struct':
                i = max(j for j, o in enumerate(ty.offs) if o <= off)
                off -= ty.offs[i]
                init, ty = init[1][i][1], ty.a[i]
            else:
                return self.operand(init, None)

    def initial(self, obj, off, ty, mem):
        """content of a cell that was never written on this path"""
        lazy = mem.get((obj, 'lazy'))
        if lazy:
            for lo, hi, sobj, slo in lazy:
                if lo <= off < hi:
                    if sobj is None:
                        return alg.ZERO
                    return self.initial_base(sobj, off - lo + slo, ty)
        return self.initial_base(obj, off, ty)

    def initial_base(self, obj, off, ty):
        o = self.objs[obj]
        if o.kind == 'alloca':
            return alg.undef('uninitialised %s+%d' % (obj.split('#')[0], off))
        if o.kind == 'str':
            return alg.const(ord(o.glob[off]) if off < len(o.glob) else 0) if off <= len(o.glob) else \
                alg.undef('out of bounds %s' % obj)
        if o.size is not None and not (0 <= off and off + ty.size <= o.size):
            return alg.undef('out of bounds %s+%d' % (obj, off))
        if o.kind == 'glob':
            if o.glob is not None and o.glob.init is not None:
                v = self.init_value(o.glob.ty, o.glob.init, off, ty)
                if v is None:
                    raise Unsupported('cannot read initialiser of ' + obj)
                return v
        if ty.k == 'ptr':
            n = '*%s[%d]' % (obj, off // ty.size)
            if n not in self.objs:
                self.newobj(n, 'param')
            return alg.ptr(n, alg.ZERO)
        rng = None
        if ty.k == 'int' and ty.a == 8:
            rng = (-128, 255)
        if o.intcells:
            return alg.var('%s[%d]' % (obj, off // ty.size), isint=True)
        if o.kind == 'param' and o.glob:
            # record with fields of several sizes: name cells by byte offset
            return alg.var('%s+%d' % (obj, off), isint=ty.k == 'int', rng=rng)
        return alg.var('%s[%d]' % (obj, off // ty.size), isint=ty.k == 'int', rng=rng)

    def load(self, p, ty, st, I=None):
        if ty.k in ('struct', 'array', 'vector'):
            return tuple(self.load(self.gep_const(p, o), t, st, I) for t, o in elems(ty))

        def f(l):
            if isinstance(l, Undef):
                return l
            if not isinstance(l, Ptr):
                return alg.undef('load through non-pointer')
            if l.off.is_const():
                return self.load_cell(l.obj, l.off.cval(), ty, st.mem)
            # symbolic index: decision on the index quantity over the object's cells
            q, k, c = alg.quantity(l.off)
            o = self.objs[l.obj]
            if o.size is None or not alg.is_int(q):
                raise Unsupported('symbolic index into %s' % l.obj)
            k = abs(k) if k > 0 else k
            if k <= 0:
                q, k = alg.pneg(q), -k
                raise Unsupported('negative stride')
            oob = alg.undef('out of bounds %s' % l.obj)
            br, kids = [], [oob]
            idx = [(n, n * k + c) for n in range(-(c // k) - 1, (o.size - c) // k + 1)
                   if 0 <= n * k + c and n * k + c + ty.size <= o.size]
            lo, hi = alg.iv(q)
            br.append((idx[0][0] - 0.5, 0))
            for n, off in idx:
                kids.append(self.load_cell(l.obj, off, ty, st.mem))
                br.append((n + 0.5, 0))
            kids.append(oob)
            # prune against a-priori range
            while br and br[-1][0] > hi:
                br.pop()
                kids.pop()
            while br and br[0][0] < lo:
                br.pop(0)
                kids.pop(0)
            return alg.case(q, br, kids)
        try:
            v = alg.lift(f, p)
        except Unsupported:
            if not isinstance(p, Node):
                raise
            # only addresses that occur under the path condition matter
            v = alg.lift(lambda c, l: alg.undef('not reached') if c is alg.ZERO else f(l), st.pc, p)
        if self.obs:
            self.access = ty.size
            self.obs.on_load(self, I, p, v, st)
        return v

    def load_cell(self, obj, off, ty, mem):
        c = mem.get((obj, off))
        if c is not None:
            if c[1] != ty.size:
                if c[0] is alg.ZERO:
                    return alg.ZERO
                raise Unsupported('type-punned load from %s+%s' % (obj, off))
            return c[0]
        for d in range(1, 8):
            c = mem.get((obj, off - d))
            if c is not None and c[1] > d:
                raise Unsupported('partial load from %s+%s' % (obj, off))
        return self.initial(obj, off, ty, mem)

    def store(self, p, v, ty, st, I=None):
        if isinstance(v, tuple):
            for (t, o), x in zip(elems(ty), v):
                self.store(self.gep_const(p, o), x, t, st, I)
            return
        if self.obs:
            self.access = ty.size
            self.obs.on_store(self, I, p, v, st)
        if isinstance(p, Ptr):
            self.store_leaf(p, v, ty, st, alg.ONE)
            return
        for l in {x.id: x for x in alg.leaves(p)}.values():
            cond = alg.lift(lambda z, l=l: alg.ONE if z is l else alg.ZERO, p)
            # only cells of p reachable under the path condition matter
            if alg.band(st.pc, cond) is alg.ZERO:
                continue
            if isinstance(l, Ptr):
                self.store_leaf(l, v, ty, st, cond)
            # stores through undef are reported by the observer

    def store_leaf(self, l, v, ty, st, cond):
        if not l.off.is_const():
            q, k, c = alg.quantity(l.off)
            o = self.objs[l.obj]
            if o.size is None or not alg.is_int(q) or k <= 0:
                raise Unsupported('symbolic store into %s' % l.obj)
            for n in range(-(c // k) - 1, (o.size - c) // k + 1):
                off = n * k + c
                if 0 <= off and off + ty.size <= o.size:
                    cc = alg.band(cond, alg.compare('eq', q, alg.const(n)))
                    if alg.band(cc, st.pc) is not alg.ZERO:
                        old = self.load_cell(l.obj, off, ty, st.mem)
                        st.mem[(l.obj, off)] = (alg.ite(cc, v, old), ty.size)
            return
        off = l.off.cval()
        if cond is not alg.ONE:
            old = self.load_cell(l.obj, off, ty, st.mem)
            v = alg.ite(cond, v, old)
        for d in range(1, 8):
            c = st.mem.get((l.obj, off - d))
            if c is not None and c[1] > d:
                raise Unsupported('overlapping store')
        for d in range(1, ty.size):
            st.mem.pop((l.obj, off + d), None)
        st.mem[(l.obj, off)] = (v, ty.size)

    def memcpy(self, d, s, n, st):
        if not (isinstance(n, Poly) and n.is_const()):
            raise Unsupported('memcpy with symbolic length')
        n = n.cval()
        if n == 0:
            return
        if isinstance(s, Node) and isinstance(d, Ptr):
            # gated source: copy cell by cell along the union of leaf layouts
            lv = {x.id: x for x in alg.leaves(s) if isinstance(x, Ptr)}.values()
            mems = []
            for l in lv:
                tmp = State(st.pc, {}, dict(st.mem))
                self.memcpy(d, l, alg.const(n), tmp)
                c = alg.lift(lambda z, l=l: alg.ONE if z is l else alg.ZERO, s)
                mems.append((c, tmp))
            states = [State(alg.band(st.pc, c), {}, t.mem) for c, t in mems]
            states = [x for x in states if x.pc is not alg.ZERO]
            st.mem = self.merge(states, ()).mem
            return
        if isinstance(d, Ptr) and isinstance(s, Ptr) and d.off.is_const() and not s.off.is_const():
            o = self.objs[s.obj]
            q, k, c = alg.quantity(s.off)
            if o.kind == 'glob' and o.glob is not None and alg.is_int(q) and k > 0:
                # element of a table: scalar by scalar
                c0 = c % k
                cells = [(x, off - c0) for x, off in scalars(o.glob.ty, 0) if c0 <= off < c0 + n]
                if cells and sum(x.size for x, _ in cells) <= n:
                    vals = [(x, off, self.load(self.gep_const(s, off), x, st)) for x, off in cells]
                    for x, off, v in vals:
                        self.store(self.gep_const(d, off), v, x, st)
                    return
        if not (isinstance(d, Ptr) and isinstance(s, Ptr) and d.off.is_const() and s.off.is_const()):
            raise Unsupported('memcpy with symbolic addresses')
        do, so = d.off.cval(), s.off.cval()
        cells = {k: v for k, v in st.mem.items() if k[0] == s.obj and k[1] != 'lazy' and so <= k[1] < so + n}
        lazies = st.mem.get((s.obj, 'lazy'), ())
        for k in [k for k in st.mem if k[0] == d.obj and k[1] != 'lazy' and do <= k[1] < do + n]:
            del st.mem[k]
        lz = [x for x in st.mem.get((d.obj, 'lazy'), ()) if not (do <= x[0] and x[1] <= do + n)]
        new = []
        for lo, hi, sobj, slo in lazies:
            if lo < so + n and hi > so:
                new.append((max(lo, so) - so + do, min(hi, so + n) - so + do, sobj,
                            slo + max(lo, so) - lo if sobj else 0))
        new.append((do, do + n, s.obj, so))
        st.mem[(d.obj, 'lazy')] = tuple(new) + tuple(lz)
        for k, v in cells.items():
            st.mem[(d.obj, k[1] - so + do)] = v

    def memset(self, d, val, n, st):
        if not (isinstance(d, Ptr) and d.off.is_const() and n.is_const() and isinstance(val, Poly) and not val.t):
            raise Unsupported('memset')
        do, n = d.off.cval(), n.cval()
        for k in [k for k in st.mem if k[0] == d.obj and k[1] != 'lazy' and do <= k[1] < do + n]:
            del st.mem[k]
        lz = tuple(x for x in st.mem.get((d.obj, 'lazy'), ()) if not (do <= x[0] and x[1] <= do + n))
        st.mem[(d.obj, 'lazy')] = ((do, do + n, None, 0),) + lz

    # ------------------------------------------------------------ merging
    def merge(self, states, live):
        if len(states) == 1:
            return states[0]
        pc = states[0].pc
        for s in states[1:]:
            pc = alg.bor(pc, s.pc)
        regs = {}
        base = states[-1]
        for r in live:
            vals = [s.regs.get(r) for s in states]
            if any(v is None for v in vals):
                vs = [v for v in vals if v is not None]
                if not vs:
                    continue
                vals = [v if v is not None else vs[0] for v in vals]
            v = vals[-1]
            for s, x in zip(reversed(states[:-1]), reversed(vals[:-1])):
                if x is not v:
                    v = self.gate(s.pc, x, v)
            regs[r] = v
        keys = set()
        m0 = base.mem
        for s in states[:-1]:
            if s.mem is m0:
                continue
            for k, v in s.mem.items():
                if m0.get(k) != v:
                    keys.add(k)
            for k in m0:
                if k not in s.mem:
                    keys.add(k)
        mem = dict(m0)
        from .irparse import Ty
        for k in keys:
            if k[1] == 'lazy':
                vals = [set(s.mem.get(k, ())) for s in states]
                u = set().union(*vals)
                if any(v != u for v in vals):
                    # a region initialised on one path only: keep it when no initial content differs
                    o = self.objs[k[0]]
                    if o.kind == 'param':
                        raise Unsupported('block copy into %s on some paths only' % k[0])
                mem[k] = tuple(u)
                continue
            sz = next(s.mem[k][1] for s in states if k in s.mem)
            ty = {8: Ty('double'), 4: Ty('float'), 1: Ty('int', 8), 2: Ty('int', 16), 16: Ty('x86_fp80')}[sz]
            vals = []
            for s in states:
                c = s.mem.get(k)
                if c is None:
                    v = self.initial(k[0], k[1], ty, s.mem)
                    # integer-ness of the other definition carries over for never-written parameters
                    vals.append(v)
                else:
                    vals.append(c[0])
            v = vals[-1]
            for s, x in zip(reversed(states[:-1]), reversed(vals[:-1])):
                if x is not v:
                    v = self.gate(s.pc, x, v)
            mem[k] = (v, sz)
        return State(pc, regs, mem)

    def gate(self, c, a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
                return tuple(self.gate(c, x, y) for x, y in zip(a, b))
            raise Unsupported('merge of aggregates')
        return alg.ite(c, a, b)

    # ------------------------------------------------------------ evaluation
    def run(self, fname, args, st):
        """evaluate function fname on values args in state st (st.pc, st.mem); returns (value, state) with merged memory"""
        f = self.mod.funcs.get(fname)
        if f is None:
            raise Unsupported('call to undefined function ' + fname)
        if self.depth > 40:
            raise Unsupported('call depth (recursion?) at ' + fname)
        inf = self.info.get(fname)
        if inf is None:
            inf = self.info[fname] = FInfo(f)
        self.depth += 1
        self.callstack.append(fname)
        self.visited.add(fname)
        try:
            regs = {p[1]: v for p, v in zip(f.params, args)}
            rets, _, _ = self.walk(f, inf, f.order[0], State(st.pc, regs, dict(st.mem)))
            if not rets:
                return None, None
            return self.merge_rets(rets)
        finally:
            self.depth -= 1
            self.callstack.pop()

    def walk(self, f, inf, entry, start, region=None):
        """evaluates the blocks reachable from entry (inside region, a loop whose header is entry, if given); returns
        (returning states, states going back to the header, [(target, state leaving the region)])"""
        fname = f.name
        pend, heap = {}, []
        rets, back, leave = [], [], []
        symcount = {}

        def key(b, its):
            k = []
            for h in inf.nest[b]:
                k += [inf.rpo[h], its.get(h, 0)]
            k.append(inf.rpo[b])
            return tuple(k)

        def push(b, its, s):
            k = key(b, its)
            if k not in pend:
                pend[k] = (b, its, [])
                heapq.heappush(heap, k)
            pend[k][2].append(s)
        push(entry, {}, start)
        while heap:
            k = heapq.heappop(heap)
            b, its, states = pend.pop(k)
            s = self.merge(states, inf.live_in[b] | {i.res for i in f.blocks[b].ins if i.op == 'phi'})
            if s.pc is alg.ZERO:
                continue
            self.steps += 1
            if self.steps > 400000:
                raise alg.Blowup('too many block instances in ' + fname)
            if b in inf.loops and not (region and b == entry) and self.symbolic(f, inf, b):
                rs, outs = self.summary(f, inf, b, s)
                rets += rs
                for tgt, ns in outs:
                    if region and tgt not in region:
                        leave.append((tgt, ns))
                    elif region and tgt == entry:
                        back.append(ns)
                    else:
                        nits = {h: its.get(h, 0) for h in inf.nest[tgt] if h in its}
                        if tgt in inf.loops:
                            if b in inf.loops[tgt]:
                                nits[tgt] = its.get(tgt, 0) + 1
                            else:
                                nits[tgt] = 0
                                symcount[tgt] = 0
                        push(tgt, nits, ns)
                continue
            out = self.block(f, b, s)
            if len(out) > 1:
                # an exit of a loop that is not decided by constants
                for h in inf.nest[b]:
                    if any(t not in inf.loops[h] and alg.band(s.pc, c) is not alg.ZERO for t, c, _ in out) and \
                            any(t in inf.loops[h] and alg.band(s.pc, c) is not alg.ZERO for t, c, _ in out):
                        symcount[h] = symcount.get(h, 0) + 1
            for tgt, cond, rv in out:
                if tgt is None:
                    rets.append((s, rv))
                    continue
                npc = alg.band(s.pc, cond)
                if npc is alg.ZERO:
                    continue
                many = len(out) > 1
                nregs = dict(s.regs) if many else s.regs
                ns = State(npc, nregs, dict(s.mem) if many else s.mem)
                # phis of the target
                vals = []
                for I in f.blocks[tgt].ins:
                    if I.op != 'phi':
                        break
                    for v, pb in I.a:
                        if pb == b:
                            vals.append((I.res, self.operand(v, s)))
                            break
                for r, v in vals:
                    nregs[r] = v
                if region is not None:
                    if tgt == entry:
                        back.append(ns)
                        continue
                    if tgt not in region:
                        leave.append((tgt, ns))
                        continue
                nits = {h: its.get(h, 0) for h in inf.nest[tgt] if h in its}
                if tgt in inf.loops and b in inf.loops[tgt]:
                    nits[tgt] = its.get(tgt, 0) + 1
                    if nits[tgt] > 20000:
                        raise SymbolicLoop('%s: loop at %s does not fold' % (fname, tgt), (fname, tgt))
                    if symcount.get(tgt, 0) > self.MAXSYM:
                        raise SymbolicLoop('%s: loop at %s has an input-dependent trip count' % (fname, tgt), (fname, tgt))
                elif tgt in inf.loops:
                    nits[tgt] = 0
                    symcount[tgt] = 0
                push(tgt, nits, ns)
        return rets, back, leave

    def symbolic(self, f, inf, h):
        """is the loop to be summarised: listed, or (mode 'uncounted') without a constant trip count"""
        if (f.name, h) in self.summarised:
            return True
        if 'uncounted' not in self.summarised:
            return False
        k = inf.counted.get(h)
        if k is None:
            k = inf.counted[h] = counted(f, inf, h)
        return not k

    def summary(self, f, inf, h, s0):
        """a loop that does not fold: its header variables become symbols, and the initial values, the values after one
        turn and the condition for another turn are recorded as one recurrence (LoopRec); what leaves the loop is
        expressed over the symbols, which then stand for the last turn"""
        if self.loopstop:
            raise LoopReached(s0)
        body = inf.loops[h]
        phis = [(I.res, I.ty) for I in f.blocks[h].ins if I.op == 'phi']
        drop, cells, alive = set(), dict(self.loopcells), set(self.objs)
        rounds = 0
        while True:
            rounds += 1
            if rounds > 12:
                raise Unsupported('loop summary does not settle at ' + h)
            mark = len(self.looprecs)
            self.nloop += 1
            rec = LoopRec(self.nloop, f.name, h, s0.pc, list(self.looppath))
            regs, mem = dict(s0.regs), dict(s0.mem)
            for r, ty in phis:
                if r in drop or r not in regs:
                    continue
                x = LoopVar(r, regs[r], self.loopatom(rec, len(rec.vars), regs[r], ty.k == 'int'))
                rec.vars.append(x)
                regs[r] = x.atom
            for k, (sz, isint) in sorted(cells.items()):
                c = mem.get(k)
                from .irparse import Ty
                v = c[0] if c is not None else self.initial(k[0], k[1], {8: Ty('double'), 4: Ty('int', 32) if isint else Ty('float')}.get(sz) or Ty('int', 8 * sz), mem)
                x = LoopVar(k, v, self.loopatom(rec, len(rec.vars), v, isint))
                rec.vars.append(x)
                mem[k] = (x.atom, sz)
            self.looppath.append(rec.id)
            try:
                rets, back, leave = self.walk(f, inf, h, State(alg.ONE, regs, dict(mem)), body)
            finally:
                self.looppath.pop()
            if not back:
                if not self.loopcells:
                    raise Unsupported('loop without a way back')
                for x in rec.vars:
                    x.next = x.atom
                b = State(alg.ZERO, {}, {})
                break
            b = self.merge(back, {r for r, _ in phis})
            again = False
            for k, v in b.mem.items():
                if k not in cells and mem.get(k) != v:
                    if k[1] == 'lazy':
                        raise Unsupported('block copy inside a summarised loop')
                    if k[0] not in alive:
                        continue               # storage of a callee that is gone
                    cells[k] = (v[1], all(isinstance(l, Poly) and alg.is_int(l) for l in alg.leaves(v[0])))
                    again = True
            for x in rec.vars:
                x.next = b.regs[x.key] if isinstance(x.key, str) else b.mem[x.key][0]
                if x.next is x.atom and isinstance(x.key, str):
                    drop.add(x.key)
                    again = True
            if not again:
                break
            del self.looprecs[mark:]
        rec.cont = b.pc
        rec.leave = [(st.pc, dict(st.mem)) for _, st in leave]
        rec.children = self.looprecs[mark:]
        self.looprecs.append(rec)
        outs = []
        for tgt, st in leave:
            st.pc = alg.band(s0.pc, st.pc)
            if st.pc is not alg.ZERO:
                outs.append((tgt, st))
        rs = []
        for st, v in rets:
            st.pc = alg.band(s0.pc, st.pc)
            if st.pc is not alg.ZERO:
                rs.append((st, v))
        return rs, outs

    def loopatom(self, rec, i, init, isint):
        for l in alg.leaves(init):
            if isinstance(l, Ptr):
                raise Unsupported('pointer that moves in a summarised loop')
        return alg.var('%s%d.%d' % (self.looptag, rec.id, i), isint=isint)

    def merge_rets(self, rets):
        states = []
        for s, v in rets:
            s2 = State(s.pc, {'%ret': v} if v is not None else {}, s.mem)
            states.append(s2)
        m = self.merge(states, ('%ret',))
        return m.regs.get('%ret'), m

    def block(self, f, b, s):
        """interpret block b on state s (mutated); returns list of (target|None, cond, retval)"""
        for I in f.blocks[b].ins:
            op = I.op
            if op == 'phi':
                continue
            if op == 'br':
                if I.a[0] is None:
                    return [(I.a[1], alg.ONE, None)]
                c = alg.truth(self.operand(I.a[0], s))
                if self.obs:
                    self.obs.on_branch(self, I, c, s)
                if alg.undefs_of(c):
                    c = self.drop_undef(c, s, I)
                if I.a[1] == I.a[2]:
                    return [(I.a[1], alg.ONE, None)]
                return [(I.a[1], c, None), (I.a[2], alg.bnot(c), None)]
            if op == 'switch':
                v = self.operand(I.a[0], s)
                out, rest = {}, alg.ONE
                for c, t in I.a[2]:
                    e = alg.cmp('eq', v, alg.const(c))
                    if alg.undefs_of(e):
                        e = self.drop_undef(e, s, I)
                    out[t] = alg.bor(out.get(t, alg.ZERO), alg.band(rest, e))
                    rest = alg.band(rest, alg.bnot(e))
                out[I.a[1]] = alg.bor(out.get(I.a[1], alg.ZERO), rest)
                return [(t, c, None) for t, c in out.items()]
            if op == 'ret':
                v = None if I.a[0] is None else self.operand(I.a[0], s)
                return [(None, alg.ONE, v)]
            if op == 'unreachable':
                return []
            if op == 'invoke':
                r = self.call(I, s)
                if s.pc is alg.ZERO:
                    return []
                if I.res:
                    s.regs[I.res] = r
                return [(I.a[2], alg.ONE, None)]
            if op == 'call':
                r = self.call(I, s)
                if s.pc is alg.ZERO:
                    return []
                if I.res and r is not None:
                    s.regs[I.res] = r
                continue
            r = self.instr(I, s)
            if I.res:
                s.regs[I.res] = r
        raise Unsupported('block without terminator')

    def drop_undef(self, c, s, I):
        # undefined condition outside the path condition is harmless
        live = [u for u in alg.leaves(alg.ite(s.pc, c, alg.ZERO)) if isinstance(u, Undef)]
        if live:
            if self.obs:
                self.obs.on_undef_branch(self, I, live, s)
        return alg.lift(lambda x: alg.ZERO if isinstance(x, Undef) else x, c)

    ICMP = {'eq': 'eq', 'ne': 'ne', 'slt': 'lt', 'sle': 'le', 'sgt': 'gt', 'sge': 'ge',
            'ult': 'lt', 'ule': 'le', 'ugt': 'gt', 'uge': 'ge'}
    FCMP = {'oeq': 'eq', 'ueq': 'eq', 'one': 'ne', 'une': 'ne', 'olt': 'lt', 'ult': 'lt', 'ole': 'le', 'ule': 'le',
            'ogt': 'gt', 'ugt': 'gt', 'oge': 'ge', 'uge': 'ge'}

    def instr(self, I, s):
        op = I.op
        if op in ('fadd', 'add'):
            return alg.add(self.operand(I.a[0], s), self.operand(I.a[1], s))
        if op in ('fsub', 'sub'):
            return alg.sub(self.operand(I.a[0], s), self.operand(I.a[1], s))
        if op in ('fmul', 'mul'):
            return alg.mul(self.operand(I.a[0], s), self.operand(I.a[1], s))
        if op == 'fdiv':
            a, b = self.operand(I.a[0], s), self.operand(I.a[1], s)
            if self.obs:
                self.obs.on_div(self, I, a, b, s)
                self.obs.on_fdiv(self, I, a, b, s)
            return alg.div(a, b)
        if op == 'fneg':
            return alg.neg(self.operand(I.a[0], s))
        if op == 'frem':
            return alg.fn2(alg.leaf_fmod, self.operand(I.a[0], s), self.operand(I.a[1], s))
        if op in ('sdiv', 'udiv'):
            a, b = self.operand(I.a[0], s), self.operand(I.a[1], s)
            if self.obs:
                self.obs.on_div(self, I, a, b, s)
            return alg.fn2(alg.leaf_idiv, a, b)
        if op in ('srem', 'urem'):
            a, b = self.operand(I.a[0], s), self.operand(I.a[1], s)
            return alg.sub(a, alg.mul(b, alg.fn2(alg.leaf_idiv, a, b)))
        if op == 'icmp' and I.a[0][0] == 'u' and I.a[0] != 'une':
            return self.ucmp(I.a[0], self.operand(I.a[1], s), self.operand(I.a[2], s), I)
        if op == 'icmp':
            return alg.cmp(self.ICMP[I.a[0]], self.operand(I.a[1], s), self.operand(I.a[2], s))
        if op == 'fcmp':
            if I.a[0] == 'uno':
                return alg.ZERO
            if I.a[0] == 'ord':
                return alg.ONE
            return alg.cmp(self.FCMP[I.a[0]], self.operand(I.a[1], s), self.operand(I.a[2], s))
        if op in ('fptrunc', 'fpext', 'sitofp', 'uitofp', 'sext', 'bitcast', 'freeze', 'addrspacecast'):
            v = self.operand(I.a[0], s)
            if op == 'sext' and I.a[1].a == 1:
                return alg.neg(v)
            return v
        if op == 'zext':
            return self.operand(I.a[0], s)
        if op == 'trunc':
            v = self.operand(I.a[0], s)
            if I.ty.k == 'int' and I.ty.a == 1:
                return alg.truth(v)
            if I.ty.k == 'int' and I.ty.a < 32:
                return alg.lift(lambda x: self.wrap(x, I.ty.a), v)
            return v
        if op in ('fptosi', 'fptoui'):
            v = self.operand(I.a[0], s)
            if self.obs:
                self.obs.on_fptosi(self, I, v, s)
            return alg.fn1(lambda x: alg.leaf_round('trunc', x), v)
        if op == 'alloca':
            n = self.operand(I.a[0], s)
            if not (isinstance(n, Poly) and n.is_const()):
                raise Unsupported('variable length array')
            self.fresh += 1
            name = '%s.%s#%d' % (self.callstack[-1], I.res[1:], self.fresh)
            self.newobj(name, 'alloca', size=I.ty.size * n.cval())
            return alg.ptr(name, alg.ZERO)
        if op == 'load':
            return self.load(self.operand(I.a[0], s), I.ty, s, I)
        if op == 'store':
            v, p = self.operand(I.a[0], s), self.operand(I.a[1], s)
            self.store(p, v, I.ty, s, I)
            return None
        if op == 'getelementptr':
            return self.gep(I.ty, [(t, self.operand(c, s)) for t, c in I.a])
        if op == 'select':
            c = alg.truth(self.operand(I.a[0], s))
            if alg.undefs_of(c):
                c = self.drop_undef(c, s, I)
            return self.gate(c, self.operand(I.a[1], s), self.operand(I.a[2], s))
        if op in ('and', 'or', 'xor') and I.ty.k == 'int' and I.ty.a == 1:
            a, b = self.operand(I.a[0], s), self.operand(I.a[1], s)
            if op == 'and':
                return alg.band(a, b)
            if op == 'or':
                return alg.bor(a, b)
            return alg.ite(a, alg.bnot(b), b)
        if op in ('shl', 'ashr', 'lshr', 'and', 'or', 'xor'):
            return self.bitop(op, self.operand(I.a[0], s), self.operand(I.a[1], s))
        if op == 'extractvalue':
            v = self.operand(I.a[0], s)
            if isinstance(v, tuple):
                return v[I.a[1][0]]
            if isinstance(v, Undef):
                return v
            raise Unsupported('extractvalue')
        if op == 'insertvalue':
            v = st = None
            if I.a[0][0] in ('undef', 'poison'):
                n = len(I.ty.a) if isinstance(I.ty.a, (list, tuple)) else I.ty.a
                v = tuple(alg.undef('undef') for _ in range(n))
            else:
                v = self.operand(I.a[0], s)
            v = list(v)
            v[I.a[2][0]] = self.operand(I.a[1], s)
            return tuple(v)
        if op in ('ptrtoint', 'inttoptr'):
            return self.operand(I.a[0], s)
        raise Unsupported('instruction %s' % op)

    def wrap(self, x, bits):
        """truncation to a narrow integer: identity when the value provably fits"""
        if not isinstance(x, Poly):
            return x
        lo, hi = alg.iv(x)
        if lo >= -(1 << (bits - 1)) and hi < (1 << bits):
            return x
        if all(A.kind == 'in' and A.args[0] in alg.RANGES for A in alg.atoms_of(x)):
            return x            # arithmetic on narrow inputs
        return alg.patom(alg.atom('wrap', x, bits, isint=True))

    def ucmp(self, pred, a, b, I):
        """unsigned comparison of values kept as signed integers"""
        if pred in ('ugt', 'uge'):
            a, b = b, a
        op = 'lt' if pred in ('ult', 'ugt') else 'le'

        def f(x, y):
            if isinstance(x, Undef):
                return x
            if isinstance(y, Undef):
                return y
            if isinstance(x, Ptr) or isinstance(y, Ptr):
                return alg.compare(op, x, y)
            xn, yn = alg.compare('lt', x, alg.ZERO), alg.compare('lt', y, alg.ZERO)
            r = alg.compare(op, x, y)
            # both of one sign: ordinary order; otherwise the negative one is the larger
            return alg.ite(xn, alg.ite(yn, r, alg.ZERO), alg.ite(yn, alg.ONE, r))
        return alg.lift(f, a, b)

    def bitop(self, op, a, b):
        def f(x, y):
            if isinstance(x, Undef):
                return x
            if isinstance(y, Undef):
                return y
            if not (isinstance(x, Poly) and isinstance(y, Poly)):
                raise Unsupported('bit operation on pointers')
            if y.is_const():
                k = y.cval()
                if x.is_const():
                    v = x.cval()
                    return alg.const({'shl': lambda: v << k, 'ashr': lambda: v >> k, 'lshr': lambda: v >> k,
                                      'and': lambda: v & k, 'or': lambda: v | k, 'xor': lambda: v ^ k}[op]())
                if op == 'shl':
                    return alg.pscale(x, 1 << k)
                if op == 'xor' and k == -1:
                    return alg.padd(alg.pneg(x), alg.const(-1))
                if op == 'ashr' or op == 'lshr' and alg.iv(x)[0] >= 0:
                    return alg.leaf_floordiv(x, 1 << k)
                if op == 'and' and k > 0 and (k & (k + 1)) == 0 and alg.is_int(x):
                    return alg.psub(x, alg.pscale(alg.leaf_floordiv(x, k + 1), k + 1))
            return alg.patom(alg.atom('bit' + op, x, y, isint=True))
        return alg.lift(f, a, b)

    # ------------------------------------------------------------ calls
    def call(self, I, s):
        callee, args = I.a[0], I.a[1]
        if callee[0] != 'glob':
            p = self.operand(callee, s)
            if not (isinstance(p, Ptr) and p.obj[0] == '@' and p.obj[1:] in self.mod.funcs):
                raise Unsupported('indirect call')
            name = p.obj[1:]
        else:
            name = callee[1]
        vals = [self.operand(a[1], s) for a in args]
        return self.call_name(name, vals, s, I, args)

    def call_name(self, name, vals, s, I=None, args=()):
        if self.obs:
            self.obs.on_call(self, I, name, vals, s)
        if name in self.opaque:
            return self.opaque[name](self, name, vals, s)
        if name in self.mod.funcs:
            base = dict(s.mem)
            r, ns = self.run(name, vals, s)
            if ns is None:
                s.pc = alg.ZERO
                return None
            s.mem = ns.mem
            s.pc = ns.pc
            # locals of the callee are dead
            dead = [k for k in s.mem if k[0].startswith(name + '.') and k not in base]
            for k in dead:
                del s.mem[k]
            return r
        base = name
        if name.startswith('llvm.'):
            parts = name.split('.')
            base = parts[1]
            if base in ('lifetime', 'dbg', 'donothing', 'assume', 'experimental', 'stackrestore'):
                return None
            if base == 'memcpy' or base == 'memmove':
                self.memcpy(vals[0], vals[1], vals[2], s)
                return None
            if base == 'memset':
                self.memset(vals[0], vals[1], vals[2], s)
                return None
            if base in ('smax', 'umax', 'maxnum', 'maximum'):
                return alg.vmax(*vals)
            if base in ('smin', 'umin', 'minnum', 'minimum'):
                return alg.vmin(*vals)
            if base in ('fabs', 'abs'):
                return alg.vabs(vals[0])
            if base in ('fmuladd', 'fma'):
                return alg.add(alg.mul(vals[0], vals[1]), vals[2])
            if base == 'copysign':
                a = alg.vabs(vals[0])
                return alg.ite(alg.cmp('lt', vals[1], alg.ZERO), alg.neg(a), a)
            if base == 'powi':
                return alg.fn2(alg.leaf_pow, vals[0], vals[1])
            if base in ('lround', 'llround'):
                return alg.fn1(alg.FN['round'], vals[0])
            if base == 'is' and parts[2] == 'fpclass':
                m = vals[1].cval()
                if not m & 0x1f8:
                    return alg.ZERO             # NaN/infinity tests: outside the real domain
                if m & 0x1f8 == 0x1f8:
                    return alg.ONE
                if m & 0x1f8 == 0x60:
                    return alg.cmp('eq', vals[0], alg.ZERO)
                raise Unsupported('is.fpclass')
            if base in ('rint', 'nearbyint', 'roundeven'):
                return alg.fn1(lambda x: alg.patom(alg.atom(base, x, isint=True)), vals[0])
            if base == 'trap':
                s.pc = alg.ZERO
                return None
        if base[-1:] in 'fl' and base[:-1] in MATH1 | {'atan2', 'fmod', 'pow', 'fabs', 'fmax', 'fmin', 'copysign',
                                                       'hypot', 'remainder'} and base not in ('ceil',):
            base = base[:-1]
        if base in ('lround', 'llround', 'lroundf', 'llroundf'):
            base = 'round'
        if base in ('toupper', 'tolower'):
            lo, hi, d = (97, 122, -32) if base == 'toupper' else (65, 90, 32)
            x = vals[0]
            inr = alg.band(alg.cmp('ge', x, alg.const(lo)), alg.cmp('le', x, alg.const(hi)))
            return alg.ite(inr, alg.add(x, alg.const(d)), x)
        if base in ('isdigit', 'isalpha', 'isupper', 'islower', 'isspace'):
            R = {'isdigit': [(48, 57)], 'isupper': [(65, 90)], 'islower': [(97, 122)],
                 'isalpha': [(65, 90), (97, 122)], 'isspace': [(9, 13), (32, 32)]}[base]
            r = alg.ZERO
            for lo, hi in R:
                r = alg.bor(r, alg.band(alg.cmp('ge', vals[0], alg.const(lo)), alg.cmp('le', vals[0], alg.const(hi))))
            return r
        if base in ('sincos', 'sincosf'):
            from .irparse import Ty
            ty = Ty('double') if base == 'sincos' else Ty('float')
            self.store(vals[1], alg.fn1(alg.FN['sin'], vals[0]), ty, s, I)
            self.store(vals[2], alg.fn1(alg.FN['cos'], vals[0]), ty, s, I)
            return None
        if base in ('modf', 'modff'):
            from .irparse import Ty
            t = alg.fn1(alg.FN['trunc'], vals[0])
            self.store(vals[1], t, Ty('double') if base == 'modf' else Ty('float'), s, I)
            return alg.sub(vals[0], t)
        if base in MATH1:
            if self.obs:
                self.obs.on_fn(self, I, base, vals, s)
            return alg.fn1(alg.FN[base], vals[0])
        if base == 'atan2':
            if self.obs:
                self.obs.on_fn(self, I, base, vals, s)
            return alg.fn2(alg.leaf_atan2, vals[0], vals[1])
        if base == 'fmod':
            return alg.fn2(alg.leaf_fmod, vals[0], vals[1])
        if base == 'pow':
            if self.obs:
                self.obs.on_fn(self, I, base, vals, s)
            return alg.fn2(alg.leaf_pow, vals[0], vals[1])
        if base == 'fabs':
            return alg.vabs(vals[0])
        if base == 'fmax':
            return alg.vmax(*vals)
        if base == 'fmin':
            return alg.vmin(*vals)
        if base == 'copysign':
            a = alg.vabs(vals[0])
            return alg.ite(alg.cmp('lt', vals[1], alg.ZERO), alg.neg(a), a)
        if base == 'hypot':
            x, y = vals
            return alg.fn1(alg.leaf_sqrt, alg.add(alg.mul(x, x), alg.mul(y, y)))
        if base in ('memcpy', 'memmove'):
            self.memcpy(vals[0], vals[1], vals[2], s)
            return vals[0]
        if base == '__assert_fail' or base in ('abort', '_ZSt9terminatev', '__cxa_pure_virtual'):
            if self.obs and s.pc is not alg.ZERO:
                self.obs.on_abort(self, I, s)
            s.pc = alg.ZERO
            return None
        if base == '__cxa_guard_acquire':
            # one-time initialisation of a function-local static: the initialiser runs here
            return alg.ONE
        if base == '__cxa_guard_release':
            return None
        if base in ('memset', 'bzero'):
            self.memset(vals[0], vals[1], vals[2], s)
            return vals[0]
        if base in ('_Znwm', '_Znam', 'malloc'):
            if not (isinstance(vals[0], Poly) and vals[0].is_const()):
                raise Unsupported('allocation of input-dependent size')
            self.fresh += 1
            nm = '%s.new#%d' % (self.callstack[-1], self.fresh)
            self.newobj(nm, 'alloca', size=vals[0].cval())
            return alg.ptr(nm, alg.ZERO)
        if base in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free'):
            return None
        if base == 'strlen':
            def f(p):
                st = self.string_at(p)
                if st is not None:
                    return alg.const(len(st))
                if isinstance(p, Undef):
                    return p
                # position of the first zero byte (first few decided exactly)
                from .irparse import Ty
                r = alg.patom(alg.atom('strlen', p, isint=True))
                if isinstance(p, Ptr) and p.off.is_const():
                    for i in (3, 2, 1, 0):
                        c = self.load(alg.ptr(p.obj, alg.padd(p.off, alg.const(i))), Ty('int', 8), s)
                        r = alg.ite(alg.cmp('eq', c, alg.ZERO), alg.const(i), r)
                return r
            return alg.lift(f, vals[0])
        if base in ('strncmp', 'strcmp'):
            n = vals[2].cval() if base == 'strncmp' else 1 << 30

            def g(p, q):
                a, b = self.string_at(p), self.string_at(q)
                if a is not None and b is not None:
                    a, b = a[:n], b[:n]
                    return alg.const((a > b) - (a < b))
                if isinstance(p, Undef):
                    return p
                if isinstance(q, Undef):
                    return q
                if a is not None:
                    p, q, a, b = q, p, b, a
                return alg.patom(alg.atom('strcmp', p, ('s', b[:n], n if len(b) >= n else n) if b is not None else q,
                                          isint=True))
            return alg.lift(g, vals[0], vals[1])
        raise Unsupported('external call ' + name)


class Observer:
    def on_load(self, B, I, p, v, s): pass
    def on_abort(self, B, I, s): pass
    def on_store(self, B, I, p, v, s): pass
    def on_branch(self, B, I, c, s): pass
    def on_undef_branch(self, B, I, u, s): pass
    def on_div(self, B, I, a, b, s): pass
    def on_fdiv(self, B, I, a, b, s): pass
    def on_fn(self, B, I, name, vals, s): pass
    def on_fptosi(self, B, I, v, s): pass
    def on_call(self, B, I, name, vals, s): pass

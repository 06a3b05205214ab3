"""Termination by structure: for every natural loop, a header variable that moves monotonically by a non-zero amount on
every way round the loop, and a comparison with a loop-invariant limit that must hold on every way round it and that the
variable is moving towards violating."""
from .effects import CFG, regs_in, extern_effect

INF = float('inf')
CASTS = ('sext', 'zext', 'trunc', 'bitcast', 'freeze')
NEG = {'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'eq': 'ne', 'ne': 'eq',
       'olt': 'uge', 'ole': 'ugt', 'ogt': 'ule', 'oge': 'ult', 'oeq': 'une', 'one': 'ueq', 'une': 'oeq', 'ueq': 'one',
       'ult_f': 'oge', 'ord': 'uno', 'uno': 'ord', 'true': 'false', 'false': 'true'}
SWAP = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'eq': 'eq', 'ne': 'ne',
        'olt': 'ogt', 'ogt': 'olt', 'ole': 'oge', 'oge': 'ole', 'oeq': 'oeq', 'une': 'une', 'one': 'one', 'ueq': 'ueq'}
FNEG = {'olt': 'uge', 'ole': 'ugt', 'ogt': 'ule', 'oge': 'ult', 'ult': 'oge', 'ule': 'ogt', 'ugt': 'ole', 'uge': 'olt', 'oeq': 'une', 'une': 'oeq',
        'one': 'ueq', 'ueq': 'one', 'ord': 'uno', 'uno': 'ord'}


class Loop:
    def __init__(self, A, head, latches, body):
        self.A, self.head, self.latches, self.body = A, head, latches, body
        ins = [i for b in body for i in A.f.blocks[b].ins]
        at = min(((i.line, i.file) for i in A.f.blocks[head].ins if i.line and i.file), default=None) or \
            min(((i.line, i.file) for i in ins if i.line and i.file), default=(0, '?'))
        self.line, self.file = at
        self.ins = ins


class Analysis:
    def __init__(self, f, mod):
        self.f, self.mod = f, mod
        self.cfg = CFG(f)
        self.defs, self.blk = {}, {}
        for b in f.order:
            for i in f.blocks[b].ins:
                self.blk[id(i)] = b
                if i.res:
                    self.defs[i.res] = i
        self.loops = [Loop(self, h, l, b) for h, (l, b) in self.cfg.loops().items()]

    def d(self, op):
        return self.defs.get(op[1]) if isinstance(op, tuple) and op and op[0] == 'reg' else None

    def inside(self, op, L):
        i = self.d(op)
        return i is not None and self.blk[id(i)] in L.body

    # ------------------------------------------------------------ facts that hold when a condition has a polarity
    def facts(self, c, pol, depth=0):
        i = self.d(c)
        if i is None or depth > 12:
            return []
        if i.op == 'icmp':
            pred, a, b = i.a
            x = self.d(a)
            if b in (('int', 0), ('int', False)) and x is not None and pred in ('ne', 'eq') and x.op == 'zext' and x.a[1].size == 1 and \
                    self.d(x.a[0]) is not None and self.d(x.a[0]).op in ('icmp', 'fcmp', 'phi', 'select'):
                r = self.facts(x.a[0], pol == (pred == 'ne'), depth + 1)
                if r:
                    return r
            return [('i', pred if pol else NEG[pred], a, b, i)]
        if i.op == 'fcmp':
            pred, a, b = i.a
            return [('f', pred if pol else FNEG.get(pred, 'true'), a, b, i)]
        if i.op == 'xor':
            if i.a[1] in (('int', 1), ('int', -1), ('int', True)):
                return self.facts(i.a[0], not pol, depth + 1)
        if i.op == 'and' and pol or i.op == 'or' and not pol:
            return self.facts(i.a[0], pol, depth + 1) + self.facts(i.a[1], pol, depth + 1)
        if i.op == 'select' and i.ty.k == 'int':
            c0, x, y = i.a
            if pol and y in (('int', 0), ('int', False)):
                return self.facts(c0, True, depth + 1) + self.facts(x, True, depth + 1)
            if not pol and x in (('int', 1), ('int', True), ('int', -1)):
                return self.facts(c0, False, depth + 1) + self.facts(y, False, depth + 1)
        if i.op in ('zext', 'trunc', 'freeze'):
            return self.facts(i.a[0], pol, depth + 1)
        if i.op == 'phi':
            sets = []
            for v, b in i.a:
                if v[0] == 'int' and bool(v[1]) != pol:
                    continue
                s = [] if v[0] == 'int' else self.facts(v, pol, depth + 1)
                sets.append(s + self.edge_facts(b, self.blk[id(i)], depth + 1))
            if sets:
                return [x for x in sets[0] if all(any(key(x) == key(y) for y in s) for s in sets[1:])]
        return []

    def edge_facts(self, p, b, depth=0):
        """facts that hold when control passes from p to b"""
        out = []
        while depth < 14:
            t = self.f.blocks[p].ins[-1]
            if t.op == 'br' and t.a[0] is not None and t.a[1] != t.a[2]:
                out += self.facts(t.a[0], b == t.a[1], depth + 1)
            if len(self.cfg.pred[p]) != 1:
                break
            p, b = self.cfg.pred[p][0], p
            depth += 1
        return out

    def loop_facts(self, L, latch):
        """facts that hold on every way round the loop through latch"""
        out = []
        for x in L.body:
            if x == L.head or x not in self.cfg.dom[latch]:
                continue
            ps = [p for p in self.cfg.pred[x] if p in L.body]
            if len(ps) == 1 and len(self.cfg.pred[x]) == 1:
                t = self.f.blocks[ps[0]].ins[-1]
                if t.op == 'br' and t.a[0] is not None and t.a[1] != t.a[2]:
                    out += self.facts(t.a[0], x == t.a[1])
        # the back edge itself may be conditional (do ... while)
        t = self.f.blocks[latch].ins[-1]
        if t.op == 'br' and t.a[0] is not None and t.a[1] != t.a[2]:
            out += self.facts(t.a[0], t.a[1] == L.head)
        return out

    # ------------------------------------------------------------ movement of a header variable round the loop
    def consts_of(self, op, seen=()):
        """the set of constants an operand can be, or None"""
        if op[0] == 'int':
            return {op[1]}
        i = self.d(op)
        if i is None or op in seen:
            return set() if op in seen else None
        if i.op in CASTS:
            return self.consts_of(i.a[0], seen + (op,))
        if i.op == 'phi':
            vs = [v for v, _ in i.a]
        elif i.op == 'select':
            vs = i.a[1:]
        else:
            return None
        out = set()
        for v in vs:
            s = self.consts_of(v, seen + (op,))
            if s is None:
                return None
            out |= s
        return out

    def moves(self, op, phi, L, seen=()):
        """set of ('d', lo, hi) | ('const', k) | ('grow',) | ('?',) describing op in terms of phi's value"""
        if op == ('reg', phi.res):
            return {('d', 0, 0)}
        if op[0] in ('int', 'fp', 'float', 'double'):
            return {('const', op[1])}
        i = self.d(op)
        if i is None or not self.inside(op, L):
            return {('inv',)}
        if op in seen:
            return set()
        seen = seen + (op,)
        if i.op in CASTS:
            return self.moves(i.a[0], phi, L, seen)
        if i.op in ('add', 'sub', 'fadd', 'fsub'):
            a, b = i.a
            if i.op == 'add' and a == b:
                m = self.moves(a, phi, L, seen)
                return {('grow',)} if m == {('d', 0, 0)} else {('?',)}
            if i.op in ('add', 'fadd') and a[0] != 'reg':
                a, b = b, a
            k = {b[1]} if b[0] != 'reg' else self.consts_of(b)
            if k is None and i.op == 'add':
                k2 = self.consts_of(a)
                if k2:
                    a, k = b, k2
            if not k or any(not isinstance(x, (int, float)) for x in k):
                return {('?',)}
            s = -1 if i.op in ('sub', 'fsub') else 1
            lo, hi = min(s * x for x in k), max(s * x for x in k)
            out = set()
            for m in self.moves(a, phi, L, seen):
                out.add(('d', m[1] + lo, m[2] + hi) if m[0] == 'd' else ('?',))
            return out
        if i.op == 'shl' and i.a[1][0] == 'int' and i.a[1][1] > 0 or i.op in ('mul', 'fmul') and any(x[0] != 'reg' and x[1] >= 2 for x in i.a):
            m = self.moves(i.a[0] if i.a[0][0] == 'reg' else i.a[1], phi, L, seen)
            return {('grow',)} if m == {('d', 0, 0)} else {('?',)}
        if i.op == 'getelementptr':
            if all(x[1][0] == 'int' for x in i.a[1:]) and i.a[1:]:
                k = sum(x[1][1] for x in i.a[1:2])
                return {('d', m[1] + k, m[2] + k) if m[0] == 'd' else ('?',) for m in self.moves(i.a[0][1], phi, L, seen)}
            return {('?',)}
        if i.op == 'phi' and self.blk[id(i)] in L.body:
            out = set()
            M = next((x for x in self.loops if x.head == self.blk[id(i)] and x is not L and x.body < L.body), None)
            if M is not None:
                # header of an inner loop: any number of its own steps are added
                inner = set()
                for v, b in i.a:
                    if b in M.body:
                        inner |= self.moves(v, i, M)
                if any(m[0] != 'd' for m in inner):
                    return {('?',)}
                up, down = any(m[2] > 0 for m in inner), any(m[1] < 0 for m in inner)
                for v, b in i.a:
                    if b not in M.body:
                        for m in self.moves(v, phi, L, seen):
                            out.add(('d', m[1] - (INF if down else 0), m[2] + (INF if up else 0)) if m[0] == 'd' else m)
                return out
            for v, b in i.a:
                out |= self.moves(v, phi, L, seen)
            return out
        if i.op == 'select':
            return self.moves(i.a[1], phi, L, seen) | self.moves(i.a[2], phi, L, seen)
        return {('?',)}

    def offset(self, op, phi, L):
        """k when op is phi + k (through widenings), else None"""
        k = 0
        for _ in range(12):
            if op == ('reg', phi.res):
                return k
            i = self.d(op)
            if i is None:
                return None
            if i.op in CASTS or i.op in ('sitofp', 'uitofp', 'fpext', 'fptosi'):
                op = i.a[0]
            elif i.op in ('add', 'fadd', 'sub', 'fsub') and i.a[1][0] != 'reg':
                k += i.a[1][1] if i.op in ('add', 'fadd') else -i.a[1][1]
                op = i.a[0]
            elif i.op in ('add', 'fadd') and i.a[0][0] != 'reg':
                k += i.a[0][1]
                op = i.a[1]
            elif i.op in ('add',) and self.consts_of(i.a[1]):
                op = i.a[0]
            elif i.op == 'getelementptr' and all(x[1][0] == 'int' for x in i.a[1:]):
                op = i.a[0][1]
            elif i.op in ('mul', 'shl', 'fmul') and i.a[1][0] != 'reg' and i.a[1][1] > 0:
                op = i.a[0]
            else:
                return None
        return None

    def invariant(self, op, L, depth=0):
        if op[0] != 'reg':
            return True
        i = self.d(op)
        if i is None or self.blk[id(i)] not in L.body:
            return True
        if depth > 10:
            return False
        if i.op in CASTS or i.op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'fadd', 'fsub', 'fmul', 'fdiv', 'sitofp', 'fptosi', 'shl',
                                     'lshr', 'ashr', 'and', 'or', 'xor', 'fpext', 'fptrunc', 'icmp', 'fcmp', 'select', 'fneg'):
            return all(self.invariant(x, L, depth + 1) for x in i.a if isinstance(x, tuple) and x and x[0] == 'reg')
        if i.op == 'getelementptr':
            return all(self.invariant(x[1], L, depth + 1) for x in i.a)
        if i.op == 'load':
            return self.quiet(L) and self.invariant(i.a[0], L, depth + 1)
        if i.op in ('call', 'invoke') and i.a[0][0] == 'glob':
            c = i.a[0][1]
            return (c not in self.mod.funcs and extern_effect(c) is None or c in self.mod.funcs and self.readonly(c)) and self.quiet(L) and \
                all(self.invariant(a[1], L, depth + 1) for a in i.a[1])
        return False

    def readonly(self, c, seen=()):
        """function without stores other than to its own locals"""
        if c in seen:
            return True
        f = self.mod.funcs.get(c)
        if f is None:
            return extern_effect(c) is None and not c.startswith(('llvm.mem', 'memcpy', 'memset', 'memmove', 'strcpy'))
        loc = {i.res for i in f.instrs() if i.op == 'alloca'}
        for i in f.instrs():
            if i.op == 'store' and not (i.a[1][0] == 'reg' and i.a[1][1] in loc):
                return False
            if i.op in ('call', 'invoke') and (i.a[0][0] != 'glob' or not self.readonly(i.a[0][1], seen + (c,))):
                return False
        return True

    def quiet(self, L):
        """nothing in the loop writes memory"""
        if getattr(L, '_quiet', None) is None:
            L._quiet = all(i.op != 'store' and not (i.op in ('call', 'invoke') and (i.a[0][0] != 'glob' or not self.readonly(i.a[0][1])))
                           for i in L.ins)
        return L._quiet

    # ------------------------------------------------------------ verdict on one loop
    def decide(self, L):
        """('ok', reason) | ('bad', reason) | ('unknown', reason)"""
        phis = [i for i in self.f.blocks[L.head].ins if i.op == 'phi']
        bad = None
        soft = False
        facts = {l: self.loop_facts(L, l) for l in L.latches}
        for phi in phis:
            init = [v for v, b in phi.a if b not in L.body]
            upd = [(v, b) for v, b in phi.a if b in L.body]
            if not upd:
                continue
            good = True
            away = None
            for v, latch in upd:
                ms = self.moves(v, phi, L)
                r = self.bounded(phi, init, ms, facts[latch], L)
                if r[0] == 'ok':
                    continue
                good = False
                if r[0] == 'away':
                    away = r[1]
                elif r[0] == 'soft':
                    soft = True
            if good:
                return 'ok', 'counter %s' % phi.res
            if away:
                bad = away
        if bad:
            return 'bad', bad
        # some integer, pointer or character condition at least
        for l in L.latches:
            for kind, pred, a, b, i in facts[l]:
                if kind == 'i':
                    soft = True
        if not any(s not in L.body for x in L.body for s in self.cfg.succ[x]):
            return 'bad', 'the loop has no exit'
        if soft:
            return 'unknown', 'the exit depends on data'
        return 'bad', 'every exit depends on a floating-point condition, with no limit on the number of iterations'

    def bounded(self, phi, init, ms, facts, L):
        if not ms or ('?',) in ms or ('inv',) in ms:
            return ('no',)
        ds = [m for m in ms if m[0] == 'd']
        ks = [m[1] for m in ms if m[0] == 'const']
        grow = ('grow',) in ms
        dirn = 0
        if grow:
            if not all(v[0] == 'int' and v[1] > 0 for v in init) or any(m[1] < 0 for m in ds):
                return ('no',)
            dirn = 1
        if ds:
            if all(m[1] > 0 for m in ds):
                dirn = 1 if not dirn or dirn == 1 else 0
            elif all(m[2] < 0 for m in ds) and not grow:
                dirn = -1
            else:
                return ('no',)
        if not dirn:
            # always set to constants
            return ('no',)
        isfp = phi.ty.k in ('double', 'float')
        away = None
        for kind, pred, a, b, i in facts:
            for x, y, p in ((a, b, pred), (b, a, SWAP.get(pred, pred))):
                if self.offset(x, phi, L) is None or x[0] != 'reg':
                    continue
                inv = self.invariant(y, L)
                lim = None
                if not inv:
                    j = self.header_phi(y, L)
                    if j is None:
                        continue
                    m2 = set()
                    for v, bb in j.a:
                        if bb in L.body:
                            m2 |= self.moves(v, j, L)
                    if not m2 or any(m[0] not in ('d', 'const') for m in m2):
                        continue
                    # the limit may drop to a constant; what counts is how it drifts
                    lo, hi = min([m[1] for m in m2 if m[0] == 'd'] + [0]), max([m[2] for m in m2 if m[0] == 'd'] + [0])
                    if dirn > 0 and hi > 0 or dirn < 0 and lo < 0:
                        mine = min((abs(m[1]) for m in ds), default=1)
                        if all(m[0] == 'd' for m in m2) and (dirn > 0 and min(m[1] for m in m2) >= mine or dirn < 0 and -max(m[2] for m in m2) >= mine):
                            away = 'the limit moves along with the counter %s' % phi.res
                        continue
                if isfp and not (all(v[0] != 'reg' for v in init) and y[0] != 'reg'):
                    away = 'floating-point counter %s starts or ends at an argument-dependent value, where a fixed step can stop advancing' % phi.res
                    continue
                up, down = p in ('slt', 'sle', 'ult', 'ule', 'olt', 'ole'), p in ('sgt', 'sge', 'ugt', 'uge', 'ogt', 'oge')
                if kind == 'f' and p in ('ult', 'ule', 'ugt', 'uge') and not isfp:
                    pass
                if y[0] == 'int' and isinstance(y[1], int):
                    lim = y[1]
                    narrow = self.narrow(x, phi)
                    if dirn > 0 and up and narrow and lim > (1 << (narrow - 1)) and lim > ((1 << narrow) - 1 if p[0] == 'u' else (1 << (narrow - 1)) - 1):
                        away = 'the %d-bit counter %s cannot reach %d' % (narrow, phi.res, lim)
                        continue
                    if dirn < 0 and p == 'uge' and lim == 0:
                        away = 'an unsigned counter is always at least zero'
                        continue
                if ks and not all(self.fails(p, k, lim) for k in ks):
                    continue
                if dirn > 0 and up or dirn < 0 and down or p == 'eq':
                    return ('ok',)
                if p == 'ne':
                    if phi.ty.k == 'ptr':
                        return ('ok',)
                    if lim is not None and all(v[0] == 'int' for v in init):
                        st = {m[1] for m in ds} | {m[2] for m in ds}
                        if len(st) == 1 and not grow:
                            s = st.pop()
                            k = self.offset(x, phi, L)
                            if all((lim - v[1] - k) % abs(s) == 0 and (lim - v[1] - k) * s >= 0 for v in init):
                                return ('ok',)
                            away = 'counter %s steps over its limit %d' % (phi.res, lim)
                            continue
                    return ('soft',) if not ds or {abs(m[1]) for m in ds} | {abs(m[2]) for m in ds} == {1} else ('soft',)
                if dirn > 0 and down or dirn < 0 and up:
                    away = 'counter %s moves away from its limit' % phi.res
        if away:
            return ('away', away)
        return ('no',)

    def narrow(self, x, phi):
        w = phi.ty.size if phi.ty.k == 'int' else None
        w = getattr(phi.ty, 'n', None) if w is None else w
        return w * 8 if w and phi.ty.k == 'int' else None

    def fails(self, p, k, lim):
        if lim is None or not isinstance(k, int):
            return False
        return not {'slt': k < lim, 'sle': k <= lim, 'sgt': k > lim, 'sge': k >= lim, 'ult': k < lim, 'ule': k <= lim, 'ugt': k > lim,
                    'uge': k >= lim, 'ne': k != lim, 'eq': k == lim}.get(p, True)

    def header_phi(self, y, L):
        for _ in range(6):
            i = self.d(y)
            if i is None:
                return None
            if i.op == 'phi' and self.blk[id(i)] == L.head:
                return i
            if i.op in CASTS or i.op in ('add', 'sub') and i.a[1][0] == 'int':
                y = i.a[0]
            else:
                return None
        return None


def key(f):
    return f[0], f[1], f[2], f[3]

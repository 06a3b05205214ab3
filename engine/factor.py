"""Singular value decomposition: the bidiagonalisation as closed forms, and one turn of the (iteration-capped) QR loop as a
transformation of an arbitrary state.  Exact-arithmetic identities of these forms, in every region of zero and sign
patterns: the product of the factors is preserved and the factors stay orthonormal."""
import itertools
import math
import random
from . import alg, api, flow, gvg, witness
from .witness import Bad, Ev

TOL = 1e-7
# zero patterns of larger matrices (signs are drawn): full, one dependent row, band
LARGE = {(3, 3): ['111111111', '111111001', '110110011', '111111111', '100110011'],
         (4, 3): ['111111111111', '111011001001']}


def capped(mod, fn):
    """loops left by comparing a counter with a literal larger than any matrix dimension analysed here"""
    f = mod.funcs[fn]
    inf = gvg.FInfo(f)
    defs = {I.res: I for b in f.order for I in f.blocks[b].ins if I.res}
    out = []

    def literal(op, depth=0):
        if op[0] != 'reg' or op[1] not in defs or depth > 6:
            return False
        c = defs[op[1]]
        if c.op == 'icmp':
            return any(x[0] in ('int', 'const') and isinstance(x[1], int) and x[1] >= 8 for x in c.a[1:])
        if c.op in ('phi', 'and', 'or', 'xor', 'select', 'zext', 'trunc'):
            return any(literal(x, depth + 1) for x in flat(c.a))
        return False

    def flat(a):
        for x in a:
            if isinstance(x, tuple) and x and x[0] == 'reg':
                yield x
            elif isinstance(x, (tuple, list)):
                yield from flat(x)
    for h, body in inf.loops.items():
        for b in body:
            t = f.blocks[b].ins[-1]
            if t.op == 'br' and t.a[0] is not None and not all(x in body for x in inf.succ[b]) and literal(t.a[0]):
                out.append(h)
                break
    return out


class Shape:
    def __init__(self, m, n, np):
        self.m, self.n, self.np = m, n, np
        P = api.Param
        self.rt = api.Routine('svd', 'int', [P(x, 'int', 1, True, False, 'scalar') for x in ('m', 'n', 'mp', 'np')] +
                              [P('a', 'double', m * np, False, False, 'obj'), P('w', 'double', n, False, False, 'obj'),
                               P('v', 'double', np * np, False, False, 'obj'), P('ws', 'double', n, False, False, 'obj')])
        self.consts = {0: m, 1: n, 2: m, 3: np}

    def U(self, i, j):
        return ('p4', 8 * (i * self.np + j))

    def V(self, i, j):
        return ('p6', 8 * (i * self.np + j))

    def w(self, i):
        return ('p5', 8 * i)

    def e(self, i):
        return ('p7', 8 * i)

    def cells(self):
        return [self.U(i, j) for i in range(self.m) for j in range(self.n)] + [self.w(i) for i in range(self.n)] + \
               [self.V(i, j) for i in range(self.n) for j in range(self.n)] + [self.e(i) for i in range(1, self.n)]


def orthonormal(rnd, m, n):
    cols = []
    while len(cols) < n:
        c = [rnd.uniform(-1, 1) for _ in range(m)]
        for q in cols:
            d = sum(x * y for x, y in zip(c, q))
            c = [x - d * y for x, y in zip(c, q)]
        r = math.sqrt(sum(x * x for x in c))
        if r > 0.1:
            cols.append([x / r for x in c])
    return [[cols[j][i] for j in range(n)] for i in range(m)]


def product(S, X, last):
    """U B V^T with the superdiagonal up to column `last`"""
    n = S.n
    B = [[0.0] * n for _ in range(n)]
    for i in range(n):
        B[i][i] = X[S.w(i)]
        if 1 <= i <= last:
            B[i - 1][i] = X[S.e(i)]
    UB = [[sum(X[S.U(i, k)] * B[k][j] for k in range(n)) for j in range(n)] for i in range(S.m)]
    return [[sum(UB[i][k] * X[S.V(j, k)] for k in range(n)) for j in range(n)] for i in range(S.m)]


def distance(A, B):
    return max(abs(x - y) for r, t in zip(A, B) for x, y in zip(r, t))


def skew(S, X):
    """departure of the columns of U and V from orthonormality"""
    d = 0.0
    for f, rows in ((S.U, S.m), (S.V, S.n)):
        for i in range(S.n):
            for j in range(S.n):
                d = max(d, abs(sum(X[f(k, i)] * X[f(k, j)] for k in range(rows)) - (i == j)))
    return d


def patterns(rnd, k, limit):
    ps = list(itertools.product((0, 1), repeat=k)) if k <= 9 else [tuple(rnd.randint(0, 1) for _ in range(k)) for _ in range(limit)]
    if len(ps) > limit:
        ps = [ps[-1]] + rnd.sample(ps, limit - 1)
    return ps


def modulus(B, fn, vals, s):
    """|x| as one quantity, without splitting on the sign of compound values"""
    def f(x):
        if not isinstance(x, alg.Poly) or len(x.t) < 2:
            return alg.vabs(x)
        return alg.patom(alg.atom('absv', x))
    return alg.fn1(f, vals[0])


def reduced(mod, fn, S, hdr, given=None, observer=None):
    """memory in front of the iteration"""
    alg.reset(1e-12, 6 if given is None else 3)
    values = None
    if given is not None:
        z = [alg.ZERO] * (S.m * S.np)
        for (i, j), x in given.items():
            v = alg.var('p4[%d]' % (i * S.np + j), rng=(0.3, 2.0))
            z[i * S.np + j] = alg.mul(alg.const(float(x)), v) if x else alg.ZERO
        values = {4: z}
    try:
        flow.closed(mod, fn, S.rt, consts=S.consts, values=values, summarise=hdr, loopstop=True, maxsym=60, observer=observer,
                    opaque={} if given is None else {x: modulus for x in ('llvm.fabs.f64', 'fabs')})
        raise alg.Unsupported('no iteration')
    except gvg.LoopReached as r:
        return r.state.mem


def reduction(mod, fn, S, hdr, tier):
    """the bidiagonal form: (valuations, findings)"""
    rnd = random.Random(7)
    places = [(i, j) for i in range(S.m) for j in range(S.n)]
    small = len(places) <= 6
    mem = reduced(mod, fn, S, hdr) if small else None
    out, seen = [], 0
    if small:
        ps = patterns(rnd, len(places), 600 if tier == 'thorough' else 140)
    else:
        ps = [tuple(int(x) for x in q) for q in LARGE.get((S.m, S.n), ())] * (3 if tier == 'thorough' else 1)
    for p in ps:
        sign = {q: on * rnd.choice((1, -1)) for q, on in zip(places, p)}
        if not small:
            mem = reduced(mod, fn, S, hdr, sign)
        bad = {}
        for unit in (1.0, 1.0, 1.0, 2.0 ** -24, 2.0 ** -24, 2.0 ** 24, 2.0 ** 24) if small else (1.0,) * 16:
            env = {}
            A = [[0.0] * S.n for _ in range(S.m)]
            for i, j in places:
                x = unit * rnd.uniform(0.3, 2)
                if small:
                    sign[i, j] = abs(sign[i, j]) * rnd.choice((1, -1))
                A[i][j] = x * sign[i, j]
                env['p4[%d]' % (i * S.np + j)] = A[i][j] if small else x
            try:
                ev = Ev(lambda A, env=env: env[A.args[0]])
                X = {c: ev.val(mem[c][0])[0] if c in mem else None for c in S.cells() + [S.e(0)]}
            except (Bad, TypeError, KeyError):
                continue
            if any(not isinstance(x, (int, float)) for x in X.values()):
                bad.setdefault('factors assigned', []).append((1.0, env))
                continue
            seen += 1
            for what, d in (('product of the factors equals the matrix', distance(product(S, X, S.n - 1), A) / unit),
                            ('columns orthonormal', skew(S, X)), ('first superdiagonal element zero', abs(X[S.e(0)]) / unit)):
                if not d <= TOL:
                    bad.setdefault(what, []).append((d, env))
        for what, es in bad.items():
            if len(es) >= 2:
                out.append((what, 'bidiagonal form', p, es[0]))
    return seen, out


def turns(mod, fn, S, hdr, observer=None):
    """closed form with the iteration loops as transformations of an arbitrary state"""
    alg.reset(1e-12, 6)
    one = [alg.const(1.0 if i // S.np == i % S.np else 0.0) for i in range(S.m * S.np)]
    return flow.closed(mod, fn, S.rt, consts=S.consts, values={4: one}, summarise=hdr, maxsym=60, observer=observer,
                       loopcells={c: (8, False) for c in S.cells()})


def turn(mod, fn, S, hdr, tier):
    """one turn of the iteration in each stage"""
    A = turns(mod, fn, S, hdr)
    recs = A.B.looprecs
    if len(recs) != S.n:
        raise alg.Unsupported('%d stages' % len(recs))
    rnd = random.Random(11)
    out, seen = [], 0
    for s, rec in enumerate(recs):
        k = S.n - 1 - s
        cellv = {v.key: v for v in rec.vars if not isinstance(v.key, str)}
        regs = [v for v in rec.vars if isinstance(v.key, str)]
        free = [S.w(i) for i in range(k + 1)] + [S.e(i) for i in range(1, k + 1)]
        for p in patterns(rnd, len(free), 600 if tier == 'thorough' else 140):
            bad = {}
            for unit in (1.0, 1.0, 1.0, 2.0 ** -16, 2.0 ** -16, 2.0 ** 16, 2.0 ** 16):
                X = {}
                for f, rows in ((S.U, S.m), (S.V, S.n)):
                    Q = orthonormal(rnd, rows, S.n)
                    for i in range(rows):
                        for j in range(S.n):
                            X[f(i, j)] = Q[i][j]
                for i in range(S.n):
                    X[S.w(i)] = unit * rnd.uniform(0.3, 2)
                    X[S.e(i)] = unit * rnd.uniform(0.3, 2) if i else 0.0
                for on, c in zip(p, free):
                    X[c] = unit * rnd.uniform(0.3, 2) * rnd.choice((1, -1)) if on else 0.0
                env = {}
                for c, v in cellv.items():
                    env[str(v.atom)] = X.get(c, 0.0)
                for v in regs:
                    try:
                        env[str(v.atom)] = Ev(None).val(v.init)[0]
                    except Exception:
                        env[str(v.atom)] = 0.0
                    if not isinstance(env[str(v.atom)], (int, float)):
                        env[str(v.atom)] = 0.0
                try:
                    ev = Ev(lambda A, env=env: env[A.args[0]])
                    Y, stop = dict(X), None
                    if ev.val(rec.cont)[0] == 1:
                        for c, v in cellv.items():
                            Y[c] = ev.val(v.next)[0]
                        jumps = [ev.val(v.next)[0] - ev.val(v.init)[0] for v in regs if isinstance(v.init, alg.Poly) and v.init.is_const()]
                        if any(isinstance(x, (int, float)) and x >= 8 for x in jumps):
                            stop = True
                    else:
                        # left in mid-turn: the state is what the next stage (or the caller) gets
                        nxt = {v.key: v.init for v in recs[s + 1].vars} if s + 1 < len(recs) else {c: x[0] for c, x in A.mem.items()}
                        for c in S.cells():
                            if c in nxt:
                                Y[c] = ev.val(nxt[c])[0]
                        stop = True
                except (Bad, TypeError, KeyError):
                    continue
                if any(not isinstance(y, (int, float)) for y in Y.values()):
                    continue
                seen += 1
                want = product(S, X, k)
                d0, d1 = distance(product(S, Y, k), want), distance(product(S, Y, k - 1), want)
                checks = [('product of the factors preserved', (d1 if stop else min(d0, d1)) / unit), ('columns orthonormal', skew(S, Y)),
                          ('first superdiagonal element zero', abs(Y[S.e(0)]) / unit),
                          ('finished singular values kept', 1.0 / unit * max([abs(X[S.w(j)] - Y[S.w(j)]) for j in range(k + 1, S.n)] or [0.0]))]
                if stop:
                    checks.append(('singular value not negative', max(0.0, -Y[S.w(k)])))
                for what, d in checks:
                    if not d <= TOL:
                        bad.setdefault(what, []).append((d, X))
            for what, es in bad.items():
                if len(es) >= 2:
                    out.append((what, 'turn of the iteration, stage %d' % k, p, es[0]))
    return seen, out


def wrongshape(mod, fn, S, hdr, tier):
    """more columns than rows: reported, nothing touched"""
    alg.reset(1e-12)
    S = Shape(S.m, S.m + 1, S.m + 1)
    C = flow.closed(mod, fn, S.rt, consts=S.consts, maxsym=60)
    out = []
    if C.ret is not alg.const(-1):
        out.append(('status of a matrix with too few rows is -1', 'shape %d x %d' % (S.m, S.n), (), (str(C.ret), {})))
    if C.cells:
        out.append(('outputs untouched', 'shape %d x %d' % (S.m, S.n), (), (str(sorted(C.cells)[0]), {})))
    return 2, out

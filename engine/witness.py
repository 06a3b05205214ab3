"""Distinguishing valuations: given two normal forms that differ, look for values of the inputs inside the region of
disagreement for which the two forms denote different numbers.  Nothing of the library runs: only the two closed forms
are evaluated.  A disagreement without such a valuation is reported as undecided, never as a violation, because two
normal forms can differ although they denote the same function."""
import time
import math
import random
from . import alg
from .alg import Poly, Node, Ptr, Undef

PI = math.pi


class Bad(Exception):
    pass


class NotANumber(Bad):
    """a library function far outside its domain"""


class DivZero(Bad):
    """the value itself is a quotient by exactly zero"""


def h01(*a):
    r = random.Random(repr(a))
    return r.uniform(-2, 2)


EPS = 4e-16


def linear(k, a, err):
    """meaning of the linear-system atoms: args (i, n, matrix by rows[, vector]) -> solution, inverse, determinant, singular"""
    i, n = int(a[0]), int(a[1])
    m = [[float(x) for x in a[2 + r * n:2 + r * n + n]] for r in range(n)]
    rhs = [[float(a[2 + n * n + r])] if k == 'linx' else [1.0 if r == c else 0.0 for c in range(n)] for r in range(n)]
    big = max(abs(x) for r in m for x in r) or 1.0
    det, growth = 1.0, 1.0
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(m[r][c]))
        if abs(m[p][c]) <= 1e-9 * big:
            if k != 'linsing' or abs(m[p][c]) > 1e-14 * big + n * n * err:
                raise Bad()          # too close to singular to call
            return 1.0, 0.0
        growth = max(growth, big / abs(m[p][c]))
        if p != c:
            m[p], m[c], rhs[p], rhs[c] = m[c], m[p], rhs[c], rhs[p]
            det = -det
        det *= m[c][c]
        for r in range(n):
            if r != c:
                q = m[r][c] / m[c][c]
                m[r] = [x - q * y for x, y in zip(m[r], m[c])]
                rhs[r] = [x - q * y for x, y in zip(rhs[r], rhs[c])]
    if abs(det) < 1e-18:
        raise Bad()
    if k == 'linsing':
        return 0.0, 0.0
    if k == 'lindet':
        return det, abs(det) * growth * (err / big + 64 * EPS)
    r, c = (i, 0) if k == 'linx' else divmod(i, n)
    v = rhs[r][c] / m[r][r]
    scale = max(abs(x) for q in rhs for x in q) + abs(v) + 1.0
    return v, scale * growth * growth * (err / big + 64 * EPS)


class Ev:
    """evaluates normal forms with a forward error estimate: every value is (value, error)"""
    def __init__(self, env, cut=None):
        self.env = env
        self.cut = cut                 # sign given to an arctangent exactly on its cut: +1, -1, None (refuse) or 0 (mixed)
        self.am = {}
        self.pm = {}

    def atom(self, a):
        v = self.am.get(a)
        if v is None:
            try:
                v = self._atom(a)
            except DivZero:
                raise Bad()              # infinities may be harmless inside a function
            except (ValueError, OverflowError, ZeroDivisionError):
                raise Bad()
            if v[0] != v[0] or abs(v[0]) == math.inf or v[1] != v[1]:
                raise Bad()
            self.am[a] = v
        return v

    def _atom(self, a):
        A = alg._atoms[a]
        k = A.kind
        if k == 'in':
            return self.env(A), 0.0
        if k == 'divides':
            return (1.0 if round(self.val(A.args[0])[0]) % A.args[1] == 0 else 0.0), 0.0
        args = [self.val(x) if isinstance(x, (Poly, Node, Ptr, Undef)) else (x, 0.0) for x in A.args]
        if any(isinstance(x, (Ptr, Undef)) for x, e in args):
            return h01(k, *[repr(x) for x, e in args]), 0.0
        if k in ('linx', 'lininv', 'lindet', 'linsing'):
            return linear(k, [z[0] for z in args], max([z[1] for z in args] or [0.0]))
        x, e = args[0] if args else (0.0, 0.0)
        if k == 'abbr':
            return x, e
        if k == 'absv':
            return abs(x), e
        if k in ('sin', 'cos'):
            return getattr(math, k)(x), min(e + EPS * abs(x), 2.0) + EPS
        if k in ('exp', 'sinh', 'cosh'):
            v = getattr(math, k)(x)
            return v, (abs(v) + 1) * (e + EPS)
        if k == 'log':
            return math.log(x), e / x + EPS * 4
        if k in ('asin', 'acos'):
            if abs(x) > 1 and abs(x) < 1 + 1e-14:
                x = math.copysign(1.0, x)
            if abs(x) > 1 + 1e-6 + 16 * e:
                raise NotANumber()
            v = getattr(math, k)(x)
            return v, e / math.sqrt(max(1 - x * x, e, EPS)) + EPS
        if k in ('atan', 'tanh'):
            return getattr(math, k)(x), e + EPS
        if k == 'sqrt':
            if x < 0:
                if x < -e - 1e-15:
                    raise NotANumber() if x < -1e-6 - 16 * e else Bad()
                return 0.0, math.sqrt(e)
            return math.sqrt(x), (min(e / (2 * math.sqrt(x)), math.sqrt(e)) if x > 0 else math.sqrt(e)) + EPS * math.sqrt(x)
        if k == 'sum':
            return x, e
        if k == 'atan2':
            (y, ey), (x, ex) = args[0], args[1]
            r = math.hypot(x, y)
            if r <= 4 * (ex + ey):
                raise Bad()
            if x < 0 and abs(y) <= 4 * ey:
                if self.cut is None:
                    raise Bad()          # on the cut
                s = self.cut or (1 if a % 2 else -1)
                return s * PI, EPS * 4
            return math.atan2(y, x), (ex + ey) / r + EPS * 4
        if k == 'fmod':
            (x, ex), (y, ey) = args[0], args[1]
            r = math.fmod(x, y)
            er = ex + abs(x / y) * ey + EPS * abs(x)
            if er and (abs(r) <= 2 * er or abs(abs(r) - abs(y)) <= 2 * er):
                raise Bad()
            return r, er
        if k in ('trunc', 'floor'):
            if e and abs(x - round(x)) <= 4 * e:
                raise Bad()
            return float(math.trunc(x) if k == 'trunc' else math.floor(x)), 0.0
        if k == 'round':
            if e and abs(abs(x - math.trunc(x)) - .5) <= 4 * e:
                raise Bad()
            return float(alg.c_round(x)), 0.0
        if k == 'idiv':
            n, m = round(args[0][0]), round(args[1][0])
            if m == 0:
                raise Bad()
            q = abs(n) // abs(m)
            return float(q if (n >= 0) == (m > 0) else -q), 0.0
        if k == 'floordiv':
            return float(round(args[0][0]) // round(args[1][0])), 0.0
        if k == 'pow':
            if x < -1e-6 - 16 * e and args[1][0] != round(args[1][0]):
                raise NotANumber()
            v = math.pow(args[0][0], args[1][0])
            return v, abs(v) * (abs(args[1][0]) * (e / abs(x) if x else 0) + args[1][1] * abs(math.log(abs(x) or 1)) + 4 * EPS)
        if k == 'cbrt':
            return math.copysign(abs(x) ** (1 / 3.), x), e + EPS
        return h01(k, *[float('%.9g' % z) if isinstance(z, float) else z for z, _ in args]), 0.0

    def poly(self, p):
        r = self.pm.get(p.id)
        if r is None:
            s, err = [], 0.0
            try:
                for m, c in p.t.items():
                    t, rel = float(c), 2 * EPS
                    for a, e in m:
                        if alg._atoms[a].kind == 'div0':
                            raise DivZero()
                        v, ve = self.atom(a)
                        if e < 0 and v == 0 and ve == 0:
                            raise DivZero()
                        t *= v ** e
                        rel += abs(e) * (ve / abs(v) if v else 0.0) + abs(e) * EPS
                        if v == 0 and ve:
                            err += abs(c) * ve      # coarse
                    s.append(t)
                    if len(m) or len(p.t) > 1:
                        err += abs(t) * rel
                r = (math.fsum(s), 0.0 if alg.is_int(p) else err)
            except (ZeroDivisionError, OverflowError, ValueError):
                raise Bad()
            if r[0] != r[0] or abs(r[0]) == math.inf:
                raise Bad()
            self.pm[p.id] = r
        return r

    def leaf(self, v):
        while isinstance(v, Node):
            v = self.step(v)
        return v

    def step(self, v):
        x, e = self.poly(v.q)
        for i, b in enumerate(v.br):
            if e and abs(x - b[0]) <= 4 * e and x != b[0]:
                raise Bad()
            if x < b[0] or (x == b[0] and b[1] == 1):
                break
        else:
            i = len(v.br)
        return v.kids[i]

    def val(self, v):
        v = self.leaf(v)
        return self.poly(v) if isinstance(v, Poly) else (v, 0.0)


SPECIAL = [0.0, 1.0, -1.0, 0.5, -0.5, PI / 2, -PI / 2, PI, -PI, 2.0, -2.0, 3 * PI / 2, 2 * PI]


class Search:
    def __init__(self, seed, hints=None):
        self.rnd = random.Random(seed)
        self.hints = hints or {}       # input name -> (lo, hi)

    def draw(self, A, env=None):
        r = self.rnd
        nm = A.args[0]
        rng = self.hints.get(nm) or alg.RANGES.get(nm)
        if rng is not None and rng[0] == 'orbit':      # the values a counter takes
            return float(r.choice(rng[1]))
        if rng is not None and rng[0] == 'near':       # around the value a loop variable starts with
            rng, v0 = None, rng[1]
            if env is not None and r.random() < .8:
                try:
                    v = Ev(env).val(v0)[0]
                    if isinstance(v, float):
                        v += r.choice((0.0, 1e-6, 1e-3, .1, 1.0)) * r.uniform(-1, 1) * (abs(v) or 1.0)
                        return float(round(v)) if A.isint else v
                except Bad:
                    pass
        if rng is not None and rng[0] > -1e300 and rng[1] < 1e300:
            v = r.uniform(*rng)
            if r.random() < .15:
                v = r.choice(rng)
        else:
            c = r.random()
            if A.isint:
                v = r.randint(-3, 3) if c < .3 else r.randint(-70, 70) if c < .6 else r.randint(-6000, 60000)
            elif c < .12:
                v = r.choice(SPECIAL)
            elif c < .6:
                v = r.uniform(-4, 4)
            elif c < .75:
                v = r.uniform(-1, 1) * 10.0 ** r.uniform(-8, 1)
            elif c < .9:
                v = r.uniform(-400, 400)
            else:
                v = r.uniform(-1, 1) * 10.0 ** r.uniform(1, 6)
        return float(round(v)) if A.isint else v

    def env(self):
        d = {}
        # now and then a degenerate caller: all components of an argument equal
        same = self.rnd.random() < .12 and not any(h[0] == 'near' for h in self.hints.values())
        com = {}

        def get(A):
            v = d.get(A.id)
            if v is None:
                if same and not A.isint:
                    k = A.args[0].split('[')[0]
                    v = com.get(k)
                    if v is None:
                        v = com[k] = 0.0 if self.rnd.random() < .3 else self.draw(A)
                else:
                    v = self.draw(A, get)
                d[A.id] = v
            return v
        get.d = d
        return get

    @staticmethod
    def inside(xe, lo, hi):
        x, e = xe
        if lo is not None and hi is not None and lo[0] == hi[0]:
            return abs(x - lo[0]) <= max(4 * e, 1e-13 * abs(lo[0]))
        for b in (lo, hi):
            if b is not None and e and abs(x - b[0]) <= 4 * e and x != b[0]:
                return False
        if lo is not None and (x < lo[0] or (x == lo[0] and lo[1] == 1)):
            return False
        if hi is not None and (x > hi[0] or (x == hi[0] and hi[1] == 0)):
            return False
        return True

    def target(self, lo, hi):
        r = self.rnd
        if lo is not None and hi is not None:
            if lo[0] == hi[0]:
                return lo[0]
            return r.uniform(lo[0], hi[0])
        if lo is None and hi is None:
            return r.uniform(-5, 5)
        b = abs((lo or hi)[0])
        if 0 < b < 1e-2 and r.random() < .5:
            return lo[0] + b * r.random() if lo is not None else hi[0] - b * r.random()
        sc = 10.0 ** r.uniform(-3, 1) * max(1.0, b * .3)
        return lo[0] + sc if lo is not None else hi[0] - sc

    def solve(self, path, tries=60, rounds=40):
        """yields valuations that satisfy every test of the path (point tests up to rounding)"""
        qs = [(q, lo, hi, [a for a in alg.atoms_of(q) if a.kind == 'in']) for q, lo, hi in path]
        for _ in range(tries):
            env = self.env()
            for a in {a for z in qs for a in z[3]}:
                env(a)
            ok = False
            for it in range(rounds):
                ev = Ev(env)
                viol = None
                order = list(qs)
                self.rnd.shuffle(order)
                try:
                    for z in order:
                        if not self.inside(ev.poly(z[0]), z[1], z[2]):
                            viol = z
                            break
                except Bad:
                    break
                if viol is None:
                    ok = True
                    break
                if not self.move(env, viol):
                    break
            if ok:
                yield env

    def move(self, env, z):
        q, lo, hi, ats = z
        if not ats:
            return False
        a = self.rnd.choice(ats)
        d = env.d
        old = d[a.id]
        if self.rnd.random() < .25 or (self.hints.get(a.args[0]) or ' ')[0] == 'orbit':
            d[a.id] = self.draw(a, env)
            return True
        if self.rnd.random() < .08:
            # towards the origin, all quantities of the test together
            s = 10.0 ** -self.rnd.randint(1, 15)
            for b in ats:
                if not b.isint and b.args[0] not in alg.RANGES and (self.hints.get(b.args[0]) or ' ')[0] != 'orbit':
                    d[b.id] *= s
            return True
        t = self.target(lo, hi)
        x = old
        try:
            for _ in range(8):
                f0 = Ev(env).poly(q)[0] - t
                if f0 == 0:
                    return True
                hstep = 1.0 if a.isint else 1e-6 * max(1.0, abs(x))
                d[a.id] = x + hstep
                f1 = Ev(env).poly(q)[0] - t
                g = (f1 - f0) / hstep
                if g == 0:
                    d[a.id] = self.draw(a)
                    return True
                x = x - f0 / g
                if a.isint:
                    x = float(round(x))
                rng = alg.RANGES.get(a.args[0])
                if rng is not None:
                    x = min(max(x, rng[0]), rng[1])
                if abs(x) > 1e12:
                    d[a.id] = old
                    return True
                d[a.id] = x
                if a.isint or abs(f0) < 1e-13 * max(1.0, abs(t)):
                    break
            return True
        except Bad:
            d[a.id] = self.draw(a)
            return True


def nudge(env, S):
    """a valuation close by (integers stay)"""
    dd = {a: (v if alg._atoms[a].isint else v + 1.3e-6 * max(abs(v), .1)) for a, v in env.d.items()}

    def get(A):
        if A.id not in dd:
            dd[A.id] = S.draw(A)
        return dd[A.id]
    get.d = dd
    return get


def describe(env):
    out = {}
    for aid, v in sorted(env.d.items()):
        out[alg._atoms[aid].args[0]] = v
    return out


LIMIT = 12          # seconds spent looking for one distinguishing valuation, per stage
_rem = {}


def remainder(x, y):
    """x - y without the terms both have (to 1e-9 of their coefficients); None when nothing is common"""
    k = (x.id, y.id)
    if _rem.get('tab') is not alg._polys:
        _rem.clear()
        _rem['tab'] = alg._polys
    if k in _rem:
        return _rem[k]
    common, D = 0, {}
    for m in set(x.t) | set(y.t):
        a, b = x.t.get(m, 0), y.t.get(m, 0)
        if a and b and abs(a - b) <= 1e-9 * max(abs(a), abs(b)):
            common += 1
        else:
            D[m] = a - b
    _rem[k] = r = alg.mkpoly(D) if common and D else None
    return r


def differs(ev, a, b, tol, floor=0.0):
    """a, b gated or leaf values"""
    x, y = ev.leaf(a), ev.leaf(b)
    if x is y:
        return None
    if isinstance(x, Poly) and isinstance(y, Poly):
        (vx, ex), (vy, ey) = ev.poly(x), ev.poly(y)
        if abs(vx - vy) > tol * max(abs(vx), abs(vy)) + 16 * (ex + ey) + floor and abs(vx - vy) > 1e-290:
            return vx, vy
        D = remainder(x, y)
        if D is not None:
            v, e = ev.poly(D)
            s = math.fsum(abs(ev.poly(alg.mkpoly({m: c}))[0]) for m, c in D.t.items())
            if abs(v) > tol * s + 16 * e + floor and abs(v) > 1e-290:
                return vx, vy
        return None
    if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj:
        vx, vy = ev.poly(x.off)[0], ev.poly(y.off)[0]
        return (repr(x), repr(y)) if abs(vx - vy) > .5 else None
    return repr(x), repr(y)


def roundings(v):
    """atoms that jump inside the argument range, anywhere in a gated value"""
    return [A for A in alg.atoms_of(v) if A.kind in ('round', 'trunc', 'floor', 'fmod') and isinstance(A.args[0], Poly)]


def near_jumps(S, ats, tries):
    """valuations just beside a jump of one of the given atoms, with a valuation still closer to it"""
    r = S.rnd
    ats = sorted(ats, key=lambda A: A.id)
    for _ in range(tries):
        A = r.choice(ats)
        q = A.args[0]
        ins = sorted((x for x in alg.atoms_of(q) if x.kind == 'in' and not x.isint), key=lambda x: x.id)
        if not ins:
            continue
        env = S.env()
        a = r.choice(ins)
        env(a)
        try:
            y0 = Ev(env).poly(q)[0]
            unit = abs(Ev(env).val(A.args[1])[0]) if A.kind == 'fmod' else 1.0
            k = math.floor(y0 / unit) + (.5 if A.kind == 'round' else 0.0)
            if r.random() < .5:
                k = k - math.floor(k) + r.randint(-3, 3)
            delta = r.choice((-1, 1)) * 10.0 ** r.uniform(-7, -.5)
            ok = False
            for dd in (delta, delta * .8):
                t = (k + dd) * unit
                ok = False
                for _ in range(12):
                    x = env.d[a.id]
                    f0 = Ev(env).poly(q)[0] - t
                    if abs(f0) < 1e-2 * abs(delta) * unit:
                        ok = True
                        break
                    h = 1e-7 * max(abs(x), 1e-9)
                    env.d[a.id] = x + h
                    g = (Ev(env).poly(q)[0] - t - f0) / h
                    if g == 0:
                        break
                    env.d[a.id] = x - f0 / g
                if not ok:
                    break
                if dd == delta:
                    first = dict(env.d)
            if not ok:
                continue
        except (Bad, OverflowError, ZeroDivisionError):
            continue
        env1 = S.env()
        env1.d.update(first)
        yield env1, env


def holds(env, care):
    try:
        return Ev(env).val(care)[0] == 1
    except Bad:
        return False


def outside(ev, name, vals):
    """is the call outside the domain of the function?"""
    x = ev.val(vals[0])[0]
    if name == 'sqrt':
        return x < 0
    if name in ('asin', 'acos'):
        return abs(x) > 1
    y = ev.val(vals[1])[0]
    return x < 0 and y != round(y)


def isnan(ev, v):
    """is v surely not a number (where a test is on something that is no number: whichever way it goes)"""
    try:
        if isinstance(v, Node):
            try:
                k = ev.step(v)
            except NotANumber:
                return all(isnan(ev, k) for k in v.kids)
            return isnan(ev, k)
        if isinstance(v, Poly):
            ev.poly(v)
    except NotANumber:
        return True
    except Bad:
        pass
    return False


def by_zero(env, x, y, divs, cut=None):
    """the code divides by zero to get x at a valuation where y is defined"""
    if not divs:
        return None
    e = Ev(env, cut)
    nan = isnan(e, x)
    if not nan:
        try:
            e.poly(e.leaf(x))
            return None
        except DivZero:
            pass
        except Bad:
            return None
    try:
        v = Ev(env, cut).val(y)
    except Bad:
        return None
    for pc, q in divs:
        try:
            if nan or isinstance(q, tuple):
                if nan and isinstance(q, tuple) and outside(Ev(env, cut), *q) and Ev(env, cut).val(pc)[0] == 1:
                    return 'not a number', v[0]
            elif Ev(env, cut).val(q) == (0.0, 0.0) and Ev(env, cut).val(pc)[0] == 1:
                return 'division by zero', v[0]
        except Bad:
            pass
    return None


def sample(a, b, care=None, tol=None, S=None, budget=400, divs=None, hints=None):
    """random valuations inside care"""
    tol = tol or max(1e-10, 30 * alg.TOL)
    S = S or Search(1, hints)
    t0 = time.time()
    n = 0
    while (n < budget or n < 10 * budget and time.time() - t0 < 3) and time.time() - t0 < LIMIT:
        n += 1
        env = S.env()
        try:
            ev = Ev(env)
            if care is not None and ev.val(care)[0] != 1:
                continue
            d = differs(ev, a, b, tol)
            if d and not differs(Ev(nudge(env, S)), a, b, tol):
                d = None
        except Bad:
            d = by_zero(env, a, b, divs) if care is None or holds(env, care) else None
        if d:
            return (), describe(env), d[0], d[1]
    return None


def steadily(a, b, care=None, hints=None, need=4, tries=8000, tol=None):
    """random valuations inside care, a good part of which distinguish the two"""
    tol = tol or max(1e-10, 30 * alg.TOL)
    S = Search(1, hints)
    t0, bad, valid, first = time.time(), 0, 0, None
    for _ in range(tries):
        if time.time() - t0 > LIMIT or valid >= 250:
            break
        env = S.env()
        try:
            ev = Ev(env)
            if care is not None and ev.val(care)[0] != 1:
                continue
            d = differs(ev, a, b, tol)
            valid += 1
        except Bad:
            continue
        if d:
            bad += 1
            first = first or ((), describe(env), d[0], d[1])
            if bad >= need:
                return first, valid
    return None, valid


def confirm(a, b, care=None, seed=1, tol=None, hints=None, maxregions=40, budget=400, divs=None):
    """(region, valuation, value_a, value_b) or None"""
    tol = tol or max(1e-10, 30 * alg.TOL)
    S = Search(seed, hints)
    # inside the regions where the normal forms differ
    n = 0
    t0 = time.time()
    for path, x, y in alg.disagreements(a, b, care):
        n += 1
        if n > maxregions or time.time() - t0 > LIMIT:
            break
        point = any(lo and hi and lo[0] == hi[0] for q, lo, hi in path)
        floor = 1e-9 if point else 0.0
        cuts = (1, -1, 0) if point else (None,)
        k = 0
        for env in S.solve(path, tries=25):
            k += 1
            try:
                for c in cuts:       # whatever the sign of a zero
                    d = differs(Ev(env, c), x, y, tol, floor)
                    if not d:
                        break
                if d and isinstance(x, Poly) and isinstance(y, Poly) and not differs(Ev(nudge(env, S)), x, y, tol, floor):
                    d = None       # only at a jump of one of the forms
            except Bad:
                d = by_zero(env, x, y, divs)
            if d:
                return path, describe(env), d[0], d[1]
            if k >= 12:
                break
    w = sample(a, b, care, tol, S, budget, divs)
    if w:
        return w
    ats = roundings(a) + roundings(b)
    if ats:
        t0 = time.time()
        for e1, e2 in near_jumps(S, ats, budget):
            if time.time() - t0 > LIMIT:
                break
            try:
                if care is not None and (Ev(e1).val(care)[0] != 1 or Ev(e2).val(care)[0] != 1):
                    continue
                d = differs(Ev(e1), a, b, tol)
                if d and not differs(Ev(e2), a, b, tol):
                    d = None
            except Bad:
                continue
            if d:
                return (), describe(e1), d[0], d[1]
    return None

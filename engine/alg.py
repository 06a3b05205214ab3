"""Value domain of the gated value graph.

A value is a *gated normal form*: an interval decision diagram (IDD) whose decision nodes test a real quantity against
thresholds, and whose leaves are multivariate (Laurent) polynomials with numeric coefficients over atoms.  Atoms are the
routine's inputs and applications of library functions (sin, atan2, fmod, ...) to values already in normal form.  Every
object is interned, so equality of normal forms is identity.

Arithmetic is over the reals: rounding, overflow and NaN are outside the domain, so re-associated or re-distributed code
has the same normal form.  Numeric coefficients are identified up to a relative tolerance (TOL), which absorbs the
rounding of compile-time folded constants.
"""
import math
import sys

sys.setrecursionlimit(200000)


class Blowup(Exception):
    """normal form grew beyond the configured budget"""


class Unsupported(Exception):
    """construct outside the analysis domain"""


TOL = 4e-12
MAXTERMS = 40000
MAXNODES = 400000
INF = float('inf')
PI = math.pi


def reset(tol=4e-12, abbr=0):
    global TOL, _ck, _atoms, _atom_tab, _polys, _nodes, _ptrs, _undefs, ZERO, ONE, _mulc, _itec, _addc, _mm, _ivc
    global ABBR, _monoc, _nodecount, _pair, _ivov, RANGES, _sos, _div0
    _sos = {}
    _div0 = None
    RANGES = {}
    TOL = tol
    ABBR = abbr
    _ck = {}
    _atoms = []
    _atom_tab = {}
    _polys = {}
    _nodes = {}
    _ptrs = {}
    _undefs = {}
    _mulc = {}
    _addc = {}
    _itec = {}
    _mm = {}
    _ivc = {}
    _ivov = {}
    _monoc = {}
    _pair = {}
    _nodecount = 0
    ZERO = const(0)
    ONE = const(1)


def coefrep(c):
    """representative of the tolerance class of a coefficient"""
    a = abs(c)
    if a == 0:
        return 0
    if a == INF or a != a:
        return repr(c)
    b = math.floor(math.log(a) / TOL)
    for k in (b, b - 1, b + 1):
        r = _ck.get(k)
        if r is not None and abs(r - a) <= TOL * a:
            return r if c > 0 else -r
    _ck[b] = a
    return a if c > 0 else -a


class Atom:
    __slots__ = ('id', 'kind', 'args', 'isint')

    def __repr__(self):
        return show_atom(self.id)


def atom(kind, *args, isint=False):
    k = (kind,) + tuple(('P', a.id) if isinstance(a, (Poly, Node, Ptr, Undef)) else a for a in args)
    r = _atom_tab.get(k)
    if r is None:
        r = Atom()
        r.id = len(_atoms)
        r.kind, r.args, r.isint = kind, args, isint
        _atoms.append(r)
        _atom_tab[k] = r
    return r


_idc = [0]


def newid():
    _idc[0] += 1
    return _idc[0]


class Poly:
    __slots__ = ('t', 'id', '_iv', '_int')

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), 0)

    def __repr__(self):
        return show(self)


class Ptr:
    __slots__ = ('obj', 'off', 'id')

    def __repr__(self):
        return '&%s+%r' % (self.obj, self.off)


class Undef:
    __slots__ = ('why', 'id')

    def __repr__(self):
        return 'undef(%s)' % (self.why,)


class Node:
    __slots__ = ('q', 'br', 'kids', 'id')

    def __repr__(self):
        return show(self)


def ptr(obj, off):
    k = (obj, off.id)
    r = _ptrs.get(k)
    if r is None:
        r = Ptr()
        r.obj, r.off, r.id = obj, off, newid()
        _ptrs[k] = r
    return r


def undef(why):
    r = _undefs.get(why)
    if r is None:
        r = Undef()
        r.why, r.id = why, newid()
        _undefs[why] = r
    return r


def norm(c):
    if isinstance(c, float) and c.is_integer() and abs(c) < 9e15:
        return int(c)
    return c


def mkpoly(t):
    """t: dict mono->coef with monos already normalised; interned"""
    if len(t) > MAXTERMS:
        raise Blowup('polynomial with %d terms' % len(t))
    key = frozenset((m, coefrep(c)) for m, c in t.items() if c != 0)
    r = _polys.get(key)
    if r is None:
        r = Poly()
        r.t = {m: norm(c) for m, c in t.items() if c != 0}
        r.id = newid()
        r._iv = r._int = None
        _polys[key] = r
    return r


def const(c):
    return mkpoly({(): c} if c != 0 else {})


def patom(a):
    return mkpoly({((a.id, 1),): 1})


def var(name, isint=False, rng=None):
    if rng is not None:
        RANGES[name] = rng
    return patom(atom('in', name, isint=isint))


def is_int(p):
    if p._int is None:
        p._int = all((isinstance(c, int)) and all(_atoms[a].isint and e > 0 for a, e in m) for m, c in p.t.items())
    return p._int


def _acc(t, m, c):
    o = t.get(m)
    if o is None:
        t[m] = c
    else:
        s = o + c
        if abs(s) <= 20 * TOL * max(abs(o), abs(c)) and not (isinstance(o, int) and isinstance(c, int) and s != 0):
            del t[m]
        else:
            t[m] = s


def DIV0():
    """the result of a division by zero; absorbs everything"""
    global _div0
    if _div0 is None:
        _div0 = patom(atom('div0'))
    return _div0


def padd(a, b):
    if a is _div0 or b is _div0:
        if _div0 is not None:
            return _div0
    if not a.t:
        return b
    if not b.t:
        return a
    k = (a.id, b.id) if a.id < b.id else (b.id, a.id)
    r = _addc.get(k)
    if r is None:
        if len(a.t) < len(b.t):
            a, b = b, a
        t = dict(a.t)
        for m, c in b.t.items():
            _acc(t, m, c)
        r = _addc[k] = mkpoly(t)
        sa, sb = _sos.get(a.id), _sos.get(b.id)
        if sa and sb and r.id not in _sos and len(sa) + len(sb) <= 40:
            _sos[r.id] = sa + sb
    return r


def psum(ps):
    """sum of many polynomials"""
    t = {}
    for p in ps:
        if p is _div0 and p is not None:
            return p
        for m, c in p.t.items():
            _acc(t, m, c)
    return mkpoly(t)


def pscale(a, k):
    if a is _div0 and a is not None:
        return a
    if k == 0:
        return ZERO
    if k == 1:
        return a
    r = mkpoly({m: c * k for m, c in a.t.items()})
    if k > 0 and a.id in _sos and r.id not in _sos:
        _sos[r.id] = _sos[a.id]        # same zeros, same sign
    return r


def pneg(a):
    return pscale(a, -1)


def psub(a, b):
    return padd(a, pneg(b))


def _raw_mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        s = d.get(a, 0) + e
        if s:
            d[a] = s
        else:
            del d[a]
    return tuple(sorted(d.items()))


def _trigger(m):
    """index of a rewrite that applies to mono m, or None"""
    d = None
    for a, e in m:
        k = _atoms[a].kind
        if k == 'sqrt' and (e >= 2 or e < 0):
            return ('sqrt', a, e)
        if k == 'cos' and e >= 2:
            return ('cos', a, e)
        if k == 'sin' and e >= 2:
            if d is None:
                d = dict(m)
            c = _pair.get(a)
            if c is not None and d.get(c, 0) < 0:
                return ('sin', a, e)
        if k == 'sum':
            if e > 0:
                return ('sum+', a, e)
            lm = _atoms[a].args[1]
            if d is None:
                d = dict(m)
            if all(d.get(x, 0) >= y for x, y in lm):
                return ('sum-', a, e)
        if k == 'abs' and e >= 2:
            return ('abs', a, e)
    return None


def mono_norm(m):
    """mono (raw) -> Poly"""
    r = _monoc.get(m)
    if r is not None:
        return r
    tr = _trigger(m)
    if tr is None:
        r = mkpoly({m: 1})
    else:
        kind, a, e = tr
        rest = tuple(x for x in m if x[0] != a)
        if kind == 'sqrt':
            q, s = divmod(e, 2)
            arg = _atoms[a].args[0]
            base = ppow(arg, q)
            r = pmul(mono_norm(rest), base)
            if s:
                r = pmul(r, mkpoly({((a, 1),): 1}))
        elif kind == 'cos':
            s2 = mkpoly({((_pair[a], 2),): 1})
            r = pmul(mono_norm(_raw_mono_mul(rest, ((a, e - 2),) if e > 2 else ())), psub(ONE, s2))
        elif kind == 'sin':
            c2 = {(): 1, ((_pair[a], 2),): -1}
            base = _raw_mono_mul(rest, ((a, e - 2),) if e > 2 else ())
            r = padd(mono_norm(base), pneg(mono_norm(_raw_mono_mul(base, ((_pair[a], 2),)))))
        elif kind == 'abs':
            arg = _atoms[a].args[0]
            r = pmul(mono_norm(_raw_mono_mul(rest, ((a, e - 2),) if e > 2 else ())), ppow(arg, 2))
        elif kind == 'sum+':
            r = pmul(mono_norm(rest), ppow(_atoms[a].args[0], e))
        else:  # lm(S) * S^-1 = 1 - (S - lm) * S^-1
            S, lm = _atoms[a].args[0], _atoms[a].args[1]
            cofac = _raw_mono_mul(m, tuple((x, -y) for x, y in lm))   # m / lm, still has a^e
            r = mono_norm(_raw_mono_mul(cofac, ((a, 1),)))
            for mm, cc in S.t.items():
                if mm != lm:
                    r = padd(r, pscale(mono_norm(_raw_mono_mul(cofac, mm)), -cc))
    _monoc[m] = r
    return r


def _mono_mul(m1, m2):
    k = (m1, m2)
    r = _mm.get(k)
    if r is None:
        raw = _raw_mono_mul(m1, m2)
        r = raw if _trigger(raw) is None else mono_norm(raw)
        if len(_mm) < 2000000:
            _mm[k] = r
    return r


def pmul(a, b):
    if (a is _div0 or b is _div0) and _div0 is not None:
        return _div0
    if not a.t or not b.t:
        return ZERO
    if a.is_const():
        return pscale(b, a.cval())
    if b.is_const():
        return pscale(a, b.cval())
    k = (a.id, b.id) if a.id < b.id else (b.id, a.id)
    r = _mulc.get(k)
    if r is not None:
        return r
    if ABBR and len(a.t) > 1 and len(b.t) > 1 and len(a.t) * len(b.t) > ABBR and not (is_int(a) and is_int(b)):
        r = _mulc[k] = pmul(short(a), short(b))
        return r
    if len(a.t) * len(b.t) > MAXTERMS * 8:
        raise Blowup('product of %d x %d terms' % (len(a.t), len(b.t)))
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            mm = _mono_mul(m1, m2)
            c = c1 * c2
            if isinstance(mm, tuple):
                _acc(t, mm, c)
            else:
                for m3, c3 in mm.t.items():
                    _acc(t, m3, c * c3)
    r = _mulc[k] = mkpoly(t)
    if a is b and r.id not in _sos:
        _sos[r.id] = (a,)
    elif r.id not in _sos:
        # x^2 * y^2, and sums of squares times a square
        for u, v in ((a, b), (b, a)):
            su, sv = _sos.get(u.id), _sos.get(v.id)
            if su and sv and len(su) == 1 and len(sv) == 1:
                _sos[r.id] = (pmul(su[0], sv[0]),)
                break
    return r


def short(p):
    """p as constant * monomial * a symbol standing for the rest"""
    if len(p.t) <= 1:
        return p
    g, s = factor_monomial(p)
    lm = lead(s)
    c = s.t[lm]
    if c != 1:
        s = pscale(s, 1.0 / c)
    return pscale(pmul(patom(atom('abbr', s)), mono_norm(g)), c)


def ppow(a, n):
    if n == 0:
        return ONE
    if n < 0:
        return precip(ppow(a, -n)) if len(a.t) == 1 else _powrecip(a, -n)
    r = a
    for _ in range(n - 1):
        r = pmul(r, a)
    return r


def _powrecip(a, n):
    r = u = precip(a)
    for _ in range(n - 1):
        r = pmul(r, u)
    return r


def lead(p):
    """lexicographically greatest monomial (by descending atom id)"""
    return max(p.t, key=lambda m: (tuple(sorted(m, reverse=True))))


def factor_monomial(p):
    """p = mono * rest with rest having non-negative exponents and no common atom"""
    mins = None
    for m in p.t:
        d = dict(m)
        if mins is None:
            mins = d
        else:
            keys = set(mins) | set(d)
            mins = {k: min(mins.get(k, 0), d.get(k, 0)) for k in keys}
    mins = {k: v for k, v in mins.items() if v}
    if not mins:
        return (), p
    g = tuple(sorted(mins.items()))
    inv = tuple((a, -e) for a, e in g)
    return g, mkpoly({_raw_mono_mul(m, inv): c for m, c in p.t.items()})


def _as_cos2(s):
    """c*(1 - sin^2 x) is kept expanded in numerators; as a divisor it is the monomial c*cos^2 x"""
    if len(s.t) == 2 and () in s.t:
        c = s.t[()]
        (m, d), = [z for z in s.t.items() if z[0] != ()]
        if d == -c and len(m) == 1 and m[0][1] == 2 and _atoms[m[0][0]].kind == 'sin' and m[0][0] in _pair:
            return mkpoly({((_pair[m[0][0]], 2),): c})
    return None


def precip(p):
    if not p.t or p is DIV0():
        return DIV0()
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return pscale(mono_norm(tuple((a, -e) for a, e in m)), 1.0 / c if c not in (1, -1) else c)
    g, s = factor_monomial(p)
    t = ZERO
    for m, c in s.t.items():
        t = padd(t, pscale(mono_norm(m), c))
    if t is not s:
        # clearing negative exponents exposed a rewrite (cos^2, sqrt^2, ...): factor again
        return pmul(precip(t), mono_norm(tuple((x, -e) for x, e in g)))
    u = _as_cos2(s)
    if u is not None:
        return pmul(precip(u), mono_norm(tuple((x, -e) for x, e in g)))
    lm = lead(s)
    c = s.t[lm]
    s = pscale(s, 1.0 / c) if c != 1 else s
    a = atom('sum', s, lm)
    r = mkpoly({((a.id, -1),): 1})
    r = pmul(r, mono_norm(tuple((x, -e) for x, e in g)))
    return pscale(r, 1.0 / c)


def pdiv(a, b):
    if b.is_const():
        if b.cval() == 0:
            return DIV0()
        c = b.cval()
        if all(isinstance(v, int) and isinstance(c, int) and v % c == 0 for v in a.t.values()):
            return mkpoly({m: v // c for m, v in a.t.items()})
        return pscale(a, 1.0 / c)
    return pmul(a, precip(b))


# ---------------------------------------------------------------- intervals of leaves
def iv_mul(a, b):
    ps = []
    for x in a:
        for y in b:
            ps.append(0.0 if x == 0 or y == 0 else x * y)
    return (min(ps), max(ps))


def iv_add(a, b):
    return (a[0] + b[0], a[1] + b[1])


def iv_pow(a, e):
    if e < 0:
        if a[0] > 0 or a[1] < 0:
            r = (1.0 / a[1] if a[1] not in (INF, -INF) else 0.0, 1.0 / a[0] if a[0] not in (INF, -INF) else 0.0)
            r = (min(r), max(r))
            return iv_pow(r, -e)
        return (-INF, INF)
    r = a
    if e % 2 == 0:
        lo, hi = a
        m = 0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi))
        M = max(abs(lo), abs(hi))
        return (m ** e, M ** e if M != INF else INF)
    lo, hi = a
    return (lo ** e if lo != -INF else -INF, hi ** e if hi != INF else INF)


def atom_iv(aid, env=None):
    if env and aid in env:
        return env[aid]
    A = _atoms[aid]
    k = A.kind
    if k in ('sin', 'cos'):
        return (-1.0, 1.0)
    if k == 'atan2':
        y, x = iv(A.args[0], env), iv(A.args[1], env)
        m = PI / 2 if x[0] >= 0 else PI
        return (0.0 if y[0] >= 0 else -m, 0.0 if y[1] <= 0 and x[0] >= 0 else m if y[1] > 0 or x[0] < 0 and y[1] == 0 else 0.0)
    if k == 'asin':
        return (-PI / 2, PI / 2)
    if k == 'acos':
        return (0.0, PI)
    if k == 'atan':
        return (-PI / 2, PI / 2)
    if k == 'sqrt':
        lo, hi = iv(A.args[0], env)
        return (math.sqrt(lo) if lo > 0 else 0.0, math.sqrt(hi) if 0 <= hi < INF else INF)
    if k in ('exp',):
        return (0.0, INF)
    if k == 'abbr':
        return iv(A.args[0], env)
    if k == 'absv':
        return (0.0, INF)
    if k == 'linsing':
        return (0.0, 1.0)
    if k == 'fmod':
        m = iv(A.args[1], env)
        M = max(abs(m[0]), abs(m[1]))
        x = iv(A.args[0], env)
        return (0.0 if x[0] >= 0 else max(-M, x[0]), 0.0 if x[1] <= 0 else min(M, x[1]))
    if k in ('trunc', 'round', 'floor', 'ceil'):
        lo, hi = iv(A.args[0], env)
        f = {'trunc': math.trunc, 'round': lambda x: math.floor(abs(x) + .5) * (1 if x >= 0 else -1),
             'floor': math.floor, 'ceil': math.ceil}[k]
        return (f(lo) if lo > -1e300 else -INF, f(hi) if hi < 1e300 else INF)
    if k == 'idiv':
        lo, hi = iv(A.args[0], env)
        d = iv(A.args[1], env)
        if d[0] == d[1] and d[0] > 0:
            return (math.trunc(lo / d[0]) if lo > -1e300 else -INF, math.trunc(hi / d[0]) if hi < 1e300 else INF)
    if k == 'strlen':
        return (4, INF)
    if k == 'divides':
        return (0, 1)
    if k == 'floordiv':
        lo, hi = iv(A.args[0], env)
        d = A.args[1].cval()
        return (math.floor(lo / d) if lo > -1e18 else -INF, math.floor(hi / d) if hi < 1e18 else INF)
    if k == 'in':
        return RANGES.get(A.args[0], (-INF, INF))
    if k == 'pow' and A.args[0].is_const() and A.args[0].cval() > 0:
        return (0.0, INF)
    return (-INF, INF)


def iv(p, env=None):
    if env is None and p._iv is not None:
        return p._iv
    lo = hi = 0.0
    for m, c in p.t.items():
        r = (c, c)
        for a, e in m:
            r = iv_mul(r, iv_pow(atom_iv(a, env), e))
        lo, hi = lo + r[0], hi + r[1]
    if lo != lo:
        lo = -INF
    if hi != hi:
        hi = INF
    for m, c in p.t.items():
        # remainders: s*(x - n*[x/n]) + constant
        if len(m) == 1 and m[0][1] == 1 and _atoms[m[0][0]].kind in ('idiv', 'floordiv'):
            A = _atoms[m[0][0]]
            x, n = A.args[0], A.args[1]
            if not n.is_const() or n.cval() <= 0 or abs(c) != n.cval():
                continue
            n = n.cval()
            s = -1 if c > 0 else 1
            rest = psub(p, pscale(psub(x, pscale(patom(A), n)), s))
            if not rest.is_const():
                continue
            xlo, xhi = iv(x, env)
            r = (0 if xlo >= 0 or A.kind == 'floordiv' else 1 - n, 0 if xhi <= 0 and A.kind == 'idiv' else n - 1)
            k = rest.cval()
            r = (r[0] + k, r[1] + k) if s > 0 else (k - r[1], k - r[0])
            lo, hi = max(lo, r[0]), min(hi, r[1])
    if env is None:
        p._iv = (lo, hi)
    return (lo, hi)


# ---------------------------------------------------------------- function atoms on leaves
def _split_const(p):
    c = p.t.get((), 0)
    if not c:
        return p, 0
    return mkpoly({m: v for m, v in p.t.items() if m != ()}), c


def _neg_lead(p):
    """True if the leading coefficient is negative (used to normalise odd/even functions)"""
    if not p.t:
        return False
    return p.t[lead(p)] < 0


def leaf_sincos(which, p):
    if p.is_const():
        return const((math.sin if which == 'sin' else math.cos)(p.cval()))
    r, c = _split_const(p)
    k = round(c / (PI / 2))
    if k and abs(c - k * PI / 2) < 1e-12 * max(1, abs(k)):
        # shift by k quarter turns
        k %= 4
        if which == 'sin':
            return [lambda: leaf_sincos('sin', r), lambda: leaf_sincos('cos', r),
                    lambda: pneg(leaf_sincos('sin', r)), lambda: pneg(leaf_sincos('cos', r))][k]()
        return [lambda: leaf_sincos('cos', r), lambda: pneg(leaf_sincos('sin', r)),
                lambda: pneg(leaf_sincos('cos', r)), lambda: leaf_sincos('sin', r)][k]()
    neg = _neg_lead(p)
    q = pneg(p) if neg else p
    # sin(atan2(y,x)) etc.
    if len(q.t) == 1:
        (m, cc), = q.t.items()
        if cc == 1 and len(m) == 1 and m[0][1] == 1:
            A = _atoms[m[0][0]]
            if A.kind == 'asin' and which == 'sin':
                return pneg(A.args[0]) if neg else A.args[0]
            if A.kind == 'acos' and which == 'cos':
                return A.args[0]
    s, c_ = atom('sin', q), atom('cos', q)
    _pair[s.id] = c_.id
    _pair[c_.id] = s.id
    if which == 'sin':
        return pneg(patom(s)) if neg else patom(s)
    return patom(c_)


def leaf_sqrt(p):
    if p.is_const():
        return const(math.sqrt(p.cval())) if p.cval() >= 0 else patom(atom('nan'))
    # perfect square monomials: sqrt(k * m^2) -> sqrt(k)*|m| is not a polynomial; keep atom but normalise scale
    lm = lead(p)
    c = abs(p.t[lm])
    q = pscale(p, 1.0 / c) if c != 1 else p
    return pscale(patom(atom('sqrt', q)), math.sqrt(c))


def odd_fn(kind, p, f=None, isint=False):
    if p.is_const() and f:
        try:
            return const(f(p.cval()))
        except ValueError:
            return patom(atom('nan'))
    neg = _neg_lead(p)
    r = patom(atom(kind, pneg(p) if neg else p, isint=isint))
    return pneg(r) if neg else r


def leaf_atan2(y, x):
    if y.is_const() and x.is_const():
        return const(math.atan2(y.cval(), x.cval()))
    if not y.t:
        # atan2(0, x) -> 0 or pi
        return cond_ite(compare('lt', x, ZERO), const(PI), ZERO)
    neg = _neg_lead(y)
    if neg:
        y = pneg(y)
    c = abs(y.t[lead(y)])
    y, x = pscale(y, 1.0 / c), pscale(x, 1.0 / c)
    r = patom(atom('atan2', y, x))
    return pneg(r) if neg else r


def c_round(x):
    return int(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1)


def leaf_round(kind, p):
    if p.is_const():
        x = p.cval()
        return const({'trunc': math.trunc, 'round': c_round, 'floor': math.floor, 'ceil': math.ceil}[kind](x))
    if is_int(p):
        return p
    if kind in ('trunc', 'round'):
        return odd_fn(kind, p, isint=True)
    if kind == 'ceil':
        return pneg(leaf_round('floor', pneg(p)))
    # floor(p + n) = floor(p) + n
    return patom(atom('floor', p, isint=True))


def leaf_fmod(x, y):
    if x.is_const() and y.is_const():
        return const(math.fmod(x.cval(), y.cval()))
    if y.is_const() and y.cval() < 0:
        y = pneg(y)
    if y is ONE:
        return psub(x, leaf_round('trunc', x))
    neg = _neg_lead(x)
    ii = is_int(x) and is_int(y)
    r = patom(atom('fmod', pneg(x) if neg else x, y, isint=ii))
    return pneg(r) if neg else r


def leaf_idiv(a, b):
    """C integer division (truncating)"""
    if a.is_const() and b.is_const():
        if b.cval() == 0:
            return DIV0()
        q = abs(a.cval()) // abs(b.cval())
        return const(q if (a.cval() >= 0) == (b.cval() > 0) else -q)
    if b.is_const():
        d = b.cval()
        if d == 1:
            return a
        if all(isinstance(c, int) and c % d == 0 for c in a.t.values()):
            return mkpoly({m: c // d for m, c in a.t.items()})
    neg = _neg_lead(a)
    # truncating division is odd in the numerator
    r = patom(atom('idiv', pneg(a) if neg else a, b, isint=True))
    return pneg(r) if neg else r


def leaf_floordiv(a, n):
    """floor(a/n), integer a, positive constant n"""
    if a.is_const():
        return const(a.cval() // n)
    if all(isinstance(c, int) and c % n == 0 for c in a.t.values()):
        return mkpoly({m: c // n for m, c in a.t.items()})
    if iv(a)[0] >= 0:
        return leaf_idiv(a, const(n))
    return patom(atom('floordiv', a, const(n), isint=True))


def leaf_pow(x, y):
    if x.is_const() and y.is_const():
        try:
            return const(math.pow(x.cval(), y.cval()))
        except (ValueError, OverflowError):
            return patom(atom('nan'))
    if y.is_const():
        e = y.cval()
        if isinstance(e, int) and -12 <= e <= 12:
            return ppow(x, e)
        if e == 0.5:
            return leaf_sqrt(x)
    return patom(atom('pow', x, y, isint=is_int(x) and x.is_const() and is_int(y)))


# ---------------------------------------------------------------- interval decision diagrams
def mknode(q, br, kids):
    nb, nk = [], [kids[0]]
    for b, k in zip(br, kids[1:]):
        if k is nk[-1]:
            continue
        nb.append(b)
        nk.append(k)
    if not nb:
        return nk[0]
    key = (q.id, tuple(nb), tuple(k.id for k in nk))
    r = _nodes.get(key)
    if r is None:
        global _nodecount
        _nodecount += 1
        if _nodecount > MAXNODES:
            raise Blowup('decision diagram too large')
        r = Node()
        r.q, r.br, r.kids, r.id = q, tuple(nb), tuple(nk), newid()
        _nodes[key] = r
    return r


def top(v):
    return v.q.id if isinstance(v, Node) else INF


def _pick(v, q, lo, hi):
    """restrict v (top may be q) to the cell of q between boundaries lo and hi (exclusive of inner breaks)"""
    if not isinstance(v, Node) or v.q is not q:
        return v
    # first child whose upper boundary >= hi
    i = 0
    for i, b in enumerate(v.br):
        if hi is not None and b >= hi:
            return v.kids[i]
        if lo is not None and b <= lo:
            continue
        # b strictly inside the cell: caller should have refined
        if hi is None or b < hi:
            raise AssertionError('unrefined cell')
    return v.kids[len(v.br)]


def case(q, br, kids):
    """decision on q with arbitrary children"""
    # refine by children that test q themselves
    fine = set(br)
    for i, k in enumerate(kids):
        if isinstance(k, Node) and k.q is q:
            lo = br[i - 1] if i else None
            hi = br[i] if i < len(br) else None
            for b in k.br:
                if (lo is None or b > lo) and (hi is None or b < hi):
                    fine.add(b)
    if len(fine) != len(br):
        nb = sorted(fine)
        nk = []
        for j in range(len(nb) + 1):
            lo = nb[j - 1] if j else None
            # find original cell
            i = 0
            while i < len(br) and lo is not None and br[i] <= lo:
                i += 1
            nk.append(kids[i])
        br, kids = nb, nk
    kids = [_pick(k, q, br[i - 1] if i else None, br[i] if i < len(br) else None) for i, k in enumerate(kids)]
    mt = min((top(k) for k in kids), default=INF)
    if mt > q.id:
        return mknode(q, br, kids)
    # some child tests an earlier quantity: pull it up
    q2 = next(k.q for k in kids if top(k) == mt)
    b2 = sorted({b for k in kids if isinstance(k, Node) and k.q is q2 for b in k.br})
    res = []
    for j in range(len(b2) + 1):
        lo = b2[j - 1] if j else None
        hi = b2[j] if j < len(b2) else None
        res.append(case(q, br, [_pick(k, q2, lo, hi) for k in kids]))
    return mknode(q2, b2, res)


def lift(f, *args):
    """apply a leaf function pointwise"""
    memo = {}

    def go(a):
        key = tuple(x.id for x in a)
        r = memo.get(key)
        if r is not None:
            return r
        mt = min(top(x) for x in a)
        if mt == INF:
            r = f(*a)
        else:
            q = next(x.q for x in a if top(x) == mt)
            br = sorted({b for x in a if isinstance(x, Node) and x.q is q for b in x.br})
            kids = []
            for j in range(len(br) + 1):
                lo = br[j - 1] if j else None
                hi = br[j] if j < len(br) else None
                kids.append(go(tuple(_pick(x, q, lo, hi) for x in a)))
            r = case(q, br, kids)
        memo[key] = r
        return r
    return go(args)


def _d(f, *u):
    for x in u:
        if isinstance(x, Undef):
            return x
    return f(*u)


def add(a, b):
    return lift(lambda x, y: _arith(padd, x, y), a, b)


def _arith(f, x, y):
    if isinstance(x, Undef):
        return x
    if isinstance(y, Undef):
        return y
    if isinstance(x, Poly) and isinstance(y, Poly):
        return f(x, y)
    if isinstance(x, Ptr) and isinstance(y, Poly) and f is padd:
        return ptr(x.obj, padd(x.off, y))
    if isinstance(x, Ptr) and isinstance(y, Ptr) and f is psub and x.obj == y.obj:
        return psub(x.off, y.off)
    raise Unsupported('arithmetic on %r and %r' % (x, y))


def sub(a, b):
    return lift(lambda x, y: _arith(psub, x, y), a, b)


def mul(a, b):
    return lift(lambda x, y: _arith(pmul, x, y), a, b)


def div(a, b):
    return lift(lambda x, y: _arith(pdiv, x, y), a, b)


def neg(a):
    return lift(lambda x: _d(pneg, x), a)


def fn1(f, a):
    return lift(lambda x: _d(f, x), a)


def fn2(f, a, b):
    return lift(lambda x, y: _d(f, x, y), a, b)


def quantity(p):
    """p (non constant) = k*Q + c, Q normalised without constant term; returns Q, k, c"""
    r, c = _split_const(p)
    lm = lead(r)
    k = r.t[lm]
    if k != 1:
        if isinstance(k, int) and all(isinstance(v, int) and v % k == 0 for v in r.t.values()):
            r = mkpoly({m: v // k for m, v in r.t.items()})
        elif k == -1:
            r = pneg(r)
        elif is_int(r):
            # keep an integral primitive quantity
            g = 0
            for v in r.t.values():
                g = math.gcd(g, abs(v))
            s = 1 if k > 0 else -1
            r = mkpoly({m: s * (v // g) for m, v in r.t.items()})
            k = s * g
            return r, k, c
        else:
            r = pscale(r, 1.0 / k)
    return r, k, c


def _thr(x):
    """canonical threshold"""
    if x == 0:
        return 0.0
    return float(coefrep(x))


def _psd(q):
    """sum of positive multiples of squares"""
    return all(c > 0 and m and all(e > 0 and e % 2 == 0 for a, e in m) for m, c in q.t.items())


def _as_rem(q):
    """q == +-(x - n*[x/n]) for an integer x and constant n: returns (x, n)"""
    for m, c in q.t.items():
        if len(m) == 1 and m[0][1] == 1 and isinstance(c, int):
            A = _atoms[m[0][0]]
            if A.kind == 'idiv' and A.args[1].is_const():
                n, x = A.args[1].cval(), A.args[0]
            elif A.kind == 'floordiv':
                n, x = A.args[1].cval(), A.args[0]
            else:
                continue
            if abs(c) != abs(n):
                continue
            rest = mkpoly({k: v for k, v in q.t.items() if k != m})
            # c = -n*s, rest = s*x
            sgn = 1 if c == -n else -1
            if rest is (x if sgn == 1 else pneg(x)):
                return x, abs(n)
    return None


def compare(op, a, b):
    """op in lt le eq; leaves a, b polys -> 0/1 value"""
    if isinstance(a, Undef):
        return a
    if isinstance(b, Undef):
        return b
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            a, b = a.off, b.off
        else:
            if op == 'eq':
                return const(0)     # pointers to different objects / null
            raise Unsupported('pointer comparison')
    d = psub(a, b)
    if d.is_const():
        c = d.cval()
        return const(int({'lt': c < 0, 'le': c <= 0, 'eq': c == 0}[op]))
    q, k, c = quantity(d)
    t = -c / k
    lo, hi = iv(q)
    if len(q.t) == 1:
        (m, qc), = q.t.items()
        if len(m) == 1 and m[0][1] == 1 and _atoms[m[0][0]].kind == 'sqrt' and qc == 1:
            # sqrt(P) < t  <=>  P < t*t for t > 0 (P >= 0 where the root is defined)
            if t < 0:
                return const(int((op != 'eq') and k < 0))
            if t == 0 and op != 'eq':
                if (op == 'lt') == (k > 0):        # sqrt(P) < 0, or not (sqrt(P) <= 0 ...)
                    return const(0) if k > 0 else const(1) if op == 'le' else ZERO
                z = compare('eq', _atoms[m[0][0]].args[0], ZERO)
                return z if k > 0 else bnot(z)
            return compare(op, pscale(_atoms[m[0][0]].args[0], k), const(k * t * t))
    if t == 0 and not is_int(q) and _psd(q):
        if op == 'eq' or (op == 'le' and k > 0) or (op == 'lt' and k < 0):
            z = ONE
            for m in q.t:
                y = ZERO
                for a, e in m:
                    y = bor(y, compare('eq', patom(_atoms[a]), ZERO))
                z = band(z, y)
            return bnot(z) if op == 'lt' else z
        return ZERO if k > 0 else ONE
    if not is_int(q) and len(q.t) > 1 and (b is ZERO or a is ZERO):
        # a sum of squares (known from how it was formed) vanishes where every term does
        sos = _sos.get(d.id) or _sos.get(pneg(d).id)
        if sos and (len(sos) > 1 or len(sos[0].t) < len(q.t)):
            z = ONE
            for y in sos:
                z = band(z, compare('eq', y, ZERO))
            if op == 'eq':
                return z
            pos = d.id in _sos
            if op == 'lt':
                return ZERO if pos else bnot(z)
            return z if pos else ONE
    if op == 'eq' and is_int(q):
        r = _as_rem(d)
        if r is not None:
            x, m = r
            c0 = x.t.get((), 0)
            if c0 == int(c0):
                x = psub(x, const(int(c0) - int(c0) % m))      # divisibility does not change with a multiple of m
            r = (x, m)
            return mknode(patom(atom('divides', r[0], r[1], isint=True)), [(0.5, 0)], [ZERO, ONE])
    if is_int(q):
        tt = t
        if op == 'eq':
            if abs(tt - round(tt)) > 1e-9:
                return ZERO
            n = round(tt)
            br, kids = [(n - 0.5, 0), (n + 0.5, 0)], [ZERO, ONE, ZERO]
        else:
            if (op == 'lt') == (k > 0):   # q < t (k>0) or q >= ... boundary just below t
                bnd = math.ceil(tt - 1e-9) - 0.5
            else:
                bnd = math.floor(tt + 1e-9) + 0.5
            br, kids = [(bnd, 0)], ([ONE, ZERO] if k > 0 else [ZERO, ONE])
    else:
        t = _thr(t)
        if op == 'eq':
            br, kids = [(t, 0), (t, 1)], [ZERO, ONE, ZERO]
        elif op == 'lt':
            br, kids = ([(t, 0)], [ONE, ZERO]) if k > 0 else ([(t, 1)], [ZERO, ONE])
        else:
            br, kids = ([(t, 1)], [ONE, ZERO]) if k > 0 else ([(t, 0)], [ZERO, ONE])
    # prune cells outside the a-priori range of q
    while br and hi < INF and (br[-1][0] > hi or (br[-1][0] == hi and br[-1][1] == 1)):
        br, kids = br[:-1], kids[:-1]
    while br and lo > -INF and (br[0][0] < lo or (br[0][0] == lo and br[0][1] == 0)):
        br, kids = br[1:], kids[1:]
    if not br:
        return kids[0]
    return mknode(q, br, kids)


def cmp(op, a, b):
    if op == 'gt':
        return cmp('lt', b, a)
    if op == 'ge':
        return cmp('le', b, a)
    if op == 'ne':
        return bnot(cmp('eq', a, b))
    return lift(lambda x, y: compare(op, x, y), a, b)


def cond_ite(c, a, b):
    if c is ONE:
        return a
    if c is ZERO:
        return b
    if a is b:
        return a
    key = (c.id, a.id, b.id)
    r = _itec.get(key)
    if r is not None:
        return r
    if isinstance(c, Undef):
        return c if True else None
    if isinstance(c, Poly):
        # boolean loaded from memory: nonzero test
        r = cond_ite(compare('eq', c, ZERO), b, a)
    else:
        q = min((x.q for x in (c, a, b) if isinstance(x, Node)), key=lambda z: z.id)
        br = sorted({x for v in (c, a, b) if isinstance(v, Node) and v.q is q for x in v.br})
        kids = []
        for j in range(len(br) + 1):
            lo = br[j - 1] if j else None
            hi = br[j] if j < len(br) else None
            kids.append(cond_ite(_pick(c, q, lo, hi), _pick(a, q, lo, hi), _pick(b, q, lo, hi)))
        # kids only test quantities after q, so a plain node is ordered
        r = mknode(q, br, kids) if all(top(k) > q.id for k in kids) else case(q, br, kids)
    _itec[key] = r
    return r


ite = cond_ite


def band(a, b):
    return cond_ite(a, b, ZERO)


def bor(a, b):
    return cond_ite(a, ONE, b)


def bnot(a):
    return cond_ite(a, ZERO, ONE)


def truth(v):
    """normalise an integer value used as a condition to 0/1"""
    def f(x):
        if isinstance(x, Poly):
            if x.is_const():
                return ONE if x.cval() else ZERO
            return bnot(compare('eq', x, ZERO))
        return x
    return lift(f, v)


def vabs(a):
    def f(x):
        if isinstance(x, Undef):
            return x
        lo, hi = iv(x)
        if lo >= 0:
            return x
        if hi <= 0:
            return pneg(x)
        return cond_ite(compare('lt', x, ZERO), pneg(x), x)
    return lift(f, a)


def vmax(a, b):
    return cond_ite(cmp('lt', a, b), b, a)


def vmin(a, b):
    return cond_ite(cmp('lt', b, a), b, a)


# ---------------------------------------------------------------- traversal
def leaves(v, seen=None):
    if seen is None:
        seen = {}
    if v.id in seen:
        return []
    seen[v.id] = 1
    if isinstance(v, Node):
        r = []
        for k in v.kids:
            r += leaves(k, seen)
        return r
    return [v]


def quantities(v, acc=None):
    if acc is None:
        acc = {}
    stack, seen = [v], set()
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if isinstance(x, Node):
            acc[x.q.id] = x.q
            stack.extend(x.kids)
    return acc


def atoms_of(v, deep=True):
    """set of atoms occurring in v (leaves and decision quantities)"""
    out, seen, stack = set(), set(), [v]
    while stack:
        x = stack.pop()
        if isinstance(x, (str, int, float, tuple, type(None))):
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        if isinstance(x, Node):
            stack.append(x.q)
            stack.extend(x.kids)
        elif isinstance(x, Poly):
            for m in x.t:
                for a, e in m:
                    if a not in out:
                        out.add(a)
                        if deep:
                            stack.extend(y for y in _atoms[a].args if not isinstance(y, (str, int, float, tuple)))
        elif isinstance(x, Ptr):
            stack.append(x.off)
    return {_atoms[a] for a in out}


def undefs_of(v):
    out, seen, stack = [], set(), [v]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if isinstance(x, Node):
            stack.extend(x.kids)
        elif isinstance(x, Undef):
            out.append(x)
    return out


def size(v):
    seen, stack = set(), [v]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if isinstance(x, Node):
            stack.extend(x.kids)
    return len(seen)


def regions(v, want, pre=()):
    """paths (list of (q, lo, hi)) from the root to leaves satisfying want(leaf); for diagnostics"""
    if not isinstance(v, Node):
        if want(v):
            yield pre, v
        return
    for i, k in enumerate(v.kids):
        lo = v.br[i - 1] if i else None
        hi = v.br[i] if i < len(v.br) else None
        for r in regions(k, want, pre + ((v.q, lo, hi),)):
            yield r


def show_region(path):
    out = []
    for q, lo, hi in path:
        s = show(q, 80)
        if lo and hi and lo[0] == hi[0]:
            out.append('%s == %.12g' % (s, lo[0]))
            continue
        l = '' if lo is None else '%.12g %s ' % (lo[0], '<=' if lo[1] == 0 else '<')
        h = '' if hi is None else ' %s %.12g' % ('<' if hi[1] == 0 else '<=', hi[0])
        out.append(l + s + h)
    return ' and '.join(out) or 'always'


# ---------------------------------------------------------------- substitution (rebuilds normal forms)
def subst(v, mp, memo=None, peq=None):
    """replace atoms (by id) with values, and whole polynomials k*q+c by constants where peq fixes q; returns a Value"""
    if memo is None:
        memo = {}

    def sv(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if isinstance(x, Undef):
            r = x
        elif isinstance(x, Ptr):
            o = sv(x.off)
            r = lift(lambda z: ptr(x.obj, z), o)
        elif isinstance(x, Node):
            q = sv(x.q)
            r = sv(x.kids[-1])
            for b, k in zip(reversed(x.br), reversed(x.kids[:-1])):
                r = cond_ite(cmp('lt' if b[1] == 0 else 'le', q, const(b[0])), sv(k), r)
        elif peq and not x.is_const() and quantity(x)[0].id in peq:
            q_, k_, c_ = quantity(x)
            r = const(k_ * peq[q_.id] + c_)
        else:
            r = ZERO
            const_t = {}
            for m, c in x.t.items():
                if not any(touched(a) for a, e in m):
                    const_t[m] = c
                    continue
                t = const(c)
                for a, e in m:
                    u = sa(a)
                    t = mul(t, fn1(lambda z, e=e: ppow(z, e), u))
                r = add(r, t)
            if const_t:
                r = add(r, mkpoly(const_t))
        memo[x.id] = r
        return r

    amemo = {}
    tmemo = {}

    def touched(a):
        r = tmemo.get(a)
        if r is None:
            if a in mp:
                r = True
            else:
                r = False
                for y in _atoms[a].args:
                    if isinstance(y, Poly) and (any(touched(b) for m in y.t for b, e in m) or
                                                peq and not y.is_const() and quantity(y)[0].id in peq):
                        r = True
                    elif isinstance(y, Node):
                        if any(touched(z.id) for z in atoms_of(y, False)):
                            r = True
            tmemo[a] = r
        return r

    def sa(a):
        if a in amemo:
            return amemo[a]
        if a in mp:
            r = mp[a]
        elif not touched(a):
            r = patom(_atoms[a])
        else:
            A = _atoms[a]
            args = [sv(y) if isinstance(y, (Poly, Node)) else y for y in A.args]
            r = apply_kind(A.kind, args, A)
        amemo[a] = r
        return r
    return sv(v)


def apply_kind(kind, args, A=None):
    """re-apply the function of an atom to (possibly gated) arguments"""
    if kind in ('sin', 'cos'):
        return fn1(lambda x: leaf_sincos(kind, x), args[0])
    if kind == 'sqrt':
        return fn1(leaf_sqrt, args[0])
    if kind == 'sum':
        return args[0]
    if kind == 'abbr':
        return fn1(short, args[0])
    if kind == 'absv':
        return vabs(args[0])
    if kind == 'atan2':
        return fn2(leaf_atan2, args[0], args[1])
    if kind in ('trunc', 'round', 'floor'):
        return fn1(lambda x: leaf_round(kind, x), args[0])
    if kind == 'fmod':
        return fn2(leaf_fmod, args[0], args[1])
    if kind == 'idiv':
        return fn2(leaf_idiv, args[0], args[1])
    if kind == 'pow':
        return fn2(leaf_pow, args[0], args[1])
    if kind == 'divides':
        return cmp('eq', sub(args[0], mul(const(args[1]), fn2(leaf_idiv, args[0], const(args[1])))), ZERO)
    if kind == 'floordiv':
        return fn1(lambda x: leaf_floordiv(x, args[1].cval()), args[0])
    if kind in FN:
        return fn1(FN[kind], args[0])
    isint = A.isint if A else False
    vs = [x for x in args if isinstance(x, (Poly, Node, Undef))]
    rest = list(args)

    def f(*lv):
        it = iter(lv)
        return patom(atom(kind, *[next(it) if isinstance(x, (Poly, Node, Undef)) else x for x in rest], isint=isint))
    return lift(lambda *lv: _d(f, *lv), *vs) if vs else patom(A)


FN = {
    'asin': lambda x: odd_fn('asin', x, math.asin),
    'atan': lambda x: odd_fn('atan', x, math.atan),
    'acos': lambda x: const(math.acos(x.cval())) if x.is_const() and abs(x.cval()) <= 1 else patom(atom('acos', x)),
    'exp': lambda x: const(math.exp(x.cval())) if x.is_const() else patom(atom('exp', x)),
    'log': lambda x: const(math.log(x.cval())) if x.is_const() and x.cval() > 0 else patom(atom('log', x)),
    'sin': lambda x: leaf_sincos('sin', x),
    'cos': lambda x: leaf_sincos('cos', x),
    'tan': lambda x: pdiv(leaf_sincos('sin', x), leaf_sincos('cos', x)),
    'sqrt': leaf_sqrt,
    'log10': lambda x: pscale(FN['log'](x), 1 / math.log(10)),
    'trunc': lambda x: leaf_round('trunc', x),
    'round': lambda x: leaf_round('round', x),
    'floor': lambda x: leaf_round('floor', x),
    'ceil': lambda x: leaf_round('ceil', x),
    'cbrt': lambda x: odd_fn('cbrt', x, lambda z: math.copysign(abs(z) ** (1 / 3.), z)),
    'sinh': lambda x: odd_fn('sinh', x, math.sinh),
    'cosh': lambda x: patom(atom('cosh', pneg(x) if _neg_lead(x) else x)),
    'tanh': lambda x: odd_fn('tanh', x, math.tanh),
}


# ---------------------------------------------------------------- equality of values
def clear_denominators(p):
    """multiply out 'sum' denominators; zero iff p is zero as a rational function (up to sqrt/trig rules)"""
    for _ in range(40):
        worst = {}
        for m in p.t:
            for a, e in m:
                if e < 0 and e < worst.get(a, 0):
                    worst[a] = e
        if not worst:
            return p
        a, e = min(worst.items(), key=lambda z: (_atoms[z[0]].kind != 'sum', z[0]))
        if _atoms[a].kind == 'sum':
            f = ppow(_atoms[a].args[0], -e)
            def terms():
                for m, c in p.t.items():
                    d = dict(m)
                    ee = d.pop(a, 0)
                    base = pscale(mono_norm(tuple(sorted(d.items()))), c)
                    yield pmul(base, ppow(_atoms[a].args[0], ee - e))
            p = psum(terms())
        else:
            p = psum([pscale(mono_norm(_raw_mono_mul(m, ((a, -e),))), c) for m, c in p.t.items()])
        if len(p.t) > MAXTERMS:
            raise Blowup('clearing denominators')
    return p


def poly_close(a, b, tol=None):
    if a is b:
        return True
    tol = tol or 50 * TOL
    ms = set(a.t) | set(b.t)
    scale = max((abs(c) for c in list(a.t.values()) + list(b.t.values())), default=0)
    bad = False
    for m in ms:
        x, y = a.t.get(m, 0), b.t.get(m, 0)
        if x == y:
            continue
        if not (abs(x - y) <= tol * max(abs(x), abs(y)) or abs(x - y) <= tol * 1e-3 * scale):
            bad = True
            break
    if not bad:
        return True
    if any(e < 0 for m in ms for _, e in m):
        d = psub(a, b)
        if len(d.t) > 1500:
            return False
        try:
            ca = clear_denominators(d)
        except Blowup:
            return False
        if not ca.t:
            return True
        # relative to the cleared magnitude of a
        return False
    return False


def point_eqs(path):
    """{quantity id: value} for the cells of a region that pin a quantity"""
    r = {}
    for q, lo, hi in path:
        if lo is not None and hi is not None and (lo[0] == hi[0] or (is_int(q) and hi[0] - lo[0] == 1)):
            r[q.id] = lo[0] if lo[0] == hi[0] else norm(lo[0] + 0.5)
    return r


def eq_subst(path):
    """substitution implied by the equality cells of a region (q == c with a linear leading atom)"""
    mp = {}
    for q, lo, hi in path:
        if lo is not None and hi is not None and (lo[0] == hi[0] or (is_int(q) and hi[0] - lo[0] == 1)):
            c = lo[0] if lo[0] == hi[0] else norm(lo[0] + 0.5)
            if mp:
                try:
                    q = subst(q, mp)
                except (Blowup, Unsupported):
                    continue
                if not isinstance(q, Poly) or q.is_const():
                    continue
            cand = [m for m in q.t if len(m) == 1 and m[0][1] == 1]
            cand.sort(reverse=True)
            for m in cand:
                a0, k = m[0][0], q.t[m]
                if a0 in mp:
                    continue
                rest = mkpoly({x: v for x, v in q.t.items() if x != m})
                if any(x.id == a0 for x in atoms_of(rest)):
                    continue
                val = psub(const(c), rest)
                val = pscale(val, 1.0 / k) if k != 1 else val
                one = {a0: val}
                try:
                    nm = {x: subst(v, one) for x, v in mp.items()}
                except (Blowup, Unsupported):
                    break
                if any(not isinstance(v, Poly) for v in nm.values()):
                    break
                mp = nm
                mp[a0] = val
                break
    return mp


LINKED = ('fmod', 'trunc', 'round', 'idiv', 'atan2', 'asin', 'atan', 'cbrt')


def _single(q):
    """the atom a quantity consists of, if it is one"""
    if len(q.t) == 1:
        (m, k), = q.t.items()
        if len(m) == 1 and m[0][1] == 1 and k == 1:
            return _atoms[m[0][0]]
    return None


def feasible(path):
    """False when the conjunction of tests is provably empty; atoms whose sign is that of their argument are split on it"""
    if not _feasible(path):
        return False
    div = [(A.args[0], A.args[1], lo is not None) for q, lo, hi in path for A in [_single(q)] if A and A.kind == 'divides']
    for x, m, yes in div:
        # a multiple of m is a multiple of every divisor of m
        if yes and any(not no and m % k == 0 and psub(y, x).is_const() and psub(y, x).cval() % k == 0 for y, k, no in div):
            return False
    for q, lo, hi in path:
        # a product of square roots that is not positive: one of the radicands vanishes
        if hi is not None and hi[0] == 0 and len(q.t) == 1:
            (m, k), = q.t.items()
            if k > 0 and m and all(_atoms[a].kind == 'sqrt' and e > 0 for a, e in m):
                zero = []
                for a, e in m:
                    r = _atoms[a].args[0]
                    if isinstance(r, Poly) and not r.is_const():
                        qr, kr, cr = quantity(r)
                        t = _thr(-cr / kr)
                        zero.append((qr, (t, 0), (t, 1)))
                if not any(_feasible(tuple(path) + (z,)) for z in zero):
                    return False
    ats = []
    for q, lo, hi in path:
        for m in q.t:
            for a, e in m:
                A = _atoms[a]
                if A.kind in LINKED and A not in ats and isinstance(A.args[0], Poly) and not A.args[0].is_const():
                    if A.kind != 'idiv' or (A.args[1].is_const() and A.args[1].cval() > 0):
                        ats.append(A)
    qs = {q.id for q, _, _ in path}
    ats.sort(key=lambda A: (quantity(A.args[0])[0].id not in qs or patom(A).id not in qs, quantity(A.args[0])[0].id not in qs))
    ats = ats[:3]

    def go(i, extra):
        if i == len(ats):
            return True
        A = ats[i]
        qa, (qp, k, c) = patom(A), quantity(A.args[0])
        t = _thr(-c / k)
        for sgn in (1, -1):
            ex = list(extra)
            ex.append((qa, (0.0, 0), None) if sgn > 0 else (qa, None, (0.0, 1)))
            up = (sgn > 0) == (k > 0)
            ex.append((qp, (t, 0), None) if up else (qp, None, (t, 1)))
            if A.kind in ('fmod', 'trunc', 'idiv', 'atan'):     # no larger in magnitude than the argument
                g, k2, c2 = quantity(psub(A.args[0], qa))
                t2 = _thr(-c2 / k2)
                ex.append((g, (t2, 0), None) if (sgn > 0) == (k2 > 0) else (g, None, (t2, 1)))
            if _feasible(tuple(path) + tuple(ex)) and go(i + 1, ex):
                return True
        return False
    return go(0, [])


def _feasible(path):
    """False when the conjunction of threshold tests is provably empty (linear arithmetic over monomials plus sign and
    interval facts of the monomials); True when it may be satisfiable"""
    cons = []          # (dict mono->coef, const, strict): sum + const >= 0 (or > 0)
    mp = eq_subst(path)

    def addc(q, c, s, strict):
        cons.append(({m: s * v for m, v in q.t.items() if m != ()}, s * (q.t.get((), 0) - c), strict))
    for q, lo, hi in path:
        if mp:
            try:
                q2 = subst(q, mp)
            except (Blowup, Unsupported):
                q2 = q
            if isinstance(q2, Poly):
                q = q2
        eps = 1e-9 * max(1.0, abs(lo[0]) if lo else 0, abs(hi[0]) if hi else 0)
        if q.is_const():
            v = q.cval()
            if lo is not None and (v < lo[0] - eps or (v == lo[0] and lo[1] == 1)):
                return False
            if hi is not None and (v > hi[0] + eps or (v == hi[0] and hi[1] == 0)):
                return False
            continue
        if lo is not None:
            addc(q, lo[0], 1, lo[1] == 1)
        if hi is not None:
            addc(q, hi[0], -1, hi[1] == 0)
    cons.sort(key=lambda x: len(x[0]))
    monos, keep = set(), []
    for x in cons:             # dropping the largest constraints only weakens the refutation
        if len(monos | set(x[0])) <= 14 and len(keep) < 60:
            monos |= set(x[0])
            keep.append(x)
    cons = keep
    sign = {}                  # atoms of known strict sign
    for d, c, s in cons:
        if len(d) == 1:
            (m, k), = d.items()
            if len(m) == 1 and m[0][1] == 1 and (c < 0 or (c == 0 and s)):
                sign[m[0][0]] = 1 if k > 0 else -1
    for m in list(monos):
        p = mkpoly({m: 1})
        lo, hi = iv(p)
        if m and all(a in sign for a, e in m):
            sg = 1
            for a, e in m:
                if e % 2:
                    sg *= sign[a]
            cons.append(({m: float(sg)}, 0.0, True))
        if lo > -INF:
            cons.append(({m: 1.0}, -lo, False))
        if hi < INF:
            cons.append(({m: -1.0}, hi, False))
    # Fourier-Motzkin
    for _ in range(len(monos)):
        best = None
        for m in monos:
            P_ = sum(1 for d, c, s in cons if d.get(m, 0) > 0)
            N_ = sum(1 for d, c, s in cons if d.get(m, 0) < 0)
            if best is None or P_ * N_ < best[0]:
                best = (P_ * N_, m)
        if best is None:
            break
        m = best[1]
        monos.discard(m)
        pos = [x for x in cons if x[0].get(m, 0) > 0]
        ng = [x for x in cons if x[0].get(m, 0) < 0]
        cons = [x for x in cons if x[0].get(m, 0) == 0]
        if len(pos) * len(ng) > 2000:
            return True
        for d1, c1, s1 in pos:
            for d2, c2, s2 in ng:
                a, b = d1[m], -d2[m]
                d = {}
                for k, v in d1.items():
                    d[k] = v / a
                for k, v in d2.items():
                    d[k] = d.get(k, 0) + v / b
                d = {k: v for k, v in d.items() if abs(v) > 1e-12 and k != m}
                c = c1 / a + c2 / b
                sc = max(abs(c1 / a), abs(c2 / b), 1e-300)
                if abs(c) < 1e-12 * sc:
                    c = 0.0
                if not d:
                    if c < 0 or (c == 0 and (s1 or s2)):
                        return False
                else:
                    cons.append((d, c, s1 or s2))
        if len(cons) > 3000:
            return True
    return not any(not d and (c < 0 or (c == 0 and s)) for d, c, s in cons)


def scaled(a, b):
    """do two polynomials differ in a term that is negligible only because another one is huge"""
    for m in set(a.t) | set(b.t):
        x, y = a.t.get(m, 0), b.t.get(m, 0)
        if x != y and abs(x - y) > 50 * TOL * max(abs(x), abs(y)):
            return True
    return False


def leaf_equal(a, b, path=()):
    if a is b:
        return True
    if isinstance(a, Poly) and isinstance(b, Poly):
        near = poly_close(a, b)
        peq = point_eqs(path)
        if near and (not peq or not scaled(a, b)):
            return True
        if not peq:
            return False
        if near:
            # close only next to a huge term: see what the equalities of the region leave of it
            try:
                mp = eq_subst(path)
                a2, b2 = subst(subst(a, {}, peq=peq), mp), subst(subst(b, {}, peq=peq), mp)
            except (Blowup, Unsupported):
                return True
            return not isinstance(a2, Poly) or not isinstance(b2, Poly) or poly_close(a2, b2)
        for mp, pq in ((None, peq), (eq_subst(path), None), (None, None)):
            try:
                if pq:
                    a2, b2 = subst(a, {}, peq=pq), subst(b, {}, peq=pq)
                    ab = a2, b2
                elif mp:
                    a2, b2 = subst(a, mp), subst(b, mp)
                else:
                    # both: equalities of polynomials first, then of atoms
                    mp = eq_subst(path)
                    if not mp:
                        continue
                    a2, b2 = subst(ab[0], mp), subst(ab[1], mp)
            except (Blowup, Unsupported):
                continue
            if a2 is b2:
                return True
            if isinstance(a2, Poly) and isinstance(b2, Poly) and poly_close(a2, b2):
                return True
            if (isinstance(a2, Node) or isinstance(b2, Node)) and equal(a2, b2) is None:
                return True
        return False
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj == b.obj and poly_close(a.off, b.off)
    if isinstance(a, Undef) and isinstance(b, Undef):
        return True
    return False


def disagreements(a, b, care=None, limit=200000):
    """yields (region, leaf_a, leaf_b) for the cells of the common refinement where care holds and the normal forms
    of a and b differ"""
    seen = set()
    cnt = [0]

    def go(x, y, c, path):
        if x is y or c is ZERO:
            return
        haspoint = any(lo is not None and hi is not None and (lo[0] == hi[0] or is_int(q) and hi[0] - lo[0] == 1)
                       for q, lo, hi in path)
        key = (x.id, y.id, c.id)
        if key in seen and not haspoint:
            return
        cnt[0] += 1
        if cnt[0] > limit:
            raise Blowup('comparison')
        nodes = [v for v in (x, y, c) if isinstance(v, Node)]
        if not nodes:
            if leaf_equal(x, y, path):
                seen.add(key)
            elif feasible(path):
                yield (path, x, y)
            return
        q = min((v.q for v in nodes), key=lambda z: z.id)
        br = sorted({b for v in nodes if v.q is q for b in v.br})
        bad = False
        for j in range(len(br) + 1):
            lo = br[j - 1] if j else None
            hi = br[j] if j < len(br) else None
            for r in go(_pick(x, q, lo, hi), _pick(y, q, lo, hi), _pick(c, q, lo, hi), path + ((q, lo, hi),)):
                bad = True
                yield r
        if not bad:
            seen.add(key)
    return go(a, b, care if care is not None else ONE, ())


def equal(a, b, care=None, limit=200000):
    """None if a == b wherever care holds, else the first (region, leaf_a, leaf_b)"""
    for r in disagreements(a, b, care, limit):
        return r
    return None


# ---------------------------------------------------------------- differentiation
def diff(v, x, memo=None):
    """derivative of a (gated) value w.r.t. input atom x (gates are treated as locally constant)"""
    memo = {} if memo is None else memo

    def da(a):
        k = ('a', a)
        if k in memo:
            return memo[k]
        A = _atoms[a]
        if A is x:
            r = ONE
        elif A.kind == 'in':
            r = ZERO
        else:
            args = [y for y in A.args if isinstance(y, Poly)]
            ds = [dp(y) for y in args]
            if all(not z.t for z in ds):
                r = ZERO
            elif A.kind == 'sin':
                r = pmul(leaf_sincos('cos', args[0]), ds[0])
            elif A.kind == 'cos':
                r = pneg(pmul(leaf_sincos('sin', args[0]), ds[0]))
            elif A.kind == 'sqrt':
                r = pdiv(ds[0], pscale(patom(A), 2))
            elif A.kind == 'sum':
                r = ds[0]
            elif A.kind == 'fmod':
                r = ds[0]
            elif A.kind in ('trunc', 'round', 'floor', 'idiv'):
                r = ZERO
            elif A.kind == 'exp':
                r = pmul(patom(A), ds[0])
            elif A.kind == 'log':
                r = pdiv(ds[0], args[0])
            elif A.kind == 'atan2':
                y, xx = args
                r = pdiv(psub(pmul(xx, ds[0]), pmul(y, ds[1])), padd(pmul(xx, xx), pmul(y, y)))
            elif A.kind == 'asin':
                r = pdiv(ds[0], leaf_sqrt(psub(ONE, pmul(args[0], args[0]))))
            else:
                raise Unsupported('derivative of ' + A.kind)
        memo[k] = r
        return r

    def dp(p):
        if p.id in memo:
            return memo[p.id]
        r = ZERO
        for m, c in p.t.items():
            for i, (a, e) in enumerate(m):
                d = da(a)
                if not d.t:
                    continue
                rest = [z for z in m if z[0] != a]
                if e != 1:
                    rest.append((a, e - 1))
                t = pscale(mono_norm(tuple(sorted(rest))), c * e)
                r = padd(r, pmul(t, d))
        memo[p.id] = r
        return r
    return lift(lambda z: _d(dp, z), v)


# ---------------------------------------------------------------- printing
def show_atom(a):
    A = _atoms[a]
    if A.kind == 'in':
        return str(A.args[0])
    return '%s(%s)' % (A.kind, ', '.join(show(x, 60) if isinstance(x, (Poly, Node)) else repr(x)
                                         for x in A.args[:1 if A.kind == 'sum' else None]))


def show(v, maxlen=400):
    if isinstance(v, Node):
        s = 'case %s {' % show(v.q, 60)
        for i, k in enumerate(v.kids):
            hi = v.br[i] if i < len(v.br) else None
            s += ('%s%.10g: ' % ('<' if hi[1] == 0 else '<=', hi[0]) if hi else 'else: ') + show(k, 100) + '; '
            if len(s) > maxlen:
                return s[:maxlen] + '...'
        return s + '}'
    if not isinstance(v, Poly):
        return repr(v)
    if not v.t:
        return '0'
    out = []
    n = 0
    for m, c in sorted(v.t.items(), key=lambda z: (len(z[0]), z[0])):
        f = '*'.join(show_atom(a) + ('^%d' % e if e != 1 else '') for a, e in m)
        cs = '%.12g' % c
        out.append(cs if not f else (f if c == 1 else '-' + f if c == -1 else cs + '*' + f))
        n += len(out[-1])
        if n > maxlen:
            out.append('...(%d terms)' % len(v.t))
            break
    return ' + '.join(out)


reset()

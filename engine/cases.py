"""How each routine is posed: the argument ranges over which its closed form is built (everything not listed is left
fully symbolic)."""
from . import alg, flow, api


def ge(i, c):
    return lambda C: alg.cmp('ge', C.args[i], alg.const(c))


def between(i, lo, hi):
    return lambda C: alg.band(alg.cmp('ge', C.args[i], alg.const(lo)), alg.cmp('le', C.args[i], alg.const(hi)))


def entry_ints(C, i, n):
    return [flow.initial_cell(C, ('p%d' % i, 4 * k), 4) for k in range(n)]


def ordered(n):
    """documented state of the combination generator: increasing selection within the candidates"""
    def pre(C):
        l = entry_ints(C, 2, n)
        c = alg.cmp('le', l[-1], C.args[1])
        for a, b in zip(l, l[1:]):
            c = alg.band(c, alg.cmp('lt', a, b))
        return c
    return pre


def starting(C):
    return alg.cmp('lt', entry_ints(C, 2, 1)[0], alg.ONE)


def digits(n):
    """documented state of the permutation generator: digit j in 0..j, or negative first digit to start"""
    def pre(C):
        c = alg.ONE
        for k, x in enumerate(entry_ints(C, 1, n)):
            y = alg.cmp('le', x, alg.const(k))
            if k:
                y = alg.band(y, alg.cmp('ge', x, alg.ZERO))
            c = alg.band(c, y)
        return c
    return pre


def perm_start(C):
    return alg.cmp('lt', entry_ints(C, 1, 1)[0], alg.ZERO)


def carried(n, j):
    """digits below j at their limit, so that the carry reaches digit j, which is symbolic; above, 0 and limit alternate"""
    return lambda: {1: [alg.const(k) if k < j or (k - j) % 2 == 0 and k > j else
                        alg.var('d', isint=True) if k == j else alg.ZERO for k in range(n)]}


def one_digit(j):
    return lambda C: alg.band(alg.cmp('ge', alg.var('d', isint=True), alg.ZERO), alg.cmp('le', alg.var('d', isint=True), alg.const(j)))


def samples(n):
    """fixed samples but for the last one"""
    def mk():
        fixed = lambda a, b, m: [alg.const((a * k * k + b * k) % m - m // 2) for k in range(2 * n - 2)]
        return {2: fixed(3, 5, 17) + [alg.var('xe'), alg.var('ye')], 3: fixed(5, 2, 13) + [alg.var('xm'), alg.var('ym')]}
    return mk


def obs_ids():
    import os
    import re
    t = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'obs.h')).read()
    return re.findall(r'\{"([^"]*)",', t)


def cases(name, tier='quick'):
    """list of (label, keyword arguments of flow.closed)"""
    th = tier == 'thorough'
    if name in ('dd2tf', 'cd2tf', 'dr2af', 'cr2af', 'dr2tf', 'cr2tf'):
        return [('ndp=%d' % k, dict(consts={0: k})) for k in range(-3 if th else -1, 10)]
    if name == 'djcal':
        return [('ndp=%d' % k, dict(consts={0: k})) for k in range(-3 if th else -1, 10)]
    if name == 'validate_gregorian_day':
        return [('month 1..12', dict(pre=between(1, 1, 12)))]
    if name == 'precl':
        # the same arguments written ep0 = 2000 + 1000 u, ep1 = ep0 + 1000 v: no cancellation in the coefficients
        ep = lambda o, n: alg.add(o, alg.mul(alg.const(1000), alg.var(n)))
        return [('', dict(values=lambda: {0: ep(alg.const(2000), 'u'), 1: ep(ep(alg.const(2000), 'u'), 'v')}))]
    if name in ('euler', 'deuler'):
        strs = ['', 'x', 'Y', '3', 'zxz', 'ZYX', '213', 'x4y', 'yxyz']
        return [('', {})] + [('axes="%s"' % s, dict(consts={0: s})) for s in strs]
    if name == 'obs':
        out = [('by number', dict(consts={1: 'x'}, pre=ge(0, 0), maxsym=200))]
        ids = obs_ids()
        odd = ['zz', '', 'UKIR', 'LPO', 'ukirt', '?', 'UKIRTX', 'VLT', 'AAT ']
        return out + [('id="%s"' % s, dict(consts={0: -1 - k % 3, 1: s}, maxsym=200)) for k, s in enumerate(dict.fromkeys(ids + odd))]
    if name == 'fitxy':
        return [('sbr=%d n=%d' % (s, n), dict(consts={0: s, 1: n}, sizes={2: 2 * n, 3: 2 * n}, opaque='linear'))
                for s in (0, 1) for n in (0, 1, 2, 3, 4, 5, 6)] + \
               [('sbr=%d n=%d, last sample symbolic' % (s, n), dict(consts={0: s, 1: n}, sizes={2: 2 * n, 3: 2 * n},
                                                                    values=samples(n), opaque='linear'))
                for s in (0, 1) for n in (7, 10, 13, 18)]
    if name in ('dmat', 'smat'):
        return [('n=%d' % n, dict(consts={0: n}, sizes={1: n * n, 2: n, 4: n})) for n in (1, 2, 3)]
    if name == 'refro':
        box = {0: (0.0, 1.6), 1: (-900.0, 10900.0), 2: (230.0, 310.0), 3: (300.0, 1100.0), 4: (0.01, 1.0), 5: (0.2, 90.0), 6: (-1.6, 1.6),
               7: (0.0011, 0.0099), 8: (1e-11, 0.01)}
        high = {**box, 1: (11100.0, 70000.0)}
        out = []
        for lab, r in [('troposphere', box), ('above tropopause', high)]:
            for l2, r2 in [('', {}), (', radio', {5: (100.1, 1e6)})]:
                out.append((lab + l2, dict(ranges={**r, **r2}, summarise={'uncounted'}, maxsym=0)))
        base = {0: .9, 1: 2312.0, 2: 277.3, 3: 793.1, 4: .41, 5: .571, 6: .523, 7: .0063, 8: 1e-8}
        for k, name, vals in [(0, 'zd', (-1.5, -.3, 0.0, 1e-4, 1.6, 1.63, 4.0, -7.3)), (1, 'height', (-2000.0, -1000.0, 11000.0, 11001.0, 80000.0, 1e5)),
                              (2, 'temperature', (50.0, 100.0, 320.0, 500.0, 700.0)), (3, 'pressure', (-3.0, 0.0, .4, 10000.0, 2e4)),
                              (4, 'humidity', (-.3, 0.0, 1.0, 1.4)), (5, 'wavelength', (-1.0, 0.05, .1, 100.0, 100.001)),
                              (7, 'lapse rate', (-.0065, 0.0, .001, .01, .03)),
                              (8, 'precision', (0.0, 1e-13, -1e-10, .05, .4))]:
            for v in vals:
                out.append(('%s=%g' % (name, v), dict(consts={**{j: x for j, x in base.items() if j != 8 or k == 8}, k: v}, ranges={8: box[8]} if k != 8 else {},
                                                      summarise={'uncounted'}, maxsym=0)))
        out.append(('any precision', dict(consts={j: x for j, x in base.items() if j != 8}, summarise={'uncounted'}, maxsym=0)))
        return out
    if name == 'refco':
        return [('', dict(opaque='refro'))]
    if name == 'pxy':
        return [('n=%d' % n, dict(consts={0: n}, sizes={1: 2 * n, 2: 2 * n, 4: 2 * n})) for n in (0, 1, 2, 3, 5, 8, 13)]
    if name == 'svdsol':
        out = []
        for m, n, mp, np in [(1, 1, 1, 1), (2, 2, 2, 2), (3, 2, 4, 3), (2, 1, 2, 3), (3, 3, 3, 3), (6, 4, 6, 5), (9, 8, 10, 8), (14, 12, 14, 12)]:
            out.append(('m=%d n=%d mp=%d np=%d' % (m, n, mp, np), dict(
                consts={0: m, 1: n, 2: mp, 3: np}, sizes={4: m, 5: mp * np, 6: n, 7: np * np, 8: n, 9: n})))
        return out
    if name == 'svdcov':
        return [('n=%d np=%d nc=%d' % (n, np, nc), dict(consts={0: n, 1: np, 2: nc}, sizes={3: n, 4: np * np, 5: n, 6: nc * nc}))
                for n, np, nc in [(1, 1, 1), (2, 2, 2), (2, 3, 3), (2, 4, 3), (3, 3, 4), (5, 6, 5), (8, 8, 9), (10, 11, 10)]]
    if name == 'combn':
        out = [('nsel=%d' % k, dict(consts={0: k}, sizes={2: 1})) for k in (-1, 0)]
        for n in range(1, 25 if th else 17):
            out.append(('nsel=%d, start' % n, dict(consts={0: n}, sizes={2: n}, pre=starting)))
            out.append(('nsel=%d, next' % n, dict(consts={0: n}, sizes={2: n}, pre=ordered(n))))
        return out
    if name == 'permut':
        out = [('n=%d' % n, dict(consts={0: n}, sizes={1: 1, 2: 1})) for n in (-1, 0)]
        for n in range(1, 7 if th else 6):
            out.append(('n=%d, start' % n, dict(consts={0: n}, sizes={1: n, 2: n}, pre=perm_start, maxsym=50)))
            out.append(('n=%d, next' % n, dict(consts={0: n}, sizes={1: n, 2: n}, pre=digits(n), maxsym=50)))
        for n in range(6, 26 if th else 17):
            out.append(('n=%d, start' % n, dict(consts={0: n}, sizes={1: n, 2: n}, pre=perm_start, maxsym=50)))
            for j in range(1, n):
                out.append(('n=%d, digit %d' % (n, j), dict(consts={0: n}, sizes={1: n, 2: n}, values=carried(n, j),
                                                            pre=one_digit(j), maxsym=50)))
        return out
    return [('', {})]


def prepare(kw, res):
    """fills the symbolic parts of a case (must run after alg.reset)"""
    kw = dict(kw)
    for k, r in kw.pop('ranges', {}).items():
        alg.RANGES['p%d' % k] = r
    if callable(kw.get('values')):
        kw['values'] = kw['values']()
    if kw.get('opaque') == 'refro':
        h = lambda B, name, vals, st: alg.lift(lambda *z: alg.patom(alg.atom('refro', *z)), *vals)
        kw['opaque'] = {res.get('refro', 'refro'): h, 'spec_refro': h}
    if kw.get('opaque') == 'linear':
        L = flow.linear_system
        kw['opaque'] = {res.get('dmat', 'dmat'): L, 'spec_dmat': L}
    return kw


def abbreviate(name):
    return 3 if name == 'refro' else 0


def tolerance(name):
    if name == 'refro':
        return 1e-9            # refractivities are differences from one
    if name in ('pda2h', 'pdq2h'):
        return 2e-14           # they test for angles within 1e-12 of critical values
    if name == 'moon':
        return 1e-11           # phases are small next to the accumulated whole turns
    return 1.5e-7 if api.API[name].precision == 'float' else 4e-12


# critical values for the calendar routines, where one day in centuries may be the only witness
def _ymd(year=0, month=1, day=2):
    ys = [y + d for y in range(-4800, 8001, 100) for d in (-4, -1, 0, 1, 4)] + [400 * k for k in range(-11, 40)] * 4 + \
        list(range(-4715, -4695)) * 2 + list(range(-5, 105)) * 2 + list(range(1895, 2030)) * 3
    return {'p%d' % year: ('orbit', ys), 'p%d' % month: ('orbit', list(range(1, 13)) * 2 + [2] * 24 + [12, 1, 3] * 4 + [0, 13, -1]),
            'p%d' % day: ('orbit', [28, 29, 30, 31, 32, 1, 0] * 6 + list(range(1, 29)))}


def _mjd(k):
    def mjd(y, m, d):
        a = y - (12 - m) // 10
        return 1461 * (a + 4712) // 4 + (306 * ((m + 9) % 12) + 5) // 10 - 3 * ((a + 4900) // 100) // 4 + d - 2399904
    ds = [mjd(y, m, d) for y in list(range(-4600, 9000, 100)) + list(range(1990, 2013)) + [3999, 4004, 20000, 123600, 99996] for m in range(1, 13)
          for d in ((1, 2, 28) if m != 2 else (1, 28))]
    ds += [x + d for y in range(-4600, 9000, 100) for x in (mjd(y, 3, 1), mjd(y, 1, 1)) for d in (-2, -1, 0)] * 2
    ds = [x for x in ds if x > -2395520] + list(range(51544, 53006))
    fr = (0.0, 0.25, 0.5, 0.999)
    return {'p%d' % k: ('orbit', [x + fr[i % 4] for i, x in enumerate(ds)])}


CALENDAR = {n: _ymd for n in ('cldj', 'caldj', 'clyd', 'calyd', 'validate_gregorian_day')}
CALENDAR.update(djcl=lambda: _mjd(0), djcal=lambda: _mjd(1))

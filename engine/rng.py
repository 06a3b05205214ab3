"""Random deviates: whole call histories, starting from the initial values of the static data, are turned into closed forms.
The standard-library engine is opaque: seeding it restarts the stream, each canonical deviate drawn from it is one fresh
unknown in [0,1) (gresid) or an injective function of seed and position in the stream (random)."""
import functools
import os
import re
import tempfile
from . import alg, api, build, flow, gvg
from .irparse import Ty

SOURCE = '''
#include "slalib.h"
#include <random>
extern "C" float slav_draw(std::default_random_engine*);
extern "C" void slav_seed(std::default_random_engine*, unsigned long);
extern "C" void slav_later();
#define HISTORY(f, n, m) \
    extern "C" void f ## _code(const float* s, float* out) { for (int i = 0; i < n; i++) out[i] = sla::f(s[i]); } \
    extern "C" void f ## _once(const float* s, float* out) { for (int i = 0; i < m; i++) out[i] = sla::f(s[i]); } \
    extern "C" void f ## _twice(const float* s, float* out) { for (int i = 0; i < m + m; i++) out[i] = sla::f(s[i]); } \
    extern "C" void f ## _later(const float* s, float* out) { for (int i = 0; i < n; i++) { if (i == m) slav_later(); out[i] = sla::f(s[i]); } }
HISTORY(gresid, 5, 2)
HISTORY(random, 3, 1)
'''
REFERENCE = '''
#include <cmath>
#include <random>
extern "C" float slav_draw(std::default_random_engine*);
extern "C" void slav_seed(std::default_random_engine*, unsigned long);
// deviates 2i and 2i+1 come from the i-th accepted pair of deviates, ordinate first
extern "C" void gresid_rule(const float* s, float* out) {
    static std::default_random_engine g;
    slav_seed(&g, 1);
    for (int i = 0; i < 6; i += 2) {
        float a, b, q;
        for (;;) {
            a = 2.0f * slav_draw(&g); a -= 1.0f;
            b = 2.0f * slav_draw(&g); b -= 1.0f;
            q = a * a + b * b;
            if (q < 1.0f) break;
        }
        const float f = std::sqrt(-2.0f * std::log(q) / (q < 1e-20f? 1e-20f: q));
        out[i] = s[i] * b * f;
        if (i < 4) out[i + 1] = s[i + 1] * a * f;
    }
}
// one stream, seeded with the first argument scaled to seven digits and made odd
extern "C" void random_rule(const float* s, float* out) {
    static std::default_random_engine g;
    const float a = 1.0f + (s[0] < 0.0f? -s[0]: s[0]);
    const int e = (int) std::round(std::log10(a));
    int k = (int) std::round(a / std::pow(10.0f, float(e - 6)));
    slav_seed(&g, (k & 1) == 0? k + 1: k);
    for (int i = 0; i < 3; i++) out[i] = slav_draw(&g);
}
'''
DRAWS = 10
U64 = Ty('int', 64)


@functools.lru_cache(None)
def compile(name):
    d = tempfile.mkdtemp(prefix='slarng.')
    p, q = os.path.join(d, 'history.cc'), os.path.join(d, 'rule.cc')
    try:
        open(p, 'w').write(SOURCE)
        open(q, 'w').write(REFERENCE)
        return build.load_files([p, q] + build.library_sources(), incs=[os.path.join(build.REPO, 'src')])
    finally:
        for f in (p, q):
            if os.path.exists(f):
                os.remove(f)
        os.rmdir(d)


def oracle(mod, name):
    """{function: meaning} of the engine's operations; and the list of draws"""
    used, engines = {}, set()

    def u(k):
        if k not in used:
            used[k] = alg.var('u%s' % k, rng=(0, 1))
        return used[k]

    def draw(B, fn, vals, s):
        engines.add(vals[0].obj if isinstance(vals[0], gvg.Ptr) else None)
        st = B.load(vals[0], U64, s)
        if name == 'gresid':
            if not B.summarised:
                s.pc = alg.band(s.pc, alg.cmp('lt', st, alg.const(DRAWS)))      # longer streams are not looked at
                if s.pc is alg.ZERO:
                    return alg.ZERO
            r = alg.fn1(lambda x: u(int(x.cval()) if x.is_const() else x), st)
            B.store(vals[0], alg.add(st, alg.ONE), U64, s)
        else:
            r = alg.add(alg.mul(st, alg.const(5)), alg.ONE)
            B.store(vals[0], r, U64, s)
        return r

    def seed(B, fn, vals, s):
        B.store(vals[0], alg.ZERO if name == 'gresid' else vals[1] if len(vals) > 1 else alg.ONE, U64, s)
        return None

    def release(B, fn, vals, s):
        B.store(vals[0], alg.ONE, Ty('int', 8), s)
        return None
    ops = {'__cxa_guard_release': release}
    names = set(mod.funcs) | {'slav_draw', 'slav_seed'}
    for n in names:
        if n == 'slav_draw' or re.search(r'generate_canonicalIf', n):
            ops[n] = draw
        elif n == 'slav_seed' or re.search(r'linear_congruential_engineI\w+E(4seedEm|C[12]E[mv])$', n):
            ops[n] = seed
    return ops, u, engines


def accepted(u, i, j=None):
    def sq(k):
        x = alg.sub(alg.mul(alg.const(2), u(k)), alg.ONE)
        return alg.mul(x, x)
    return alg.cmp('lt', alg.add(sq(i), sq(i + 1 if j is None else j)), alg.ONE)


# which of the successive pairs are accepted
HISTORIES = {'gresid': [('every pair accepted', (1, 1, 1)), ('first pair rejected', (0, 1, 1, 1)), ('second pair rejected', (1, 0, 1, 1)),
                        ('two pairs rejected', (1, 0, 0, 1, 1))],
             'random': [('three calls', None)]}


def later(mod, name):
    """non-flag integer state of the library that moves from period to period (call counters): {cell: unknown value}"""
    A = []
    for h in ('once', 'twice'):
        ops, u, engines = oracle(mod, name)
        A.append(flow.closed(mod, '%s_%s' % (name, h), routine(name, h), opaque=ops, maxsym=12,
                             pre=lambda C: accepting(u, (1, 1) if name == 'gresid' else None)))
    out = {}
    for k, (v, size) in A[1].mem.items():
        if not (k[0].startswith('@') and isinstance(k[1], int)) or re.match(r'@(_ZGV|__)', k[0]):
            continue
        if k[0] in engines:
            continue
        w = A[0].mem.get(k)
        if (w is None or w[0] is not v) and getattr(v, 'is_const', lambda: False)():
            out[k] = (alg.var('later%d' % len(out), isint=True, rng=(0, 2**31 - 1)), size)
    return out


def routine(name, side):
    n = 5 if name == 'gresid' else 3
    return api.Routine('%s_%s' % (name, side), 'void', [api.Param('s', 'float', n, True, False, 'obj'),
                                                        api.Param('out', 'float', n, False, False, 'obj')])


def accepting(u, acc):
    c = alg.ONE
    for i, a in enumerate(acc or ()):
        x = accepted(u, 2 * i)
        c = alg.band(c, x if a else alg.bnot(x))
    return c


def rejection(mod):
    """(title, condition for another turn of a rejection loop, the rule) whatever the number of turns before"""
    ops, u, engines = oracle(mod, 'gresid')
    A = flow.closed(mod, 'gresid_once', routine('gresid', 'once'), observer=flow.Track(), opaque=ops, summarise={'uncounted'}, maxsym=12)
    for rec in A.B.looprecs:
        c = [v for v in rec.vars if not isinstance(v.key, str) and v.key[0] in engines]
        if len(c) != 1 or rec.children:
            raise alg.Unsupported('loop without one stream of deviates')
        c = c[0]
        if not (alg.sub(c.next, c.atom).is_const() and alg.sub(c.next, c.atom).cval() == 2):
            raise alg.Unsupported('loop drawing other than pairs')
        ren, turns, care = {}, alg.var('turns', isint=True), alg.ONE
        for v in rec.vars:
            if v is c or not set(alg.atoms_of(v.atom)) & set(alg.atoms_of(rec.cont)):
                continue
            steps = [alg.sub(l, v.atom) for l in alg.leaves(v.next) if isinstance(l, alg.Poly)]
            step = ([x for x in steps if x.is_const() and x is not alg.ZERO] or [None])[0]        # the other leaf is wrap-around
            if step is not None and isinstance(v.init, alg.Poly) and v.init.is_const():
                ren[v.atom] = alg.add(v.init, alg.mul(step, turns))
            else:
                raise alg.Unsupported('loop that carries values')
        cont = rec.cont
        care = alg.cmp('ge', turns, alg.ZERO)
        for a, val in ren.items():
            care = alg.band(care, alg.cmp('eq', a, val))
        one = alg.add(c.atom, alg.ONE)
        yield 'condition to try another pair', cont, alg.bnot(accepted(u, c.atom, one)), care


def forms(name):
    mod = compile(name)
    n = 5 if name == 'gresid' else 3
    cells = later(mod, name)
    hs = [('code', t, a) for t, a in HISTORIES[name]]
    if cells:
        hs += [('later', t + ', any number of calls before', a) for t, a in HISTORIES[name]]
    for side, title, acc in hs:
        A = []
        for h in (side, 'rule'):
            ops, u, engines = oracle(mod, name)

            def havoc(B, fn, vals, s):
                s.mem.update(cells)
            ops['slav_later'] = havoc
            A.append(flow.closed(mod, '%s_%s' % (name, h), routine(name, h), observer=flow.Track(), opaque=ops,
                                 pre=lambda C: accepting(u, acc), maxsym=12))
        for k in range(n):
            yield title, 'deviate %d' % (k + 1), flow.cell(A[0], 1, k), flow.cell(A[1], 1, k), A

"""Value types of the public header: a small translation unit exercising every accessor is generated, compiled against the
analysed tree's slalib.h and turned into closed forms like the library itself.  It is never run."""
import os
import tempfile
from . import alg, api, build, flow


def F(*names, g=None):
    """one stored field: the names its setters and getters go by"""
    return ['set_' + n for n in names], ['get_' + n for n in names]


LONG, LAT = F('longitude', 'ra', 'ha'), F('latitude', 'dec')
CLASSES = {}
for t in ('float', 'double'):
    CLASSES['Spherical<%s>' % t] = (t, [LONG, LAT])
    CLASSES['SphericalPos<%s>' % t] = (t, [LONG, LAT, F('dist')])
    CLASSES['VectorPV<%s>' % t] = (t, [F(n) for n in ('x', 'y', 'z', 'dx', 'dy', 'dz')])
    CLASSES['SphericalPV<%s>' % t] = (t, [F('longitude', 'ra'), F('latitude', 'dec'), F('dist'), F('dlong', 'dra'),
                                          F('dlat', 'ddec'), F('ddist')])
CLASSES['AltazMount'] = ('double', [F(n) for n in ('azimuth', 'az_velocity', 'az_acceleration', 'elevation', 'el_velocity',
                                                   'el_acceleration', 'pangle', 'pa_velocity', 'pa_acceleration')])
CLASSES['FitCoeffs'] = ('double', [F(c) for c in 'abcdef'])
CLASSES['ConversionResult'] = ('int', [F('hours', 'degrees'), F('minutes', 'arcminutes'), F('seconds', 'arcseconds'), F('fraction')])


def views(c, t, n):
    """further ways to look at an object o whose fields hold in[0..n-1]: list of (title, C++ statements, expected cells)"""
    ins = list(range(n))
    out = []
    ctor = 'Vector<%s> p = {in[0], in[1], in[2]}, w = {in[3], in[4], in[5]}; %s q(p, w);' % (t, c)
    if c.startswith('VectorPV'):
        out.append(('constructor', ctor + ''.join('out[%d] = q.get_%s();' % (i, a) for i, a in enumerate(('x', 'y', 'z', 'dx', 'dy', 'dz'))), ins))
        out.append(('get_position, get_velocity', 'for (int i = 0; i < 3; i++) { out[i] = o.get_position()[i]; out[3 + i] = o.get_velocity()[i]; }', ins))
    if c.startswith('SphericalPV'):
        sp = 'SphericalPos<%s> p, w; ' % t + ''.join('%s.set_%s(in[%d]);' % ('pw'[i // 3], a, i) for i, a in enumerate(
            ('longitude', 'latitude', 'dist') * 2)) + '%s q(p, w);' % c
        out.append(('constructor', sp + ''.join('out[%d] = q.get_%s();' % (i, a) for i, a in enumerate(
            ('longitude', 'latitude', 'dist', 'dlong', 'dlat', 'ddist'))), ins))
        g = ''.join('out[%d] = o.get_%s().get_%s();' % (i, ('position', 'velocity')[i // 3], a)
                    for i, a in enumerate(('longitude', 'latitude', 'dist') * 2))
        out.append(('get_position, get_velocity', g, ins))
        out.append(('get_direction', 'out[0] = o.get_direction().get_longitude(); out[1] = o.get_direction().get_latitude();', [0, 1]))
    if c == 'FitCoeffs':
        out.append(('operator[]', 'for (int i = 0; i < 6; i++) out[i] = o[i];', ins))
        out.append(('operator()', 'for (int i = 0; i < 6; i++) out[i] = o()[i];', ins))
        out.append(('get_abc, get_def', 'for (int i = 0; i < 3; i++) { out[i] = o.get_abc()[i]; out[3 + i] = o.get_def()[i]; }', ins))
        out.append(('writing through operator[]', 'for (int i = 0; i < 6; i++) o[i] = in[5 - i]; ' +
                    ''.join('out[%d] = o.get_%s();' % (i, 'abcdef'[i]) for i in range(6)), ins[::-1]))
        out.append(('get_nfields', 'out[0] = o.get_nfields();', [('const', 6)]))
    if c == 'ConversionResult':
        out.append(('sign as a character', "o.set_sign('-'); out[0] = o.get_sign(); o.set_sign('+'); out[1] = o.get_sign();",
                    [('const', 45), ('const', 43)]))
        out.append(('sign as a truth value', 'o.set_sign(false); out[0] = o.get_sign(); o.set_sign(true); out[1] = o.get_sign();',
                    [('const', 45), ('const', 43)]))
        out.append(('fields unaffected by the sign', "o.set_sign('-'); out[0] = o.get_hours(); out[1] = o.get_minutes(); "
                    'out[2] = o.get_seconds(); out[3] = o.get_fraction();', ins))
        out.append(('sign unaffected by the fields', "o.set_sign('-'); o.set_hours(v); o.set_minutes(v); o.set_seconds(v); "
                    'o.set_fraction(v); out[0] = o.get_sign();', [('const', 45)]))
    return out


def generate(c):
    """source text and [(function, title, expected values of out[])]"""
    t, fields = CLASSES[c]
    n = len(fields)
    init = '%s o; ' % c + ' '.join('o.%s(in[%d]);' % (s[0], i) for i, (s, g) in enumerate(fields))
    src = ['#include "slalib.h"', 'using namespace sla;']
    out = []

    def fn(title, body, exp):
        name = 'acc%d' % len(out)
        src.append('extern "C" void %s(const %s* in, %s v, %s* out) { %s %s }' % (name, t, t, t, init, body))
        out.append((name, title, exp))
    gets = [(i, g) for i, (s, gs) in enumerate(fields) for g in gs]
    show = ' '.join('out[%d] = o.%s();' % (k, g) for k, (i, g) in enumerate(gets))
    for j, (ss, _) in enumerate(fields):
        for s in ss:
            fn(s, 'o.%s(v); %s' % (s, show), [('v' if i == j else i, g) for i, g in gets])
    for title, body, exp in views(c, t, n):
        fn(title, body, [(e, 'cell %d' % k) for k, e in enumerate(exp)])
    return '\n'.join(src) + '\n', out, t, n


def compile(c):
    src, fns, t, n = generate(c)
    d = tempfile.mkdtemp(prefix='slaacc.')
    p = os.path.join(d, 'access.cc')
    try:
        open(p, 'w').write(src)
        return fns, t, n, build.load_files([p], incs=[os.path.join(build.REPO, 'src')])
    finally:
        if os.path.exists(p):
            os.remove(p)
        os.rmdir(d)


def narrowing(c):
    """conversions to single precision in the accessors of a double-precision class"""
    fns, t, n, mod = compile(c)
    for f in mod.funcs.values():
        for i in f.instrs():
            if t == 'double' and (i.op == 'fptrunc' or i.op in ('fptosi', 'fptoui')):
                yield 'conversion in %s' % f.name, f, i


def forms(c):
    """(title, what is read, form, expected form, where) for every accessor of the class"""
    fns, t, n, mod = compile(c)
    P = api.Param
    for name, title, exp in fns:
        rt = api.Routine(name, 'void', [P('in', t, n, True, False, 'obj'), P('v', t, 1, True, False, 'scalar'),
                                        P('out', t, len(exp), False, False, 'obj')])
        A = flow.closed(mod, name, rt, observer=flow.Track())
        for k, (e, g) in enumerate(exp):
            want = A.args[1] if e == 'v' else alg.const(e[1]) if isinstance(e, tuple) else flow.cell(A, 0, e)
            yield title, g, flow.cell(A, 2, k), want, A

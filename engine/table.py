"""Which rule instances decide which property."""
from . import access, api, cases, rules


def S(*names):
    return [('spec', n) for n in names]


def COND(*names):
    return [('conditioning', n, L) for n in names]


L = '*'            # every case of the routine
NOGRAPH = ('refro', 'svd', 'random', 'gresid', 'wait', 'veri', 'vers')
NOSPEC = NOGRAPH + ('dmat', 'smat')
GRAPH = [n for n in api.API if n not in NOGRAPH]
SPEC = [n for n in api.API if n not in NOSPEC]
ALL = [n for n in api.API]
# (routine, output, input) that may be one object
ALIAS = [(n, 2, i) for n in ('mxm', 'dmxm', 'vxv', 'dvxv') for i in (0, 1)] + \
        [(n, 2, 1) for n in ('mxv', 'dmxv', 'imxv', 'dimxv')] + \
        [(n, 1, 0) for n in ('vn', 'dvn', 'eg50', 'ge50', 'eqgal', 'galeq', 'galsup', 'supgal', 'invf', 'cc62s', 'dc62s')] + \
        [(n, 2, 0) for n in ('addet', 'subet', 'eqecl', 'ecleq')] + \
        [(n, 3, 2) for n in ('tp2s', 'dtp2s', 'tp2v', 'dtp2v')] + [('refv', 3, 0), ('pm', 6, 0)]
TURNS = ('range', 'drange', 'ranorm', 'dranrm')
SVD = ((1, 1, 1), (2, 2, 2), (3, 2, 2), (3, 2, 3), (3, 3, 3))
PROPS = {
    'C01': [('purity', n) for n in ALL if n not in ('random', 'gresid', 'wait')],
    'C02': [('threads',)],
    'C03': [('memory', n, L, ('const', 'extent')) for n in GRAPH + ['refro']] +
           [('svdmem', p) + s + (('const', 'extent'),) for s in SVD for p in ('reduction', 'turn')],
    'C04': [('outputs', n, L) for n in GRAPH if n in SPEC and api.API[n].outs],
    'C05': [('alias', n, L, o, i) for n, o, i in ALIAS],
    'C06': [('memory', n, L, ('oob', 'extent', 'undef', 'div') if n in rules.BIGGEST else ('oob', 'extent', 'undef', 'div', 'conv')) for n in GRAPH + ['refro']] +
           [('memory', 'djcal', L, ('conv',))] +
           [('svdmem', p) + s + (('oob', 'extent', 'undef', 'div'),) for s in SVD for p in ('reduction', 'turn')],
    'C07': [('terminates', n) for n in ALL if n not in ('gresid', 'wait')],
    'C08': [('precision', n) for n in ALL if api.API[n].precision == 'double' and n != 'evp' and
            'float' not in {p.elem for p in api.API[n].params} | {api.API[n].ret}],
    'C09': [('sibling', a, L, b) for a, b in rules.SIBLINGS],
    'C10': S('caf2r', 'daf2r', 'ctf2d', 'dtf2d', 'ctf2r', 'dtf2r'),
    'C11': S('dd2tf', 'cd2tf', 'dr2af', 'cr2af', 'dr2tf', 'cr2tf'),
    'C12': S('cldj', 'caldj', 'clyd', 'calyd', 'process_year_defaults', 'validate_gregorian_day'),
    'C13': S('djcl', 'djcal'),
    'C14': S(*TURNS) + [('memory', n, L, ('conv',)) for n in TURNS] + [('ranges', n, L) for n in rules.RANGES],
    'C15': S('dat', 'dtt', 'dt'),
    'C16': S('epj', 'epj2d', 'epb', 'epb2d', 'epco', 'gmst', 'gmsta', 'eqeqx'),
    'C17': S('vdv', 'dvdv', 'vxv', 'dvxv', 'vn', 'dvn', 'mxm', 'dmxm', 'mxv', 'dmxv', 'imxv', 'dimxv', 'm2av', 'dm2av'),
    'C18': S('av2m', 'dav2m', 'euler', 'deuler', 'prec', 'precl', 'prebn', 'nut', 'prenut', 'ecmat'),
    'C19': S('cs2c', 'dcs2c', 'cc2s', 'dcc2s', 'cs2c6', 'ds2c6', 'cc62s', 'dc62s') + COND('cc2s', 'dcc2s', 'cc62s', 'dc62s'),
    'C20': S('sep', 'dsep', 'sepv', 'dsepv', 'bear', 'dbear', 'pav', 'dpav') + COND('sep', 'dsep', 'sepv', 'dsepv', 'bear', 'dbear', 'pav', 'dpav'),
    'C21': S('eqgal', 'galeq', 'galsup', 'supgal', 'eg50', 'ge50', 'eqecl', 'ecleq', 'ecmat'),
    'C22': S('preces', 'prec', 'prebn', 'precl', 'etrms', 'addet', 'subet', 'pm'),
    'C23': S('nutc', 'nutc80', 'nut', 'rcc', 'eqeqx'),
    'C24': S('s2tp', 'ds2tp', 'v2tp', 'dv2tp', 'tp2s', 'dtp2s', 'tp2v', 'dtp2v', 'tps2c', 'dtps2c', 'tpv2c', 'dtpv2c'),
    'C25': S('e2h', 'de2h', 'h2e', 'dh2e', 'zd', 'pa', 'altaz', 'pda2h', 'pdq2h') + COND('e2h', 'de2h', 'h2e', 'dh2e', 'zd', 'pa'),
    'C26': S('airmas', 'refcoq', 'atmdsp', 'refz', 'refv', 'refco', 'refro'),
    'C27': S('epv', 'evp', 'earth', 'ecor', 'moon', 'dmoon'),
    'C28': S('geoc', 'pvobs', 'polmo', 'obs'),
    'C29': S('xy2xy', 'invf', 'dcmpf', 'pxy', 'fitxy'),
    'C30': S('svdsol', 'svdcov') + [('linsys', r, n) for r in ('dmat', 'smat') for n in (1, 2, 3)] +
           [('bigsys', r, n, k) for r in ('dmat', 'smat') for n in (4, 5, 6, 7, 9) for k in (0, 1, 2, 3, 4, 5, 100, 101)],
    'C31': S('combn', 'permut'),
    'C32': S('rverot', 'rvgalc', 'rvlg', 'rvlsrd', 'rvlsrk'),
    'C33': S('pcd', 'unpcd'),
    'C34': [('version',)],
    'C35': [('factor', p) + s for s in ((1, 1, 1), (2, 1, 1), (2, 2, 2), (3, 2, 3), (3, 3, 3), (4, 3, 3), (4, 3, 4)) for p in ('reduction', 'turn')] +
           [('factor', 'wrongshape', m, m, m) for m in (1, 2, 3)],
    'C37': [('history', 'gresid'), ('history', 'random')],
    'C38': [('access', c) for c in access.CLASSES],
}


def jobs(prop, tier):
    out = []
    for inst in PROPS[prop]:
        if inst[0] == 'spec':
            inst = inst + (L,)
        if L in inst:
            for label, _ in cases.cases(inst[1], tier):
                if inst[0] == 'sibling' and label == 'n=3' and tier == 'quick':
                    continue
                out.append(tuple(label if x == L else x for x in inst))
        else:
            out.append(inst)
    return out

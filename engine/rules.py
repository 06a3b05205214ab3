"""The deciding rules.  Each takes the analysis context and returns a verdict dict:
status ok | violation | undecided, n (obligations examined), findings, what (construct analysed)."""
import os
import re
from . import alg, api, cases, flow, gvg, witness, recur

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


class Ctx:
    def __init__(self, mod, spec, tier):
        self.mod, self.spec, self.tier = mod, spec, tier
        self.res = api.resolve(mod)
        self.texts = {}

    def where(self, name):
        f = self.mod.funcs[self.res[name]]
        for b in f.blocks.values():
            for i in b.ins:
                if i.file and os.path.basename(i.file).startswith(name + '.'):
                    return '%s:%s' % (rel(i.file), i.line)
        for b in f.blocks.values():
            for i in b.ins:
                if i.file:
                    return '%s:%s' % (rel(i.file), i.line)
        return name


def rel(p):
    return p[p.index('/src/') + 1:] if '/src/' in p else p


def verdict(findings, n, what, **kw):
    st = 'ok'
    if any(f['status'] == 'violation' for f in findings):
        st = 'violation'
    elif findings:
        st = 'undecided'
    return dict(status=st, n=n, findings=findings, what=what, **kw)


def case_of(ctx, name, label):
    for l, kw in cases.cases(name, ctx.tier):
        if l == label:
            return kw
    raise KeyError(label)


def closed_case(ctx, name, label, observer=None, spec=False, **over):
    kw = cases.prepare(case_of(ctx, name, label), ctx.res)
    kw.update(over)
    if spec:
        return flow.closed(ctx.spec, 'spec_' + name, api.API[name], looptag='ref', **kw)
    return flow.closed(ctx.mod, ctx.res[name], api.API[name], observer=observer, **kw)


def spec(ctx, name, label):
    """the routine's outputs, as normal forms over its arguments, equal the reference definition's"""
    alg.reset(cases.tolerance(name), cases.abbreviate(name))
    A = closed_case(ctx, name, label, observer=flow.Track())
    R = closed_case(ctx, name, label, spec=True)
    n, fs = recur.compare(A, R) if A.B.looprecs or R.B.looprecs else flow.compare(A, R)
    if name == 'moon' and any(f['status'] == 'violation' for f in fs):
        # single-precision constants matched far below their rounding: a violation has to show in a good part of all dates
        ab = {nm: (a, b) for nm, a, b, _ in flow.outputs(A, R)}
        for f in fs:
            if f['status'] == 'violation' and f['output'] in ab:
                w, valid = witness.steadily(*ab[f['output']], A.pre, need=50, tol=2e-5)
                if w is None:
                    f['status'] = 'undecided'
    if name in cases.CALENDAR:
        second_chance(A, R, fs, cases.CALENDAR[name]())
    for f in fs:
        f['function'] = name
        f['case'] = label
        f['at'] = rel(f['at']) if f.get('at') else ctx.where(name)
    return verdict(fs, n, '%s(%s)' % (name, label))


def second_chance(A, R, fs, hints):
    """undecided equations, judged again on valuations drawn from lists of critical values"""
    ab = None
    for f in fs:
        if f['status'] != 'undecided':
            continue
        ab = ab or {nm: (a, b) for nm, a, b, _ in flow.outputs(A, R)}
        if f['output'] in ab:
            w = witness.sample(*ab[f['output']], A.pre, hints=hints, budget=6000)
            if w:
                f.update(status='violation', region=alg.show_region(w[0]), valuation=w[1], code_value=w[2], rule_value=w[3])


RULES = {'spec': spec}


def tag(ctx, name, label, f, at=None):
    f['function'] = name
    f['case'] = label
    f['at'] = rel(f['at']) if f.get('at') else at or ctx.where(name)
    return f


class Collect:
    """judges a list of equations and keeps the ones that fail"""
    def __init__(self, ctx, name, label):
        self.ctx, self.name, self.label, self.n, self.fs = ctx, name, label, 0, []

    def eq(self, what, a, b, care=None, rule=None, tol=None, hints=None):
        self.n += 1
        r = flow.judge(what, a, b, care, rule=rule, tol=tol, hints=hints)
        if r:
            self.fs.append(tag(self.ctx, self.name, self.label, r))

    def done(self):
        return verdict(self.fs, self.n, '%s(%s)' % (self.name, self.label))


def det(m, n):
    if n == 1:
        return m[0]
    s = alg.ZERO
    for j in range(n):
        minor = [m[i * n + k] for i in range(1, n) for k in range(n) if k != j]
        t = alg.mul(m[j], det(minor, n - 1))
        s = alg.add(s, t) if j % 2 == 0 else alg.sub(s, t)
    return s


def matmul(a, b, n):
    out = []
    for i in range(n):
        for j in range(n):
            s = alg.ZERO
            for k in range(n):
                s = alg.add(s, alg.mul(a[i * n + k], b[k * n + j]))
            out.append(s)
    return out


def linsys(ctx, name, n):
    """on success the matrix result times the given matrix is the identity, the given matrix times the vector result is
    the given vector, and the determinant is the Leibniz polynomial; on failure the determinant is zero; failure is
    reported exactly when elimination with the largest available pivot meets a pivot or determinant below 1e-20"""
    alg.reset(cases.tolerance(name), cases.abbreviate(name))
    kw = dict(consts={0: n}, sizes={1: n * n, 2: n, 4: n})
    A = flow.closed(ctx.mod, ctx.res[name], api.API[name], observer=flow.Track(), **kw)
    sz = api.SIZE[api.API[name].params[1].elem]
    M = [flow.initial_cell(A, ('p1', sz * k), sz) for k in range(n * n)]
    v = [flow.initial_cell(A, ('p2', sz * k), sz) for k in range(n)]
    I, x, dt = flow.vec(A, 1, n * n), flow.vec(A, 2, n), flow.cell(A, 3, 0)
    bad = alg.truth(A.ret)
    ok = alg.bnot(bad)
    C = Collect(ctx, name, 'n=%d' % n)
    P = matmul(M, I, n)
    for k in range(n * n):
        C.eq('(M*inverse)[%d][%d]' % (k // n, k % n), P[k], alg.ONE if k % (n + 1) == 0 else alg.ZERO, ok)
    for i in range(n):
        s = alg.ZERO
        for k in range(n):
            s = alg.add(s, alg.mul(M[i * n + k], x[k]))
        C.eq('(M*solution)[%d]' % i, s, v[i], ok)
    C.eq('determinant', dt, det(M, n), ok)
    C.eq('determinant (singular)', dt, alg.ZERO, bad)
    R = flow.closed(ctx.spec, 'spec_%s_singular' % name, api.API[name], **kw)
    C.eq('return value', A.ret, R.ret)
    return C.done()


def lcg(seed):
    while True:
        seed = (seed * 1103515245 + 12345) % 2 ** 31
        yield seed >> 12


def system(n, k):
    """the k-th fixed matrix of order n; its determinant"""
    from fractions import Fraction
    g = lcg(7919 * n + 104729 * k + 1)
    for _ in range(20):
        next(g)
    p = list(range(n))
    if k % 3:
        for i in range(n - 1, 0, -1):
            j = next(g) % (i + 1)
            p[i], p[j] = p[j], p[i]
    M = [[Fraction(next(g) % 401 - 200, 100 if k % 3 == 1 else 400) for _ in range(n)] for _ in range(n)]
    for i in range(n):
        M[i][p[i]] += (Fraction(next(g) % 300 + 200, 100) if k % 3 != 1 else 0) * (-1) ** (next(g) % 2)
    if k in SINGULAR:
        z = next(g) % n
        for i in range(n):
            if k == SINGULAR[0]:
                M[i][z] = Fraction(0)
            else:
                M[z][i] = Fraction(0)
    A, d = [r[:] for r in M], Fraction(1)
    for i in range(n):
        q = next((r for r in range(i, n) if A[r][i]), None)
        if q is None:
            d = Fraction(0)
            break
        if q != i:
            A[q], A[i] = A[i], A[q]
            d = -d
        d *= A[i][i]
        for r in range(i + 1, n):
            f = A[r][i] / A[i][i]
            A[r] = [x - f * y for x, y in zip(A[r], A[i])]
    return [float(x) for r in M for x in r], float(d)


SINGULAR = (100, 101)


def bigsys(ctx, name, n, k):
    """larger orders: a fixed matrix, every right-hand side.  With elimination folded over the matrix the solution is a
    linear form in the right-hand side: its matrix must be the inverse that is returned, and invert the given matrix"""
    alg.reset(1e-9)
    m, dt = system(n, k)
    sz = api.SIZE[api.API[name].params[1].elem]
    A = flow.closed(ctx.mod, ctx.res[name], api.API[name], observer=flow.Track(), consts={0: n}, sizes={1: n * n, 2: n, 4: n},
                    values={1: [alg.const(x) for x in m]})
    fs, cnt, label = [], 0, 'n=%d, matrix %d' % (n, k)

    def need(what, got, want):
        nonlocal cnt
        cnt += 1
        if isinstance(got, alg.Poly) and all(abs(c) < 1e-7 for c in alg.sub(got, want).t.values()):
            return
        und = not isinstance(got, alg.Poly) or all(abs(c) < 1e-5 for c in alg.sub(got, want).t.values())
        fs.append(tag(ctx, name, label, dict(status='undecided' if und else 'violation', output=what, region='', at=None,
                                             code=alg.show(got, 200), rule=alg.show(want, 200))))
    need('return value', A.ret, alg.const(int(k in SINGULAR)))
    need('determinant', flow.cell(A, 3, 0) if abs(dt) < 1 else alg.div(flow.cell(A, 3, 0), alg.const(abs(dt))), alg.const(dt if abs(dt) < 1 else dt / abs(dt)))
    if k not in SINGULAR and A.ret is alg.ZERO:
        v = [flow.initial_cell(A, ('p2', sz * i), sz) for i in range(n)]
        I, x = flow.vec(A, 1, n * n), flow.vec(A, 2, n)
        P = matmul([alg.const(z) for z in m], I, n)
        for i in range(n * n):
            need('(M*inverse)[%d][%d]' % (i // n, i % n), P[i], alg.ONE if i % (n + 1) == 0 else alg.ZERO)
        for i in range(n):
            t = alg.ZERO
            for j in range(n):
                t = alg.add(t, alg.mul(alg.const(m[i * n + j]), x[j]))
            need('(M*solution)[%d]' % i, t, v[i])
    return verdict(fs, cnt, '%s(%s)' % (name, label))


def version(ctx):
    """the version number and the version text, both folded to constants, denote the same major.minor-release"""
    import re
    alg.reset()
    A = flow.closed(ctx.mod, ctx.res['veri'], api.API['veri'])
    B = flow.closed(ctx.mod, ctx.res['vers'], api.API['vers'])
    s = B.B.string_at(B.ret) if isinstance(B.ret, alg.Ptr) else None
    if not (isinstance(A.ret, alg.Poly) and A.ret.is_const()) or s is None:
        raise alg.Unsupported('version is not a compile-time constant')
    num = int(A.ret.cval())
    want = '%d.%d-%d' % (num // 1000000, num // 1000 % 1000, num % 1000)
    fs = []
    if s.rstrip('\0') != want:
        fs.append(tag(ctx, 'vers', '', dict(status='violation', output='return value', region='always', code=repr(s), rule=repr(want))))
    return verdict(fs, 2, 'veri()=%d vers()=%r' % (num, s))


RULES.update(linsys=linsys, version=version)


# ---------------------------------------------------------------- state and effects
EXEMPT = ('random', 'gresid', 'wait')


def state(ctx):
    if getattr(ctx, '_state', None) is None:
        from . import effects
        ctx._state = effects.StaticState(ctx.mod)
    return ctx._state


def loc(I):
    return '%s:%s' % (rel(I.file), I.line) if I is not None and I.file else '?'


def short(name):
    import subprocess
    return subprocess.run(['c++filt', name], stdout=subprocess.PIPE, text=True).stdout.strip()


def purity(ctx, name):
    """no function reachable from the routine writes (other than under a language-level once guard with argument-free
    contents) or reads-after-writes static storage, and every external function it calls is pure"""
    from . import effects
    S = state(ctx)
    root = ctx.res[name]
    seen = S.E.reach(root)
    fs, n = [], 0
    why = []

    def bad(I, out, code, fn):
        fs.append(dict(status='violation', function=name, output=out, region='call path ' + ' -> '.join(
            short(x).split('(')[0] for x in S.E.path(seen, fn)), code=code, rule='results depend only on the arguments', at=loc(I)))
    for fn in seen:
        if fn in ctx.mod.funcs:
            n += 1
            continue
        n += 1
        w = effects.extern_effect(fn)
        if fn == '__errno_location':
            w = 'errno'
        if w == '?':
            why.append('effects of external function %s unknown' % fn)
        elif w:
            caller, I = seen[fn]
            bad(I, 'call of ' + fn, '%s calls %s, which consults %s' % (short(caller), fn, w), caller)
    for f, I, g in S.writes:
        if f.name in seen and relevant(S, f, g, seen):
            n += 1
            bad(I, 'static ' + short(g), 'writes static storage %s' % short(g), f.name)
    for f, I, g in S.reads:
        if f.name in seen and g in S.mutable and not any(x.get('output') == 'static ' + short(g) for x in fs) and relevant(S, f, g, seen):
            bad(I, 'static ' + short(g), 'reads static storage %s, which is written at %s' % (
                short(g), ', '.join(sorted({loc(J) for h, J, k in S.writes if k == g})[:3])), f.name)
    for f, I, g in S.initwrites:
        if f.name in seen:
            n += 1
            r = S.depends_on_argument(f, I, g) if S.in_once(f, I) else None
            if r and not any(x.get('output') == 'static ' + short(g) for x in fs):
                bad(I, 'static ' + short(g), 'the one-time initialisation of %s depends on parameter %s' % (short(g), r), f.name)
    v = verdict(fs, n, '%s: %d functions reachable' % (name, len(seen)))
    if why and not fs:
        v['status'] = 'undecided'
        v['findings'] = [dict(status='undecided', function=name, output='external calls', region='; '.join(why))]
    return v


def relevant(S, f, g, seen):
    """a helper shared with exempt routines only counts for callers that can hand it this object"""
    from .effects import consts_in
    return any(g in consts_in(i.a, []) for h in seen if h in S.mod.funcs for i in S.mod.funcs[h].instrs())


def threads(ctx):
    """in the multi-threaded configuration every static object with a write outside one-time initialisation is
    thread-local, and no library function calls a C-library function with hidden shared state"""
    import shutil
    import tempfile
    import re as _re
    from . import build, effects
    tmp = tempfile.mkdtemp(prefix='slats.')
    try:
        src = os.path.join(build.REPO, 'src')
        shutil.copytree(src, os.path.join(tmp, 'src'))
        hit = False
        for fn in os.listdir(os.path.join(tmp, 'src')):
            p = os.path.join(tmp, 'src', fn)
            if fn.endswith('.h') and os.path.isfile(p):
                t = open(p).read()
                t2, k = _re.subn(r'(?m)^(\s*#\s*define\s+SLALIB_THREAD_SAFE)\b.*$', r'\1 1', t)
                if k:
                    hit = True
                    open(p, 'w').write(t2)
        mod = build.load_library(flags=() if hit else ('-DSLALIB_THREAD_SAFE=1',), root=tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    S = effects.StaticState(mod)
    fs, n, tls = [], 0, set()
    for g in mod.globals.values():
        n += 1
    for f, I, g in S.writes:
        n += 1
        if mod.globals[g].tls:
            tls.add(g)
        elif not any(x['output'] == 'static ' + short(g) for x in fs):
            fs.append(dict(status='violation', function=short(f.name).split('(')[0], output='static ' + short(g), region='every call',
                           code='writes static storage %s shared by all threads' % short(g),
                           rule='mutable state is thread-local when SLALIB_THREAD_SAFE is set', at=loc(I)))
    for f in mod.funcs.values():
        for c, I in S.E.calls.get(f.name, ()):
            if c in effects.IMPURE and effects.IMPURE[c] in ('hidden generator state', 'static buffer', 'static parser state', 'the locale',
                                                            'signgam') or c in ('setenv', 'putenv', 'getenv', 'localtime', 'strerror'):
                fs.append(dict(status='violation', function=short(f.name).split('(')[0], output='call of ' + c, region='every call', code='calls ' + c,
                               rule='no hidden state shared between threads', at=loc(I)))
    cm = open(os.path.join(build.REPO, 'src', 'CMakeLists.txt')).read() + open(os.path.join(build.REPO, 'CMakeLists.txt')).read()
    if 'no-threadsafe-statics' in cm and S.initwrites:
        f, I, g = S.initwrites[0]
        fs.append(dict(status='violation', function=short(f.name), output='static ' + short(g), region='first call', code='-fno-threadsafe-statics',
                       rule='one-time initialisation is synchronised', at=loc(I)))
    return verdict(fs, n, '%d functions, %d globals, %d thread-local mutable objects: %s; %d one-time-initialised' % (
        len(mod.funcs), len(mod.globals), len(tls), ', '.join(sorted(short(x) for x in tls)), len({g for _, _, g in S.initwrites})))


RULES.update(purity=purity, threads=threads)


# ---------------------------------------------------------------- memory rules
INOUT = {'pcd': (1, 2), 'unpcd': (1, 2), 'preces': (3,), 'combn': (2,), 'permut': (1,), 'dmat': (1, 2), 'smat': (1, 2), 'svd': (4,)}
SCRATCH = {'dmat': (4,), 'smat': (4,), 'svdsol': (8,), 'svdcov': (5,), 'svd': (7,)}


# conversions to int whose result is an int: the arguments for which it can hold the value
BIGGEST = {n: (-1e7, 1e7) for n in ('cd2tf', 'dd2tf', 'cr2af', 'dr2af', 'cr2tf', 'dr2tf')}
BIGGEST['djcal'] = (-2395520.0, 1e9)


class MemObs(flow.Track):
    """collects the conditions under which a memory access is bad"""
    def __init__(self):
        super().__init__()
        self.bad = {}             # (kind, file, line, text) -> list of conditions
        self.stores = self.loads = self.branches = self.divs = self.convs = 0

    def note(self, kind, I, what, cond):
        if cond is alg.ZERO:
            return
        k = (kind, loc(I), what)
        l = self.bad.setdefault(k, [])
        if len(l) < 4 and not any(c is cond for c in l):
            l.append(cond)

    def access(self, B, I, p, s, size, write):
        for l in {x.id: x for x in alg.leaves(p)}.values():
            cond = s.pc if l is p else alg.band(s.pc, alg.lift(lambda z, l=l: alg.ONE if z is l else alg.ZERO, p))
            if cond is alg.ZERO:
                continue
            if not isinstance(l, alg.Ptr):
                if isinstance(l, Undef_):
                    if 'not reached' not in str(l.why if hasattr(l, 'why') else ''):
                        self.note('oob', I, '%s through an undefined address' % ('write' if write else 'read'), cond)
                continue
            o = B.objs.get(l.obj)
            if o is None:
                continue
            if write and o.readonly:
                self.note('const', I, 'write to constant input %s' % l.obj, cond)
            if write and o.kind in ('glob', 'str') and (o.kind == 'str' or (o.glob is not None and o.glob.const)):
                self.note('const', I, 'write to constant %s' % l.obj, cond)
            lim = o.size if o.kind != 'str' else len(o.glob) + 1
            if lim is None:
                continue
            if l.off.is_const():
                c = l.off.cval()
                if not (0 <= c and c + size <= lim):
                    self.note('extent' if write else 'oob', I, '%s at byte %s of %s (%d bytes)' % (
                        'write' if write else 'read', c, l.obj, lim), cond)
            else:
                out = alg.bor(alg.cmp('lt', l.off, alg.ZERO), alg.cmp('gt', l.off, alg.const(lim - size)))
                self.note('extent' if write else 'oob', I, '%s outside %s (%d bytes)' % ('write' if write else 'read', l.obj, lim),
                          alg.band(cond, out))

    def on_store(self, B, I, p, v, s):
        super().on_store(B, I, p, v, s)
        self.stores += 1
        if I is not None and I.op == 'store':
            self.access(B, I, p, s, B.access, True)

    def on_load(self, B, I, p, v, s):
        self.loads += 1
        if I is not None and I.op == 'load':
            self.access(B, I, p, s, B.access, False)

    def on_abort(self, B, I, s):
        self.note('oob', I, 'assertion fails', s.pc)

    def on_undef_branch(self, B, I, u, s):
        self.branches += 1
        for x in u:
            self.note('undef', I, 'decision on an undefined value (%s)' % (getattr(x, 'why', x),),
                      s.pc)

    def on_fptosi(self, B, I, v, s):
        super().on_fptosi(B, I, v, s)
        self.convs += 1
        lo, hi = (-2.0 ** (I.ty.a - 1), 2.0 ** (I.ty.a - 1)) if I.op == 'fptosi' else (0.0, 2.0 ** I.ty.a)
        try:
            out = alg.bor(alg.cmp('le', v, alg.const(lo - 1)), alg.cmp('ge', v, alg.const(hi)))
        except alg.Unsupported:
            return
        self.note('conv', I, 'value outside the range of the integer it is converted to', alg.band(s.pc, out))

    def on_div(self, B, I, a, b, s):
        self.divs += 1
        if I.ty.k == 'int':
            self.note('div', I, 'integer division by zero', alg.band(s.pc, alg.cmp('eq', b, alg.ZERO)))


Undef_ = alg.Undef


def memory(ctx, name, label, kinds):
    """every load and store met while building the routine's value graph stays inside its object, never goes through an
    undefined address, never writes a constant input; no output or decision takes an uninitialised value; no integer is
    divided by zero"""
    alg.reset(cases.tolerance(name), cases.abbreviate(name))
    if kinds == ('conv',) and name in BIGGEST:
        alg.RANGES['p1'] = BIGGEST[name]
    ob = MemObs()
    A = closed_case(ctx, name, label, observer=ob)
    fs = []
    n = ob.stores if 'const' in kinds else ob.convs + (ob.loads + ob.branches + ob.divs if 'div' in kinds else 0)
    for (kind, at, what), conds in sorted(ob.bad.items()):
        if kind not in kinds:
            continue
        n += 1
        for c in conds:
            r = flow.judge(what, alg.ite(c, alg.ONE, alg.ZERO), alg.ZERO, A.pre, at=at, rule='never')
            if r:
                r['code'] = what
                if A.B.looprecs and any(alg._atoms[a].kind == 'in' and str(alg._atoms[a].args[0]).startswith('loop') for a in alg.atoms_of(c)):
                    r['status'] = 'undecided'      # the state of the loop may not be reachable
                fs.append(tag(ctx, name, label, r, at=at))
                break
    if 'undef' in kinds:
        outs = [('return value', A.ret)] if A.ret is not None and not isinstance(A.ret, tuple) else []
        for key, (v, sz) in sorted(A.cells.items(), key=repr):
            i = int(key[0][1:]) if key[0][1:].isdigit() else None
            if i is None or i in SCRATCH.get(name, ()):
                continue
            outs.append((flow.where(A, key), v))
        care = alg.band(A.pre, A.pc)
        if name in ('dmat', 'smat'):
            care = alg.band(care, alg.bnot(alg.truth(A.ret)))
        for nm, v in outs:
            n += 1
            if not alg.undefs_of(v):
                continue
            ind = alg.lift(lambda x: alg.ONE if isinstance(x, alg.Undef) else alg.ZERO, v)
            r = flow.judge(nm, ind, alg.ZERO, care, rule='a defined value')
            if r:
                r['code'] = 'an uninitialised or out-of-bounds value: ' + ', '.join(sorted({str(getattr(u, 'why', u)) for u in alg.undefs_of(v)}))[:200]
                fs.append(tag(ctx, name, label, r))
    return verdict(fs, n, '%s(%s): %d stores, %d loads' % (name, label, ob.stores, ob.loads))


def outputs(ctx, name, label):
    """each output component is left exactly as passed on precisely the documented failure region, and everywhere else
    its value contains no trace of what any output object held before the call"""
    alg.reset(cases.tolerance(name), cases.abbreviate(name))
    A = closed_case(ctx, name, label, observer=flow.Track())
    R = closed_case(ctx, name, label, spec=True)
    rt = api.API[name]
    pure = [i for i in rt.outs if i not in INOUT.get(name, ()) and i not in SCRATCH.get(name, ())]
    objs = {'p%d' % i for i in pure}

    def is_entry(at):
        return at.kind == 'in' and str(at.args[0]).replace('+', '[').split('[')[0] in objs
    C = Collect(ctx, name, label)
    care = alg.band(A.pre, R.pc)
    keys = sorted((k for k in set(A.cells) | set(R.cells) if k[0] in objs), key=repr)
    for key in keys:
        sz = (A.cells.get(key) or R.cells.get(key))[1]
        ia, ir = flow.initial_cell(A, key, sz), flow.initial_cell(R, key, sz)
        a = A.cells[key][0] if key in A.cells else ia
        b = R.cells[key][0] if key in R.cells else ir
        ta = alg.lift(lambda x: alg.ONE if x is ia else alg.ZERO, a)
        tb = alg.lift(lambda x: alg.ONE if x is ir else alg.ZERO, b)
        nm = flow.where(A, key)
        C.eq('%s left untouched' % nm, ta, tb, care, rule='untouched exactly where the interface documents that nothing is returned')
        if any(is_entry(t) for t in alg.atoms_of(a)):
            stale = alg.lift(lambda x: alg.ONE if x is not ia and isinstance(x, alg.Poly) and any(is_entry(t) for t in alg.atoms_of(x)) else alg.ZERO, a)
            C.eq('%s depends on its previous contents' % nm, stale, alg.ZERO, care, rule='never')
    # decisions and the returned value
    vals = [('return value', A.ret)] if A.ret is not None and not isinstance(A.ret, tuple) else []
    for nm, v in vals:
        if any(is_entry(t) for t in alg.atoms_of(v)):
            C.fs.append(tag(ctx, name, label, dict(status='undecided', output=nm, region='mentions previous contents of an output')))
        C.n += 1
    return C.done()


RULES.update(memory=memory, outputs=outputs)


# ---------------------------------------------------------------- aliasing
def alias_pairs(name):
    """(output index, input index) of same-shaped objects"""
    r = api.API[name]
    return [(o, i) for o in r.outs for i, p in enumerate(r.params)
            if i < o and p.const and p.kind in ('obj', 'array') and r.params[o].kind == p.kind and r.params[o].elem == p.elem
            and r.params[o].count == p.count]


def alias(ctx, name, label, o, i):
    """the closed forms of all outputs are the same when output object o is the very object passed as input i"""
    alg.reset(cases.tolerance(name), cases.abbreviate(name))
    A = closed_case(ctx, name, label)
    B = closed_case(ctx, name, label, alias={o: i}, observer=flow.Track())
    C = Collect(ctx, name, label)
    rt = api.API[name]
    C.eq('(returning)', A.pc, B.pc, A.pre)
    if A.ret is not None and not isinstance(A.ret, tuple):
        C.eq('return value', B.ret, A.ret, A.pre)
    for k in rt.outs:
        if k in SCRATCH.get(name, ()):
            continue
        esz = api.SIZE[rt.params[k].elem]
        n = len([1 for key in A.cells if key[0] == 'p%d' % k])
        cnt = rt.params[k].count or n
        for e in range(cnt):
            va = flow.cell(A, k, e)
            if k == o and ('p%d' % k, e * esz) not in A.cells:
                continue              # not written at all: keeps the input's value when shared
            vb = flow.cell(B, k, e)
            if k == o:
                ini = flow.initial_cell(A, ('p%d' % k, e * esz), esz)
                inp = flow.initial_cell(A, ('p%d' % i, e * esz), esz)
                va = alg.lift(lambda x: inp if x is ini else x, va)
            nm = '%s%s shared with %s' % (rt.params[k].name, '' if cnt == 1 else '[%d]' % e, rt.params[i].name) if k == o else \
                '%s%s when %s is %s' % (rt.params[k].name, '' if cnt == 1 else '[%d]' % e, rt.params[o].name, rt.params[i].name)
            C.eq(nm, vb, va, A.pre, rule='as with distinct objects: ' + alg.show(va, 200))
    return C.done()


RULES.update(alias=alias)


# ---------------------------------------------------------------- termination
def terminates(ctx, name):
    """every natural loop in every library function reachable from the routine has a header variable that moves
    monotonically towards a loop-invariant limit tested on every way round (or the routine's value graph, built for all
    arguments, closes); there is no recursion"""
    from . import loops
    E = call_graph(ctx)
    root = ctx.res[name]
    seen = E.reach(root)
    fs, n, left = [], 0, []
    for fn in sorted(seen):
        f = ctx.mod.funcs.get(fn)
        if f is None or not any(i.file and in_repo(i.file) for i in f.instrs()):
            continue
        n += 1
        for c, I in E.calls.get(fn, ()):
            if I.op in ('call', 'invoke') and I.a[0] == ('glob', c) and c in ctx.mod.funcs and (c == fn or fn in E.reach(c)):
                fs.append(dict(status='violation', function=name, output='recursion', region='call path ' + ' -> '.join(
                    short(x).split('(')[0] for x in E.path(seen, fn)), code='%s calls itself through %s' % (short(fn), short(c)),
                    rule='no recursion', at=loc(I)))
                break
        A = loops.Analysis(f, ctx.mod)
        for L in A.loops:
            if not in_repo(L.file):
                continue
            n += 1
            r, why = A.decide(L)
            if r != 'ok':
                left.append((f, L, r, why))
        if A.cfg.irreducible():
            left.append((f, None, 'unknown', 'irreducible control flow'))
    if left:
        bad = graph_fails(ctx, name)
        for f, L, r, why in left:
            if not bad:
                continue
            at = '%s:%s' % (rel(L.file), L.line) if L is not None else loc(next(f.instrs()))
            fs.append(dict(status='violation' if r == 'bad' else 'undecided', function=name, output='loop in ' + short(f.name).split('(')[0],
                           region=why, code=why + ('; ' + bad if bad else ''), rule='a bounded number of iterations', at=at))
    return verdict(fs, n, '%s: %d functions' % (name, len(seen)))


def call_graph(ctx):
    if getattr(ctx, '_cg', None) is None:
        from . import effects
        from collections import defaultdict
        E = effects.Effects.__new__(effects.Effects)
        E.mod, E.calls = ctx.mod, defaultdict(list)
        E.edges()
        ctx._cg = E
    return ctx._cg


def in_repo(p):
    from . import build
    return '/usr/' not in p and '/include/c++/' not in p and '/lib/' not in p


def graph_fails(ctx, name):
    """None when the value graph of every case of the routine closes, otherwise why not"""
    from . import table
    if name in table.NOGRAPH:
        return 'no value graph for this routine'
    import signal

    def stop(*a):
        raise alg.Unsupported('no closed form within 120 s')
    signal.signal(signal.SIGALRM, stop)
    signal.alarm(120)
    try:
        for label, _ in cases.cases(name, ctx.tier):
            alg.reset(cases.tolerance(name), cases.abbreviate(name))
            closed_case(ctx, name, label)
    except (alg.Unsupported, alg.Blowup, RecursionError, MemoryError) as e:
        return '%s: %s' % (type(e).__name__, e)
    finally:
        signal.alarm(0)
    return None


RULES.update(terminates=terminates)


# ---------------------------------------------------------------- precision
def live_instrs(f):
    """instructions whose results can reach memory, a call, a decision or the return value"""
    from .effects import regs_in
    defs = {i.res: i for i in f.instrs() if i.res}
    local = {i.res for i in f.instrs() if i.op == 'alloca'}
    loaded = set()
    for i in f.instrs():
        if i.op == 'load' or i.op == 'getelementptr' or i.op in ('call', 'invoke') or i.op == 'ret' or i.op == 'phi' or i.op == 'select':
            loaded.update(regs_in(i.a, []))
        elif i.op == 'store':
            loaded.update(regs_in(i.a[0], []))
    st = [i for i in f.instrs() if i.op in ('ret', 'br', 'switch') or
          i.op in ('call', 'invoke') and not (i.a[0][0] == 'glob' and i.a[0][1].startswith('llvm.dbg')) or
          i.op == 'store' and not (i.a[1][0] == 'reg' and i.a[1][1] in local and i.a[1][1] not in loaded)]
    # calls of pure functions count only through their results
    from .effects import extern_effect
    st = [i for i in st if not (i.op == 'call' and i.res and i.a[0][0] == 'glob' and i.ty.k in ('float', 'double') and
                                not any(a[0].k == 'ptr' for a in i.a[1]))]
    seen = {id(i) for i in st}
    out = list(st)
    while st:
        i = st.pop()
        for r in regs_in(i.a, []):
            d = defs.get(r)
            if d is not None and id(d) not in seen:
                seen.add(id(d))
                st.append(d)
                out.append(d)
    return out


def float_literal(c):
    """the shortest single-precision decimal when a double constant is a rounded single-precision value"""
    import struct
    try:
        f = struct.unpack('f', struct.pack('f', c))[0]
    except (OverflowError, struct.error):
        return None
    if f != c or c == int(c) if abs(c) < 1e15 else True:
        return None
    digits = repr(float(c)).split('e')[0].replace('-', '').replace('.', '').strip('0')
    if len(digits) < 10:
        return None
    for k in range(1, 10):
        s = '%.*g' % (k, c)
        if struct.unpack('f', struct.pack('f', float(s)))[0] == c:
            return s if k <= 8 else None
    return None


def doubles_in(op, acc):
    if isinstance(op, tuple):
        if len(op) == 2 and op[0] == 'fp' and isinstance(op[1], (int, float)):
            acc.append(op[1])
            return acc
        for x in op:
            doubles_in(x, acc)
    elif isinstance(op, list):
        for x in op:
            doubles_in(x, acc)
    return acc


def precision(ctx, name):
    """no live instruction in any function reachable from the routine produces a single-precision value, and no constant
    or table entry it uses is a value rounded to single precision"""
    from .effects import consts_in
    E = call_graph(ctx)
    seen = E.reach(ctx.res[name])
    fs, n, tables = [], 0, set()

    def bad(I, fn, out, code):
        if len(fs) < 6:
            fs.append(dict(status='violation', function=name, output=out, region='call path ' + ' -> '.join(
                short(x).split('(')[0] for x in E.path(seen, fn)), code=code, rule='double precision throughout', at=loc(I)))
    for fn in sorted(seen):
        f = ctx.mod.funcs.get(fn)
        if f is None:
            continue
        for I in live_instrs(f):
            n += 1
            t = I.ty
            if I.res and t is not None and (t.k == 'float' or t.k == 'vector' and 'float' in repr(t)) and I.op != 'alloca' and I.op not in ('fcmp',):
                bad(I, fn, 'single-precision %s' % I.op, '%s yields a single-precision value' % {'fptrunc': 'a conversion'}.get(I.op, I.op))
            if I.op == 'call' and I.a[0][0] == 'glob' and I.a[0][1].startswith('llvm.dbg'):
                continue
            for c in doubles_in(I.a, []):
                s = float_literal(c)
                if s:
                    bad(I, fn, 'constant %r' % c, 'constant %r is %s rounded to single precision' % (c, s))
            for g in consts_in(I.a, []):
                if g in ctx.mod.globals and g not in tables:
                    tables.add(g)
                    vals = doubles_in(ctx.mod.globals[g].init, []) if ctx.mod.globals[g].init is not None else []
                    n += len(vals)
                    rnd = [(c, float_literal(c)) for c in vals if float_literal(c)]
                    if rnd and 'float' not in repr(ctx.mod.globals[g].ty):
                        bad(I, fn, 'table %s' % short(g), 'entry %r of %s is %s rounded to single precision' % (rnd[0][0], short(g), rnd[0][1]))
    return verdict(fs, n, '%s: %d functions, %d tables' % (name, len(seen), len(tables)))


RULES.update(precision=precision)


# ---------------------------------------------------------------- siblings
SIBLINGS = [tuple(x.split('/')) for x in (
    'caf2r/daf2r ctf2d/dtf2d ctf2r/dtf2r cd2tf/dd2tf cr2af/dr2af cr2tf/dr2tf range/drange ranorm/dranrm av2m/dav2m cc2s/dcc2s cs2c/dcs2c '
    'euler/deuler imxv/dimxv m2av/dm2av mxm/dmxm mxv/dmxv vdv/dvdv vn/dvn vxv/dvxv bear/dbear pav/dpav e2h/de2h h2e/dh2e sep/dsep sepv/dsepv '
    'cc62s/dc62s cs2c6/ds2c6 s2tp/ds2tp tp2s/dtp2s v2tp/dv2tp tp2v/dtp2v tps2c/dtps2c tpv2c/dtpv2c smat/dmat').split()]


def sibling(ctx, single, label, double):
    """the closed forms of the single- and the double-precision routine, over the same symbolic arguments, agree in every
    output and in the returned value, with coefficients compared to single precision"""
    alg.reset(2e-6)
    A = closed_case(ctx, single, label, observer=flow.Track())
    B = closed_case(ctx, double, label)
    C = Collect(ctx, single, label)
    C.eq('(returning)', A.pc, B.pc, A.pre)
    if A.ret is not None and not isinstance(A.ret, tuple):
        C.eq('return value', A.ret, B.ret, A.pre)
    ra = api.API[single]
    for k in ra.outs:
        if k in SCRATCH.get(single, ()):
            continue
        p = ra.params[k]
        if p.kind == 'conv':
            for off in (0, 4, 8, 12, 16):
                key = ('p%d' % k, off)
                a = A.cells.get(key, (None,))[0]
                b = B.cells.get(key, (None,))[0]
                if a is None and b is None:
                    continue
                sz = (A.cells.get(key) or B.cells.get(key))[1]
                C.eq(flow.where(A, key), flow.initial_cell(A, key, sz) if a is None else a,
                     flow.initial_cell(B, key, sz) if b is None else b, A.pre)
            continue
        n = p.count or case_of(ctx, single, label).get('sizes', {}).get(k, 1)
        for e in range(n):
            C.eq('%s[%d]' % (p.name, e), flow.cell(A, k, e), flow.cell(B, k, e), A.pre)
    return C.done()


RULES.update(sibling=sibling)


# ---------------------------------------------------------------- documented ranges
TURN, HALF, QUARTER, SIGNED = (0.0, 2.0), (0.0, 1.0), (-0.5, 0.5), (-1.0, 1.0)      # in units of pi
RANGES = {
    'range': {'r': SIGNED}, 'drange': {'r': SIGNED}, 'ranorm': {'r': TURN}, 'dranrm': {'r': TURN}, 'gmst': {'r': TURN}, 'gmsta': {'r': TURN},
    'cc2s': {(1, 0): SIGNED, (1, 1): QUARTER}, 'dcc2s': {(1, 0): SIGNED, (1, 1): QUARTER},
    'cc62s': {(1, 0): SIGNED, (1, 1): QUARTER}, 'dc62s': {(1, 0): SIGNED, (1, 1): QUARTER},
    'e2h': {(2, 0): TURN, (3, 0): QUARTER}, 'de2h': {(2, 0): TURN, (3, 0): QUARTER},
    'h2e': {(3, 0): SIGNED, (3, 1): QUARTER}, 'dh2e': {(3, 0): SIGNED, (3, 1): QUARTER},
    'tp2s': {(3, 0): TURN, (3, 1): QUARTER}, 'dtp2s': {(3, 0): TURN, (3, 1): QUARTER},
    'tps2c': {(3, 0): TURN, (4, 0): TURN}, 'dtps2c': {(3, 0): TURN, (4, 0): TURN},
    'eqgal': {(1, 0): TURN, (1, 1): QUARTER}, 'galeq': {(1, 0): TURN, (1, 1): QUARTER},
    'galsup': {(1, 0): TURN, (1, 1): QUARTER}, 'supgal': {(1, 0): TURN, (1, 1): QUARTER},
    'eg50': {(1, 0): TURN, (1, 1): QUARTER}, 'ge50': {(1, 0): TURN, (1, 1): QUARTER},
    'eqecl': {(2, 0): TURN, (2, 1): QUARTER}, 'ecleq': {(2, 0): TURN, (2, 1): QUARTER},
    'pm': {(6, 0): TURN, (6, 1): QUARTER}, 'addet': {(2, 0): TURN, (2, 1): QUARTER}, 'subet': {(2, 0): TURN, (2, 1): QUARTER},
    'preces': {(3, 0): TURN, (3, 1): QUARTER},
    'sep': {'r': HALF}, 'dsep': {'r': HALF}, 'sepv': {'r': HALF}, 'dsepv': {'r': HALF},
    'bear': {'r': SIGNED}, 'dbear': {'r': SIGNED}, 'pav': {'r': SIGNED}, 'dpav': {'r': SIGNED},
    'zd': {'r': HALF}, 'pa': {'r': SIGNED}, 'altaz': {(2, 0): TURN, (2, 3): QUARTER, (2, 6): SIGNED},
    'polmo': {(4, 0): SIGNED, (5, 0): QUARTER, (6, 0): SIGNED}, 'pda2h': {(3, 0): SIGNED, (5, 0): SIGNED}, 'pdq2h': {(3, 0): SIGNED, (5, 0): SIGNED},
    'dcmpf': {(6, 0): SIGNED},
}


def ranges(ctx, name, label):
    """on no path does an angle leave the interval documented for it (interval evaluation of every leaf of its closed
    form under the conditions that select the leaf)"""
    alg.reset(max(cases.tolerance(name), 4e-12))
    A = closed_case(ctx, name, label, observer=flow.Track())
    C = Collect(ctx, name, label)
    rt = api.API[name]
    slack = 1e-5 if rt.precision == 'float' else 1e-9
    for k, (lo, hi) in RANGES[name].items():
        if k == 'r':
            v, nm, ini = A.ret, 'return value', None
        else:
            p = rt.params[k[0]]
            v = flow.cell(A, k[0], k[1])
            ini = flow.initial_cell(A, ('p%d' % k[0], k[1] * api.SIZE[p.elem]), api.SIZE[p.elem])
            nm = p.name if p.count == 1 else '%s[%d]' % (p.name, k[1])
        if name == 'preces':
            v = alg.lift(lambda x: alg.ZERO if isinstance(x, alg.Poly) and x.is_const() and x.cval() == -99 else x, v)
        v = alg.lift(lambda x: alg.ZERO if x is ini or isinstance(x, alg.Undef) else x, v)
        out = alg.bor(alg.cmp('lt', v, alg.const(lo * alg.PI - slack)), alg.cmp('gt', v, alg.const(hi * alg.PI + slack)))
        care = alg.band(A.pre, A.pc)
        if (name, k) == ('altaz', (2, 6)):
            # a star exactly in the zenith (only attainable at zero hour angle) reports pi - ha
            ha = flow.initial_cell(A, ('p0', 0), 8)
            care = alg.band(care, alg.band(alg.cmp('ge', ha, alg.ZERO), alg.cmp('le', ha, alg.const(alg.PI))))
        C.eq('%s outside [%g pi, %g pi]' % (nm, lo, hi), alg.ite(out, alg.ONE, alg.ZERO), alg.ZERO, care, rule='never')
    return C.done()


RULES.update(ranges=ranges, bigsys=bigsys)


class Lossy(flow.Track):
    """inverse cosines and sines, and square roots of differences, with the path condition they are evaluated under"""
    def __init__(self):
        super().__init__()
        self.seen = []

    def difference(self, B, I):
        defs = {i.res: i for i in B.mod.funcs[I.fn].instrs() if i.res}
        todo, done = [x for x in args_of(I)], set()
        while todo:
            x = todo.pop()
            if x in done or x not in defs:
                continue
            done.add(x)
            d = defs[x]
            if d.op == 'fsub':
                return True
            if d.op in ('select', 'phi', 'fpext', 'fptrunc') or d.op == 'call' and ('max' in d.text or 'min' in d.text):
                todo += args_of(d)
        return False

    def on_fn(self, B, I, name, vals, s):
        super().on_fn(B, I, name, vals, s)
        if name in ('asin', 'acos'):
            self.seen.append((s.pc, name, vals[0], I))
        elif name == 'sqrt' and self.difference(B, I):
            self.seen.append((s.pc, name, vals[0], I))


def args_of(I):
    return re.findall(r'%[\w.$-]+', I.text.split(' = ', 1)[-1])


def conditioning(ctx, name, label):
    """no path takes an inverse cosine or sine of a value that reaches +-1, or the square root of a difference that
    reaches zero: there half of the digits of the angle are lost, although the formula is right in exact arithmetic"""
    alg.reset(max(cases.tolerance(name), 4e-12))
    L = Lossy()
    A = closed_case(ctx, name, label, observer=L)
    C = Collect(ctx, name, label)
    for pc, fn, v, I in L.seen:
        bad = alg.cmp('lt', v, alg.const(1e-6)) if fn == 'sqrt' else alg.cmp('gt', alg.vabs(v), alg.const(0.999))
        C.eq('%s where it loses half of the digits' % fn, alg.ite(alg.band(pc, bad), alg.ONE, alg.ZERO), alg.ZERO,
             A.pre, rule='never')
        for f in C.fs[-1:]:
            f['at'] = '%s:%s' % (rel(I.file), I.line) if I.file else f['at']
    C.n += 1
    return C.done()


RULES.update(conditioning=conditioning)


def access(ctx, cls, _=None):
    """every getter of a value type returns exactly what the setter of that field (under any of its names) stored, setters
    leave all other fields alone, and constructors and array views show the same fields in the documented order"""
    from . import access as acc
    alg.reset(1e-15)
    fs, n = [], 0
    for title, f, I in acc.narrowing(cls):
        fs.append(dict(status='violation', function=cls, case=title, output=title, at='src/slalib.h:%s' % I.line, region='every value',
                       code=I.text.strip(), rule='double-precision fields are not passed through single precision'))
    for title, g, a, b, A in acc.forms(cls):
        n += 1
        f = flow.judge('%s after %s' % (g, title), a, b, alg.band(A.pre, A.pc))
        if A.pc is not alg.ONE:
            f = f or flow.judge('(returning) %s' % title, A.pc, alg.ONE, A.pre)
        if f:
            f.update(function=cls, case=title, at='src/slalib.h')
            fs.append(f)
    return verdict(fs, n, cls)


RULES.update(access=access)


def history(ctx, name, _=None):
    """the deviates returned by a history of calls from the initial state equal the documented transformation of one stream"""
    from . import rng
    alg.reset(1e-7)
    fs, n = [], 0
    for title, g, a, b, A in rng.forms(name):
        n += 1
        f = flow.judge('%s, %s' % (g, title), a, b, alg.band(A[1].pre, alg.band(A[0].pc, A[1].pc)))
        if f:
            f.update(function=name, case=title, at='src/%s.cc' % name)
            fs.append(f)
    if name == 'gresid':
        try:
            for title, a, b, care in rng.rejection(rng.compile(name)):
                n += 1
                f = flow.judge(title, a, b, care)
                if f:
                    f.update(function=name, case='any number of pairs before', at='src/%s.cc' % name)
                    fs.append(f)
        except alg.Unsupported as e:
            n += 1
            fs.append(dict(status='undecided', function=name, case='any number of pairs before', output='condition to try another pair',
                           why=str(e)))
    return verdict(fs, n, name)


RULES.update(history=history)


def factor(ctx, part, m, n, np):
    """singular value decomposition: exact-arithmetic identities of the bidiagonalisation and of one turn of the iteration"""
    from . import factor as fac
    fn = ctx.res['svd'] if hasattr(ctx, 'res') else None
    S = fac.Shape(m, n, np)
    fname = fn or [x for x in ctx.mod.funcs if '3svdEiiii' in x][0]
    hdr = fac.capped(ctx.mod, fname)
    if len(hdr) != 1 and part != 'wrongshape':
        return verdict([dict(status='undecided', function='svd', output=part, why='%d iteration loops found' % len(hdr))], 1, 'svd')
    seen, bad = getattr(fac, part)(ctx.mod, fname, S, {(fname, h) for h in hdr}, ctx.tier)
    fs = [dict(status='violation', function='svd', case='%d x %d, %s' % (m, n, where), output=what, at='src/svd.cc',
               region='elements non-zero where %s' % (p,), code='off by %s' % e[0], rule=what,
               valuation={str(k): v for k, v in list(e[1].items())[:12]}) for what, where, p, e in bad]
    if not seen:
        fs.append(dict(status='undecided', function='svd', output=part, why='no valuation of the closed forms'))
    return verdict(fs[:6], max(1, seen), 'svd')


RULES.update(factor=factor)


def svdmem(ctx, part, m, n, np, kinds):
    """bounds, constness and initialisation of every access of the singular value decomposition: up to the iteration for an
    arbitrary matrix, and in one turn of the iteration from an arbitrary state"""
    from . import factor as fac
    fname = ctx.res['svd']
    S = fac.Shape(m, n, np)
    hdr = {(fname, h) for h in fac.capped(ctx.mod, fname)}
    if len(hdr) != 1:
        return verdict([dict(status='undecided', function='svd', output=part, why='%d iteration loops found' % len(hdr))], 1, 'svd')
    ob = MemObs()
    if part == 'reduction':
        given = {(i, j): 1 for i in range(m) for j in range(n)} if m * n > 6 else None
        fac.reduced(ctx.mod, fname, S, hdr, given, observer=ob)
    else:
        fac.turns(ctx.mod, fname, S, hdr, observer=ob)
    fs, k = [], ob.stores if 'const' in kinds else ob.loads + ob.branches + ob.divs + ob.convs
    for (kind, at, what), conds in sorted(ob.bad.items()):
        if kind not in kinds:
            continue
        for c in conds:
            r = flow.judge(what, alg.ite(c, alg.ONE, alg.ZERO), alg.ZERO, alg.ONE, at=at, rule='never')
            if r:
                r.update(code=what, function='svd', case='%d x %d, %s' % (m, n, part), at=at)
                fs.append(r)
                break
    return verdict(fs, k, 'svd')


RULES.update(svdmem=svdmem)

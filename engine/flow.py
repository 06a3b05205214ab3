"""Closed forms of API routines: sets up the abstract caller (one symbolic object per argument), runs the gated value
graph builder and collects every output."""
import time
from . import alg, gvg, api, witness
from .alg import Poly, Ptr, Undef, Node


class Track(gvg.Observer):
    """remembers where each output cell was last written, for diagnostics"""
    def __init__(self):
        self.last = {}
        self.nstore = 0
        self.fdivs = []

    def on_fdiv(self, B, I, a, b, s):
        if not (isinstance(b, Poly) and b.is_const() and b.cval()):
            self.fdivs.append((s.pc, b))

    def on_fn(self, B, I, name, vals, s):
        if name in ('sqrt', 'asin', 'acos', 'pow'):
            self.fdivs.append((s.pc, (name, vals)))

    def on_store(self, B, I, p, v, s):
        self.nstore += 1
        if I is not None:
            for l in alg.leaves(p):
                if isinstance(l, Ptr) and l.off.is_const():
                    self.last[(l.obj, l.off.cval())] = (I.file, I.line)


class Closed:
    """closed form of one routine: ret, cells {(param, byte offset): (value, size)}"""
    def __init__(self):
        self.ret = None
        self.cells = {}
        self.pc = alg.ONE
        self.args = []
        self.B = None
        self.pobj = {}

    def arg(self, i):
        return self.args[i]


def closed(mod, fname, routine, consts=None, sizes=None, alias=None, pre=None, observer=None, maxsym=None, opaque=None,
           values=None, summarise=None, looptag='loop', loopcells=None, loopstop=False):
    """closed form of `fname` for all argument values.
    consts: {param index: constant (number or C string)}; sizes: {param index: element count} for caller-sized arrays;
    alias: {param index: param index whose object is passed instead}; pre: f(Closed) -> precondition on the arguments;
    values: {param index: abstract value or list of abstract cell values}"""
    consts, sizes, alias, values = consts or {}, sizes or {}, alias or {}, values or {}
    f = mod.funcs[fname]
    B = gvg.Builder(mod, observer=observer, maxsym=maxsym, opaque=opaque, summarise=summarise)
    B.looptag = looptag
    B.loopcells = loopcells or {}
    B.loopstop = loopstop
    C = Closed()
    C.B = B
    st = gvg.State(alg.ONE, {}, {})
    if mod.ctors:
        B.prelude(st)
    args = []
    for i, p in enumerate(routine.params):
        n = 'p%d' % i
        if i in alias:
            args.append(args[alias[i]])
            C.pobj[i] = C.pobj[alias[i]]
            continue
        if p.kind == 'scalar':
            if i in values:
                v = values[i]
            elif i in consts:
                v = alg.const(consts[i])
            else:
                rng = {'bool': (0, 1), 'char': (-128, 127)}.get(p.elem)
                v = alg.var(n, isint=p.elem not in ('double', 'float'), rng=rng)
            args.append(v)
        elif p.kind == 'byval':
            args.append(tuple(alg.var('%s[%d]' % (n, k)) for k in range(p.count)))
        elif p.kind == 'string':
            if i in consts:
                B.newobj(n, 'str', glob=consts[i])
                args.append(alg.ptr(n, alg.ZERO))
            else:
                args.append(B.param(n, readonly=True))
        else:
            cnt = sizes.get(i, p.count)
            size = None if cnt is None else cnt * api.SIZE[p.elem]
            a = B.param(n, size=size, readonly=p.const)
            B.objs[n].glob = p.kind in ('date', 'conv', 'obsrec')
            B.objs[n].intcells = p.elem == 'int'
            args.append(a)
            C.pobj[i] = n
            if i in values:
                esz = api.SIZE[p.elem]
                for k, v in enumerate(values[i]):
                    st.mem[(n, k * esz)] = (v, esz)
    C.args = args
    C.init = dict(st.mem)
    C.routine = routine
    if pre is not None:
        st.pc = pre(C)
    C.pre = st.pc
    C.ret, ns = B.run(fname, args, st)
    C.live = ns is not None
    if ns is not None:
        C.pc = ns.pc
        for k, v in ns.mem.items():
            o = B.objs.get(k[0])
            if k[1] == 'lazy':
                if o is not None and o.kind == 'param':
                    expand_lazy(B, k[0], ns, C, routine)
                continue
            if o is not None and o.kind == 'param':
                C.cells[k] = v
    else:
        C.pc = alg.ZERO
    C.mem = ns.mem if ns is not None else {}
    return C


def expand_lazy(B, obj, ns, C, routine):
    """cells of a parameter object filled by a block copy"""
    from .irparse import Ty
    i = int(obj[1:].split('[')[0]) if obj[1:].isdigit() else None
    if i is None:
        return
    esz = api.SIZE.get(routine.params[i].elem, 8)
    if esz not in (4, 8):
        esz = 8
    ty = Ty('double') if esz == 8 else Ty('float')
    for lo, hi, so, slo in ns.mem[(obj, 'lazy')]:
        for off in range(lo, hi, esz):
            if (obj, off) not in ns.mem:
                C.cells[(obj, off)] = (B.initial(obj, off, ty, ns.mem), esz)


def initial_cell(C, key, size):
    """value a parameter cell had on entry"""
    from .irparse import Ty
    c = C.init.get(key)
    if c is not None:
        return c[0]
    obj = key[0]
    elem = C.routine.params[int(obj[1:])].elem if obj[1:].isdigit() else 'double'
    isint = elem in ('int', 'bool', 'char') or (elem == 'Date' and key[1] < 16) or elem == 'ConversionResult'
    ty = Ty('int', size * 8) if isint else {8: Ty('double'), 4: Ty('float'), 1: Ty('int', 8)}[size]
    if elem == 'Observatory' and key[1] < 16:
        ty = Ty('ptr')
    return C.B.initial_base(obj, key[1], ty)


def cell(C, i, k):
    """k-th element of output parameter i after the call"""
    p = C.routine.params[i]
    esz = api.SIZE[p.elem]
    key = (C.pobj[i], k * esz)
    c = C.cells.get(key)
    return c[0] if c is not None else initial_cell(C, key, esz)


def vec(C, i, n=None):
    n = n or C.routine.params[i].count
    return [cell(C, i, k) for k in range(n)]


def where(C, key):
    r = C.routine.params
    i = int(key[0][1:]) if key[0][1:].isdigit() else None
    nm = r[i].name if i is not None else key[0]
    el = r[i].elem if i is not None else None
    if el in ('Date', 'ConversionResult', 'Observatory'):
        return '%s (byte %d)' % (nm, key[1])
    if i is not None and r[i].count == 1:
        return nm
    return '%s[%d]' % (nm, key[1] // api.SIZE.get(el, 8))


def judge(name, a, b, care=None, at=None, hints=None, tol=None, rule=None, divs=None):
    """None when the two values have the same normal form wherever care holds; otherwise a finding whose status is
    'violation' (with a distinguishing valuation) or 'undecided'"""
    if a is b:
        return None
    d = w = None
    try:
        d = alg.equal(a, b, care, limit=30000)
        if d is None:
            return None
    except alg.Blowup:
        # too large to compare form by form: still look for a distinguishing valuation
        w = witness.sample(a, b, care, tol=tol, hints=hints)
        if w is None:
            d = alg.equal(a, b, care)
            if d is None:
                return None
    if d is None:
        d = (w[0], a, b)
    else:
        w = witness.confirm(a, b, care, hints=hints, tol=tol, divs=divs)
    if w is None:
        w = degenerate(a, b, care, divs, tol)
    if w is None:
        return dict(status='undecided', output=name, region=alg.show_region(d[0]), code=alg.show(d[1], 300),
                    rule=rule or alg.show(d[2], 300), at=at)
    return dict(status='violation', output=name, region=alg.show_region(w[0] or d[0]), code=alg.show(d[1], 300),
                rule=rule or alg.show(d[2], 300), at=at,
                valuation={k: (v if isinstance(v, str) else float('%.17g' % v)) for k, v in w[1].items()},
                code_value=w[2], rule_value=w[3])


def degenerate(a, b, care, divs, tol):
    """the two forms on special configurations of the inputs (some zero, some equal), where a quotient may vanish"""
    ins = sorted((x for x in alg.atoms_of(a) | alg.atoms_of(b) if x.kind == 'in'), key=lambda x: x.id)
    if not 1 <= len(ins) <= 8:
        return None
    t0 = time.time()
    ones = [{x.id: alg.ZERO} for x in ins]
    for i, x in enumerate(ins):
        for y in ins[:i]:
            if x.isint == y.isint:
                ones += [{x.id: alg.patom(y)}, {x.id: alg.neg(alg.patom(y))}]
    for x in ins:
        if not x.isint:
            ones += [{x.id: alg.const(v)} for v in (witness.PI / 2, -witness.PI / 2, witness.PI)]
    confs = ones + [{**m, **k} for m in ones for k in ones if set(m).isdisjoint(k) and
                    all(v is alg.ZERO for v in k.values())]
    for mp in confs:
        if time.time() - t0 > 20:
            return None
        try:
            a2, b2 = alg.subst(a, mp), alg.subst(b, mp)
            c2 = alg.subst(care, mp) if care is not None else alg.ONE
            if a2 is b2 or c2 is alg.ZERO:
                continue
            if c2 is alg.ONE and a2 is alg.DIV0() and b2 is not a2 and isinstance(b2, Poly) and \
                    any(alg.subst(q, mp) is alg.ZERO and alg.subst(pc, mp) is alg.ONE for pc, q in divs or () if not isinstance(q, tuple)):
                return (), {alg._atoms[i].args[0]: alg.show(v, 40) for i, v in mp.items()}, 'division by zero', alg.show(b2, 80)
        except (alg.Blowup, alg.Unsupported):
            continue
    return None


def outputs(A, R):
    """pairs (name, value in A, value in R, where) of everything observable"""
    yield '(returning)', A.pc, R.pc, None
    if R.ret is not None and A.ret is not None:
        if isinstance(A.ret, tuple):
            for i, (a, b) in enumerate(zip(A.ret, R.ret)):
                yield 'return[%d]' % i, a, b, None
        else:
            yield 'return value', A.ret, R.ret, None
    for key in sorted(set(A.cells) | set(R.cells), key=repr):
        a, b = A.cells.get(key), R.cells.get(key)
        if a is None:
            a = (initial_cell(A, key, b[1]), b[1])
        if b is None:
            b = (initial_cell(R, key, a[1]), a[1])
        if any(isinstance(x, Ptr) for v in (a[0], b[0]) for x in alg.leaves(v)):
            a, b = (texts(A.B, a[0]), a[1]), (texts(R.B, b[0]), b[1])
        loc = getattr(A.B.obs, 'last', {}).get(key)
        yield where(A, key), a[0], b[0], ('%s:%s' % loc if loc else None)


def texts(B, v):
    """pointers to constant strings, as the strings"""
    def f(x):
        s = B.string_at(x) if isinstance(x, Ptr) else None
        return x if s is None else alg.patom(alg.atom('text', s))
    return alg.lift(f, v)


def compare(A, R, care=None, skip=(), hints=None, tol=None):
    """(number of outputs compared, findings)"""
    out, n, t0 = [], 0, time.time()
    care = A.pre if care is None else alg.band(A.pre, care)
    if A.live != R.live:
        return 1, [dict(status='violation', output='(return)', region='always', at=None,
                        code='never returns' if not A.live else 'returns',
                        rule='never returns' if not R.live else 'returns')]
    for nm, a, b, loc in outputs(A, R):
        if nm in skip:
            continue
        n += 1
        if out and time.time() - t0 > 60 and any(f['status'] == 'violation' for f in out):
            break
        r = judge(nm, a, b, care, loc, hints, tol, divs=getattr(A.B.obs, 'fdivs', None))
        if r:
            out.append(r)
    return n, out


def linear_system(B, name, vals, st):
    """stands for the linear-equations routine (itself decided by its own property): solution, inverse, determinant and
    the singular flag become atoms of the system handed over"""
    from .irparse import Ty
    n = vals[0].cval()
    D, I32 = Ty('double'), Ty('int', 32)
    at = lambda p, k: B.gep_const(p, 8 * k)
    m = [B.load(at(vals[1], k), D, st) for k in range(n * n)]
    v = [B.load(at(vals[2], k), D, st) for k in range(n)]
    mk = lambda kind, i, args, isint=False: alg.lift(
        lambda *z: alg.undef('linear system of undefined data') if any(isinstance(q, Undef) for q in z)
        else alg.patom(alg.atom(kind, i, n, *z, isint=isint)), *args)
    sing = mk('linsing', 0, m, True)
    for k in range(n):
        B.store(at(vals[2], k), mk('linx', k, m + v), D, st)
    for k in range(n * n):
        B.store(at(vals[1], k), mk('lininv', k, m), D, st)
    B.store(vals[3], alg.cond_ite(alg.truth(sing), alg.ZERO, mk('lindet', 0, m)), D, st)
    for k in range(n):
        B.store(B.gep_const(vals[4], 4 * k), alg.undef('pivot workspace'), I32, st)
    return sing

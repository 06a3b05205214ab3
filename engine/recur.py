"""Loops that do not fold, compared as recurrences.

Both sides are given as systems  x := init;  while (cont(x)) x := next(x)  nested in one another, over symbols for the
variables the loop carries.  A one-to-one correspondence of the symbols under which all initial values, successors,
conditions and final results have the same normal form proves (by induction over the turns) that the two routines agree
for every number of turns.  An equation that fails is reported only when the two systems correspond in shape and the
failing equation has a distinguishing valuation."""
import itertools
import time
from . import alg, flow, witness
from .alg import Poly, Undef


class Var:
    __slots__ = ('atom', 'init', 'next', 'isint', 'name')


class Loop:
    __slots__ = ('depth', 'pc', 'cont', 'vars', 'at')


class Side:
    """the recurrences of one closed form, constant starting points of integers moved to zero, dead symbols removed"""
    def __init__(self, C, outs, shift):
        recs = sorted(C.B.looprecs, key=lambda r: r.id)
        mp = {}
        for r in recs:
            for v in r.vars:
                a = only(v.atom)
                if shift and a.isint and isinstance(v.init, Poly) and v.init.is_const() and v.init.cval():
                    mp[a.id] = alg.add(v.atom, v.init)
        memo = {}

        def S(x):
            if not mp or x is None or isinstance(x, tuple):
                return x
            return alg.subst(x, mp, memo)
        self.loops = []
        for r in recs:
            L = Loop()
            L.depth, L.pc, L.cont, L.vars = len(r.path), S(r.pc), S(r.cont), []
            L.at = r.header
            for v in r.vars:
                w = Var()
                a = only(v.atom)
                w.atom, w.isint, w.name = a, a.isint, v.key
                sh = a.id in mp
                w.init = alg.ZERO if sh else S(v.init)
                w.next = alg.sub(S(v.next), v.init) if sh else S(v.next)
                L.vars.append(w)
            self.loops.append(L)
        self.outs = [S(x) for x in outs]
        self.pc = S(C.pc)
        # symbols that matter
        byid = {w.atom.id: w for L in self.loops for w in L.vars}
        live, todo = set(), []
        for x in self.outs + [self.pc] + [L.cont for L in self.loops] + [L.pc for L in self.loops]:
            todo += [a.id for a in alg.atoms_of(x)]
        while todo:
            i = todo.pop()
            if i in live or i not in byid:
                continue
            live.add(i)
            for x in (byid[i].init, byid[i].next):
                todo += [a.id for a in alg.atoms_of(x)]
        for L in self.loops:
            L.vars = [w for w in L.vars if w.atom.id in live]


def only(p):
    (m, c), = p.t.items()
    return alg._atoms[m[0][0]]


def shape(S):
    return [(L.depth, sum(w.isint for w in L.vars), sum(not w.isint for w in L.vars)) for L in S.loops]


def same(a, b, care=None):
    if a is b:
        return True
    if alg.ABBR and alg.size(a) + alg.size(b) > 12:
        return False
    try:
        return alg.equal(a, b, care, limit=20000) is None
    except alg.Blowup:
        return False


def equations(A, R, mp):
    memo = {}

    def S(x):
        return alg.subst(x, mp, memo)
    inv = {r.atom.id: None for L in R.loops for r in L.vars}
    for la, lr in zip(A.loops, R.loops):
        pair = {only(mp[r.atom.id]).id: r for r in lr.vars}
        yield 'condition for entering', la, None, la.pc, S(lr.pc), None, 0
        for w in la.vars:
            r = pair[w.atom.id]
            yield 'initial value', la, w, w.init, S(r.init), la.pc, w.isint
            yield 'value after one turn', la, w, w.next, S(r.next), la.cont, w.isint
        yield 'condition for another turn', la, None, la.cont, S(lr.cont), None, 0


def bijections(la, lr, mp):
    """assignments of R's symbols to A's, the likely ones first"""
    memo = {}
    groups = []
    for t in (True, False):
        xs, ys = [w for w in la.vars if w.isint == t], [w for w in lr.vars if w.isint == t]
        if not xs:
            continue
        eq = {}
        for i, x in enumerate(xs):
            for j, y in enumerate(ys):
                s = 0
                if same(x.init, alg.subst(y.init, mp, memo), la.pc):
                    s += 4
                n = [n.split('.')[0].strip('%') if isinstance(n, str) else n[0].split('.')[-1].split('#')[0] for n in (x.name, y.name)]
                s += n[0] == n[1]
                eq[i, j] = s
        if len(xs) > 6:
            perms = [tuple(range(len(xs)))]
        else:
            perms = sorted(itertools.permutations(range(len(xs))), key=lambda p: -sum(eq[i, p[i]] for i in range(len(xs))))
        groups.append([[(ys[p[i]], xs[i]) for i in range(len(xs))] for p in perms[:8]])
    for combo in itertools.islice(itertools.product(*groups), 8):
        yield {y.atom.id: alg.patom(x.atom) for g in combo for y, x in g}


def search(A, R, k, mp, best, budget):
    if k == len(A.loops):
        bad = 0
        for what, la, w, x, y, care, _ in equations(A, R, mp):
            if not same(x, y, care):
                bad += 1
        if best[0] is None or bad < best[0]:
            best[0], best[1] = bad, dict(mp)
        budget[0] -= 1
        return
    for b in bijections(A.loops[k], R.loops[k], mp):
        search(A, R, k + 1, {**mp, **b}, best, budget)
        if best[0] == 0 or budget[0] <= 0:
            return


def orbits(A):
    """values an integer symbol can take, where its successor closes over constants"""
    orb = {}
    for _ in range(2):
        for L in A.loops:
            for w in L.vars:
                if not w.isint:
                    continue
                seen, todo = [], [l.cval() for l in alg.leaves(w.init) if isinstance(l, Poly) and l.is_const()]
                if not todo:
                    orb[w.atom.id] = None
                    continue
                while todo and len(seen) < 64:
                    v = todo.pop(0)
                    if v in seen:
                        continue
                    seen.append(v)
                    others = [a for a in alg.atoms_of(w.next) if a.kind == 'in' and a.id != w.atom.id and orb.get(a.id)]
                    for vals in itertools.islice(itertools.product(*[orb[a.id][:6] for a in others]), 64):
                        mp = {a.id: alg.const(z) for a, z in zip(others, vals)}
                        mp[w.atom.id] = alg.const(v)
                        c = alg.subst(L.cont, mp)
                        if c is alg.ZERO:
                            continue
                        for l in alg.leaves(alg.ite(c, alg.subst(w.next, mp), alg.const(v))):
                            if isinstance(l, Poly) and l.is_const():
                                todo.append(l.cval())
                if todo:
                    seen = seen[:24] + [s * 2 ** k for k in range(6, 21) for s in (1, -1) if s * seen[-1] > 0]
                orb[w.atom.id] = seen
    return orb


def compare(A, R, care=None):
    """(obligations, findings) for closed forms with summarised loops"""
    pairs = list(flow.outputs(A, R))
    if A.live != R.live:
        return 1, [dict(status='undecided', output='(return)', region='', at=None, code='', rule='')]
    best = [None, None]
    for shift in (False, True):
        SA = Side(A, [x for _, x, _, _ in pairs], shift)
        SR = Side(R, [y for _, _, y, _ in pairs], shift)
        if shape(SA) != shape(SR):
            break
        b = [None, None]
        search(SA, SR, 0, {}, b, [2 if alg.ABBR else 64])
        if best[0] is None or b[0] < best[0]:
            best, keep = b, (SA, SR)
        if best[0] == 0:
            break
    if shape(SA) != shape(SR):
        return 1, [dict(status='undecided', output='loops', region='', at=None, code=str(shape(SA)), rule=str(shape(SR)),
                        why='the loops do not correspond to those of the reference definition')]
    SA, SR = keep
    mp = best[1]
    memo = {}
    S = lambda x: alg.subst(x, mp, memo)
    n, out = 0, []
    hints = {}
    orb, other = orbits(SA), orbits(SR)
    for i, vs in other.items():
        j = only(mp[i]).id if i in mp else None
        if vs and orb.get(j):
            orb[j] = orb[j] + [v for v in vs if v not in orb[j]]
    for L in SA.loops:
        for w in L.vars:
            hints[w.atom.args[0]] = ('orbit', orb[w.atom.id]) if orb.get(w.atom.id) else ('near', w.init)
    intbad, mixed = 0, {}
    divs = getattr(A.B.obs, 'fdivs', None)
    todo = []
    for what, la, w, x, y, c, isint in equations(SA, SR, mp):
        n += 1
        if same(x, y, c):
            continue
        if what == 'initial value' and forgotten(la, w, y):
            continue
        intbad += bool(isint)
        mixed[la.at] = mixed.get(la.at, 0) + (what == 'initial value')
        nm = '%s of the loop at %s' % (what, la.at) if w is None else '%s of %s in the loop at %s' % (
            what, w.name if isinstance(w.name, str) else w.name[0], la.at)
        todo.append((nm, x, y, c, None))
    for (nm, _, _, loc), x, y in zip(pairs, SA.outs, SR.outs):
        n += 1
        c = alg.band(A.pre, SA.pc) if nm != '(returning)' else A.pre
        if not same(x, S(y), c):
            todo.append((nm, x, S(y), c, loc))
    t0 = time.time()
    free = len({a.args[0] for t in todo for a in alg.atoms_of(t[1]) if a.kind == 'in' and a.args[0] not in hints})
    for nm, x, y, c, loc in todo:
        if alg.ABBR:
            w, valid = witness.steadily(x, y, None, hints)
            small = alg.size(x) + alg.size(y) < 150 and time.time() - t0 < 10 and free <= 3
            if w:
                w, valid = witness.steadily(x, y, c, hints)
            if not w and small and nm.startswith(('condition', 'return')):
                w = witness.confirm(x, y, c, hints=hints)
                if w and any(lo and hi and lo[0] == hi[0] for q, lo, hi in w[0] or ()):
                    w = None
            f = dict(status='undecided' if w is None else 'violation', output=nm, region='', code=alg.show(x, 300), rule=alg.show(y, 300), at=loc)
            if w:
                f.update(valuation={k: (v if isinstance(v, str) else float('%.17g' % v)) for k, v in w[1].items()},
                         code_value=w[2], rule_value=w[3])
            elif valid >= 16:
                continue
        else:
            f = flow.judge(nm, x, y, c, loc, hints, divs=divs)
        if f:
            if (intbad > 1 or max(mixed.values(), default=0) > 1) and f['status'] == 'violation':
                f['status'] = 'undecided'
                f['why'] = 'the variables of the loops do not correspond'
            out.append(f)
    return n, out


def forgotten(L, w, init):
    """the differing initial value has no effect: the first turn surely happens, and does not use it"""
    mp = {v.atom.id: v.init for v in L.vars if v is not w and isinstance(v.init, Poly) and v.init.is_const()}
    for i in (w.init, init):
        if isinstance(i, Undef) or alg.subst(L.cont, {**mp, w.atom.id: i}) is not alg.ONE:
            return False
    for v in L.vars:
        if w.atom in alg.atoms_of(alg.subst(v.next, mp)):
            return False
    return True

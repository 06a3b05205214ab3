"""The public interface (frozen from the documented header): for every routine its parameters, their element types and
extents, and which of them are inputs.  Routines are located in the analysed module by qualified name."""
import os
import re
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
STRUCTS = {'Spherical': 2, 'SphericalPos': 3, 'VectorPV': 6, 'SphericalPV': 6, 'FitCoeffs': 6, 'AltazMount': 9}


class Param:
    def __init__(self, name, elem, count, const, ref, kind):
        # kind: scalar | obj | array (caller-sized) | string | date | conv | obsrec
        self.name, self.elem, self.count, self.const, self.ref, self.kind = name, elem, count, const, ref, kind

    def __repr__(self):
        return '%s%s %s x%s%s' % ('const ' if self.const else '', self.kind, self.elem, self.count, ' ' + self.name)


class Routine:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params

    @property
    def outs(self):
        return [i for i, p in enumerate(self.params) if p.kind != 'scalar' and not p.const]

    @property
    def precision(self):
        ts = {p.elem for p in self.params} | {self.ret}
        return 'float' if 'float' in ts and 'double' not in ts else 'double' if 'double' in ts else 'int'


def parse(decl):
    m = re.match(r'(const char\*|\w+) (\w+)\((.*)\);$', decl)
    ret, name, ps = m.groups()
    out = []
    depth, cur, parts = 0, '', []
    for ch in ps:
        if ch in '<(':
            depth += 1
        elif ch in '>)':
            depth -= 1
        if ch == ',' and not depth:
            parts.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        parts.append(cur)
    for p in parts:
        p = p.strip()
        const = p.startswith('const ')
        q = p[6:] if const else p
        m = re.match(r'(\w+)(?:<(\w+)>)?\s*([*&]?)\s*(\w+)$', q)
        t, targ, ptr, pn = m.groups()
        if t == 'Vector':
            out.append(Param(pn, targ, 3, const, False, 'obj'))
        elif t == 'Matrix':
            out.append(Param(pn, targ, 9, const, False, 'obj'))
        elif t == 'XYSamples':
            out.append(Param(pn, 'double', None, const, False, 'array'))
        elif t in STRUCTS:
            el = targ or 'double'
            if ptr == '&':
                out.append(Param(pn, el, STRUCTS[t], const, True, 'obj'))
            else:
                out.append(Param(pn, el, STRUCTS[t], True, False, 'byval'))
        elif t == 'Date':
            out.append(Param(pn, 'Date', 1, const, True, 'date'))
        elif t == 'ConversionResult':
            out.append(Param(pn, 'ConversionResult', 1, const, True, 'conv'))
        elif t == 'Observatory':
            out.append(Param(pn, 'Observatory', 1, const, True, 'obsrec'))
        elif ptr == '*' and t == 'char':
            out.append(Param(pn, 'char', None, const, False, 'string'))
        elif ptr == '*':
            out.append(Param(pn, t, None, const, False, 'array'))
        elif ptr == '&':
            out.append(Param(pn, t, 1, const, True, 'obj'))
        else:
            out.append(Param(pn, t, 1, True, False, 'scalar'))
    return Routine(name, ret, out)


SIZE = {'double': 8, 'float': 4, 'int': 4, 'bool': 1, 'char': 1, 'Date': 24, 'ConversionResult': 20, 'Observatory': 40}


def load():
    return {r.name: r for r in (parse(l.strip()) for l in open(os.path.join(HERE, '..', 'spec', 'api.txt')) if l.strip())}


API = load()


def resolve(mod):
    """routine name -> mangled name of its definition in mod"""
    names = [n for n in mod.funcs if n.startswith('_ZN3sla')]
    dem = subprocess.run(['c++filt'] + names, stdout=subprocess.PIPE, text=True).stdout.split('\n')
    out = {}
    for n, d in zip(names, dem):
        m = re.match(r'(?:\[abi:\w+\])?(?:[\w<>*& ]+ )?sla::(\w+)\((.*)\)(?: const)?$', d)
        if not m or m.group(1) not in API:
            continue
        r = API[m.group(1)]
        f = mod.funcs[n]
        if 'internal' in f.linkage:
            continue
        nargs = 0 if not m.group(2) else len(split_args(m.group(2)))
        if nargs != len(r.params):
            continue
        if r.name == 'dmat' and 'linkonce_odr' in f.linkage:
            continue
        out[r.name] = n
    return out


def split_args(s):
    d, out, cur = 0, [], ''
    for ch in s:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and not d:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    out.append(cur)
    return out

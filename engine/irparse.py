"""Parser for the textual LLVM IR that clang emits for the library (typed front-end output, SSA form).

Only the subset of the IR language clang-18 produces for this code base is understood; anything else raises
IRError, which the drivers turn into an 'analysis error' (never into a pass or a violation).
"""
import re
import struct


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'b', 'size', 'align', 'offs')

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b
        self.offs = None
        if k == 'int':
            n = (a + 7) // 8
            p = 1
            while p < n:
                p *= 2
            self.size, self.align = p, min(p, 16)
        elif k == 'float':
            self.size = self.align = 4
        elif k == 'double':
            self.size = self.align = 8
        elif k == 'x86_fp80':
            self.size = self.align = 16
        elif k == 'ptr':
            self.size = self.align = 8
        elif k == 'array':
            self.size, self.align = a * b.size, b.align
        elif k == 'vector':
            self.size = a * b.size
            self.align = self.size
        elif k == 'struct':
            off, al, offs = 0, 1, []
            packed = b
            for t in a:
                if not packed:
                    off = (off + t.align - 1) // t.align * t.align
                    al = max(al, t.align)
                offs.append(off)
                off += t.size
            self.offs = offs
            self.size, self.align = (off + al - 1) // al * al, al
        else:
            self.size, self.align = 0, 1

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.a
        if self.k in ('array', 'vector'):
            return '[%d x %r]' % (self.a, self.b)
        if self.k == 'struct':
            return '{%s}' % ', '.join(map(repr, self.a))
        return self.k

    @property
    def is_fp(self):
        return self.k in ('float', 'double', 'x86_fp80')


TOK = re.compile(r'''
    (?P<ws>\s+)
  | (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<local>%(?:"[^"]*"|[-\w.$]+))
  | (?P<glob>@(?:"[^"]*"|[-\w.$]+))
  | (?P<meta>!(?:[-\w.]+|"[^"]*")?)
  | (?P<attrs>\#\d+)
  | (?P<comdat>\$[-\w.]+)
  | (?P<num>-?\d+\.\d+(?:[eE][-+]?\d+)?|0x[KLMH]?[0-9A-Fa-f]+|-?\d+)
  | (?P<word>[A-Za-z_][\w.]*)
  | (?P<dots>\.\.\.)
  | (?P<punct>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError('cannot tokenise: %r' % s[i:i + 60])
        if m.lastgroup != 'ws':
            out.append((m.lastgroup, m.group()))
        i = m.end()
    return out


PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'readonly', 'writeonly',
               'readnone', 'returned', 'immarg', 'nofree', 'swiftself', 'nest', 'dead_on_unwind', 'writable',
               'allocptr', 'allocalign'}
PAREN_ATTRS = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'range'}
FASTMATH = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'nuw', 'nsw', 'exact', 'inbounds',
            'disjoint', 'nneg', 'samesign'}


class P:
    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise IRError('expected %r, got %r in %s' % (s, self.peek(), ' '.join(x[1] for x in self.t)[:200]))

    def type(self):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'word':
            if re.fullmatch(r'i\d+', v):
                t = Ty('int', int(v[1:]))
            elif v in ('float', 'double', 'void', 'ptr', 'label', 'metadata', 'x86_fp80', 'token', 'opaque'):
                t = Ty(v)
            else:
                raise IRError('unknown type %s' % v)
        elif k == 'local':
            t = self.mod.named_type(v)
        elif v == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = Ty('array', n, e)
        elif v == '<':
            if self.peek() == '{':
                self.next()
                t = Ty('struct', self._list('}'), True)
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = Ty('vector', n, e)
        elif v == '{':
            t = Ty('struct', self._list('}'), False)
        else:
            raise IRError('bad type token %r' % v)
        while True:
            if self.peek() == '(' and t.k in ('void', 'int', 'float', 'double', 'ptr') and \
                    self._is_fnty():
                self.next()
                while not self.accept(')'):
                    self.next()
                t = Ty('fn', t)
            elif self.peek() == '*':
                self.next()
                t = Ty('ptr')
            else:
                return t

    def _is_fnty(self):
        # a '(' directly after a type in a call means a function type such as 'i32 (...)'
        j, depth = self.i, 0
        while j < len(self.t):
            v = self.t[j][1]
            if v == '(':
                depth += 1
            elif v == ')':
                depth -= 1
                if depth == 0:
                    return j + 1 < len(self.t) and self.t[j + 1][0] in ('glob', 'local')
            j += 1
        return False

    def _list(self, end):
        r = []
        while not self.accept(end):
            r.append(self.type())
            self.accept(',')
        return r

    def skip_attrs(self):
        info = {}
        while True:
            v = self.peek()
            if v in PARAM_ATTRS:
                info[v] = True
                self.i += 1
            elif v in PAREN_ATTRS:
                self.i += 1
                if self.peek() == '(':
                    self.i += 1
                    d, acc = 1, []
                    while d:
                        w = self.next()
                        if w == '(':
                            d += 1
                        elif w == ')':
                            d -= 1
                        if d:
                            acc.append(w)
                    info[v] = acc
                else:
                    info[v] = [self.next()]
            elif self.kind() == 'attrs':
                self.i += 1
            elif self.kind() == 'str' and v[0] == '"':
                self.i += 1
                if self.accept('='):
                    self.i += 1
            else:
                return info

    def const(self, ty):
        """value of type ty: returns an operand tuple"""
        k, v = self.t[self.i]
        self.i += 1
        if k == 'local':
            return ('reg', v)
        if k == 'glob':
            return ('glob', v[1:].strip('"'))
        if k == 'num':
            if ty.k in ('float', 'double'):
                if v.startswith('0x'):
                    return ('fp', struct.unpack('>d', bytes.fromhex(v[2:].zfill(16)))[0])
                return ('fp', float(v))
            if ty.k == 'x86_fp80':
                h = int(v[3:], 16)
                sign = -1 if h >> 79 else 1
                e = (h >> 64) & 0x7fff
                m = h & ((1 << 64) - 1)
                return ('fp', sign * float(m) * 2.0 ** (e - 16383 - 63) if m else 0.0)
            return ('int', int(v, 16) if v.startswith('0x') else int(v))
        if v in ('true', 'false'):
            return ('int', 1 if v == 'true' else 0)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if v == 'none':
            return ('undef',)
        if k == 'str' and v[0] == 'c':
            s, out, i = v[2:-1], [], 0
            while i < len(s):
                if s[i] == '\\':
                    out.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    out.append(ord(s[i]))
                    i += 1
            return ('agg', [(Ty('int', 8), ('int', c)) for c in out])
        if v in ('[', '{', '<'):
            if v == '<' and self.peek() == '{':
                self.next()
                r = self._aggbody('}')
                self.expect('>')
                return ('agg', r)
            return ('agg', self._aggbody({'[': ']', '{': '}', '<': '>'}[v]))
        if v == 'getelementptr':
            while self.peek() in FASTMATH:
                self.next()
            if self.peek() == 'inrange':
                self.next()
            self.expect('(')
            st = self.type()
            self.expect(',')
            ops = []
            while True:
                self.accept('inrange')
                t = self.type()
                ops.append((t, self.const(t)))
                if self.accept(')'):
                    break
                self.expect(',')
            return ('cgep', st, ops)
        if v in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            t = self.type()
            c = self.const(t)
            self.expect('to')
            self.type()
            self.expect(')')
            return c
        raise IRError('unknown constant %r (%r)' % (v, ty))

    def _aggbody(self, end):
        r = []
        while not self.accept(end):
            t = self.type()
            r.append((t, self.const(t)))
            self.accept(',')
        return r

    def typed(self):
        t = self.type()
        self.skip_attrs()
        return t, self.const(t)


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'line', 'file', 'text', 'fn', 'blk')

    def __init__(self, op, res, ty, a):
        self.op, self.res, self.ty, self.a = op, res, ty, a
        self.line = None
        self.file = None

    def __repr__(self):
        return '%s = %s %r %r' % (self.res, self.op, self.ty, self.a)


class Block:
    def __init__(self, name):
        self.name, self.ins = name, []


class Func:
    def __init__(self, name, rty, params, linkage):
        self.name, self.rty, self.params, self.linkage = name, rty, params, linkage
        self.blocks = {}
        self.order = []
        self.file = self.line = None

    def instrs(self):
        for b in self.order:
            for i in self.blocks[b].ins:
                yield i


class Glob:
    def __init__(self, name, ty, init, const, tls, ext):
        self.name, self.ty, self.init, self.const, self.tls, self.ext = name, ty, init, const, tls, ext


class Module:
    def __init__(self):
        self.types_src = {}
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.ctors = []

    def named_type(self, v):
        if v not in self.types:
            if v not in self.types_src:
                raise IRError('unknown type ' + v)
            src = self.types_src[v]
            self.types[v] = Ty('void') if src.strip() == 'opaque' else P(tokenize(src), self).type()
        return self.types[v]


CMP = {'eq', 'ne', 'ugt', 'uge', 'ult', 'ule', 'sgt', 'sge', 'slt', 'sle', 'oeq', 'ogt', 'oge', 'olt', 'ole', 'one',
       'ord', 'ueq', 'une', 'uno'}
BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'ptrtoint', 'inttoptr',
        'bitcast', 'addrspacecast'}


def parse_call(p, mod):
    while p.peek() in FASTMATH or p.peek() in ('tail', 'musttail', 'notail'):
        p.next()
    p.skip_attrs()
    rty = p.type()
    if rty.k == 'fn':
        rty = rty.a
    k, callee = p.t[p.i]
    p.i += 1
    if k == 'glob':
        callee = ('glob', callee[1:].strip('"'))
    elif k == 'local':
        callee = ('reg', callee)
    else:
        raise IRError('bad callee %r' % callee)
    p.expect('(')
    args = []
    while not p.accept(')'):
        t = p.type()
        if t.k == 'metadata':
            d = 0
            while not (d == 0 and p.peek() in (',', ')')):
                w = p.next()
                if w in '([{':
                    d += 1
                elif w in ')]}':
                    d -= 1
            p.accept(',')
            continue
        at = p.skip_attrs()
        args.append((t, p.const(t), at))
        p.accept(',')
    return rty, callee, args


def parse_instr(line, mod):
    dbg = None
    m = re.search(r', !dbg !(\d+)', line)
    if m:
        dbg = int(m.group(1))
    m = re.search(r'(, ![a-zA-Z.]+ !\d+)+\s*$', line)
    if m:
        line = line[:m.start()]
    p = P(tokenize(line), mod)
    res = None
    if p.kind() == 'local' and p.peek(1) == '=':
        res = p.next()
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BIN:
        while p.peek() in FASTMATH:
            p.next()
        t = p.type()
        a = p.const(t)
        p.expect(',')
        I = Instr(op, res, t, (a, p.const(t)))
    elif op == 'fneg':
        while p.peek() in FASTMATH:
            p.next()
        t = p.type()
        I = Instr(op, res, t, (p.const(t),))
    elif op in ('icmp', 'fcmp'):
        while p.peek() in FASTMATH:
            p.next()
        pred = p.next()
        t = p.type()
        a = p.const(t)
        p.expect(',')
        I = Instr(op, res, t, (pred, a, p.const(t)))
    elif op in CAST:
        while p.peek() in FASTMATH:
            p.next()
        t = p.type()
        a = p.const(t)
        p.expect('to')
        I = Instr(op, res, p.type(), (a, t))
    elif op == 'alloca':
        p.accept('inalloca')
        t = p.type()
        n = ('int', 1)
        if p.peek() == ',' and p.kind(1) == 'word' and p.peek(1) != 'align':
            p.next()
            nt = p.type()
            n = p.const(nt)
        I = Instr(op, res, t, (n,))
    elif op == 'load':
        p.accept('atomic')
        vol = p.accept('volatile')
        t = p.type()
        p.expect(',')
        _, a = p.typed()
        I = Instr(op, res, t, (a, vol))
    elif op == 'store':
        p.accept('atomic')
        vol = p.accept('volatile')
        t, v = p.typed()
        p.expect(',')
        _, a = p.typed()
        I = Instr(op, None, t, (v, a, vol))
    elif op == 'getelementptr':
        while p.peek() in FASTMATH:
            p.next()
        st = p.type()
        p.expect(',')
        ops = [p.typed()]
        while p.accept(','):
            ops.append(p.typed())
        I = Instr(op, res, st, tuple(ops))
    elif op == 'phi':
        while p.peek() in FASTMATH:
            p.next()
        t = p.type()
        inc = []
        while p.accept('['):
            v = p.const(t)
            p.expect(',')
            b = p.next()
            p.expect(']')
            inc.append((v, b[1:].strip('"')))
            p.accept(',')
        I = Instr(op, res, t, tuple(inc))
    elif op == 'br':
        if p.peek() == 'label':
            p.next()
            I = Instr('br', None, None, (None, p.next()[1:].strip('"')))
        else:
            _, c = p.typed()
            p.expect(',')
            p.expect('label')
            a = p.next()[1:].strip('"')
            p.expect(',')
            p.expect('label')
            I = Instr('br', None, None, (c, a, p.next()[1:].strip('"')))
    elif op == 'switch':
        t, v = p.typed()
        p.expect(',')
        p.expect('label')
        d = p.next()[1:].strip('"')
        p.expect('[')
        cases = []
        while not p.accept(']'):
            _, c = p.typed()
            p.expect(',')
            p.expect('label')
            cases.append((c[1], p.next()[1:].strip('"')))
        I = Instr('switch', None, t, (v, d, tuple(cases)))
    elif op == 'ret':
        if p.peek() == 'void':
            I = Instr('ret', None, None, (None,))
        else:
            t, v = p.typed()
            I = Instr('ret', None, t, (v,))
    elif op == 'unreachable':
        I = Instr(op, None, None, ())
    elif op in ('call', 'invoke'):
        rty, callee, args = parse_call(p, mod)
        extra = ()
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next()
            p.expect('label')
            a = p.next()[1:].strip('"')
            p.expect('unwind')
            p.expect('label')
            extra = (a, p.next()[1:].strip('"'))
        I = Instr(op, res, rty, (callee, args) + extra)
    elif op == 'select':
        while p.peek() in FASTMATH:
            p.next()
        _, c = p.typed()
        p.expect(',')
        t, a = p.typed()
        p.expect(',')
        _, b = p.typed()
        I = Instr(op, res, t, (c, a, b))
    elif op == 'extractvalue':
        t, v = p.typed()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        I = Instr(op, res, t, (v, tuple(idx)))
    elif op == 'insertvalue':
        t, v = p.typed()
        p.expect(',')
        t2, v2 = p.typed()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        I = Instr(op, res, t, (v, v2, tuple(idx), t2))
    elif op == 'extractelement':
        t, v = p.typed()
        p.expect(',')
        _, k = p.typed()
        I = Instr('extractvalue' if k[0] == 'int' else op, res, t, (v, (k[1],)))
    elif op == 'insertelement':
        t, v = p.typed()
        p.expect(',')
        t2, v2 = p.typed()
        p.expect(',')
        _, k = p.typed()
        I = Instr('insertvalue' if k[0] == 'int' else op, res, t, (v, v2, (k[1],), t2))
    elif op == 'freeze':
        t, v = p.typed()
        I = Instr(op, res, t, (v,))
    elif op in ('landingpad', 'resume', 'fence', 'atomicrmw', 'cmpxchg', 'va_arg'):
        I = Instr(op, res, None, ())
    else:
        I = Instr(op, res, None, ())       # not modelled: whoever reaches it reports the routine as not analysed
    I.text = line.strip()
    return I, dbg


LINK = {'private', 'internal', 'external', 'linkonce', 'linkonce_odr', 'weak', 'weak_odr', 'common', 'appending',
        'extern_weak', 'available_externally', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default',
        'unnamed_addr', 'local_unnamed_addr', 'externally_initialized'}


def parse_module(text):
    mod = Module()
    lines = text.split('\n')
    md = {}
    for l in lines:
        if l.startswith('%'):
            m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = type (.*)$', l)
            if m:
                mod.types_src[m.group(1)] = m.group(2)
        elif l.startswith('!'):
            m = re.match(r'!(\d+) = (?:distinct )?!(DILocation|DISubprogram|DIFile|DILexicalBlock\w*)\((.*)\)$', l)
            if m:
                md[int(m.group(1))] = (m.group(2), m.group(3))
    loc_cache = {}

    def fileof(scope):
        seen = 0
        while scope in md and seen < 50:
            k, body = md[scope]
            seen += 1
            if k == 'DIFile':
                return re.search(r'filename: "([^"]*)"', body).group(1)
            m = re.search(r'file: !(\d+)', body)
            if m:
                scope = int(m.group(1))
                continue
            m = re.search(r'scope: !(\d+)', body)
            if not m:
                return None
            scope = int(m.group(1))
        return None

    def loc(n):
        if n is None or n not in md:
            return None, None
        if n not in loc_cache:
            body = md[n][1]
            ln = int(re.search(r'line: (\d+)', body).group(1))
            m = re.search(r'scope: !(\d+)', body)
            loc_cache[n] = (fileof(int(m.group(1))) if m else None, ln)
        return loc_cache[n]

    i, n = 0, len(lines)
    while i < n:
        l = lines[i]
        if l.startswith('@'):
            m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)$', l)
            name, rest = m.group(1).strip('"'), m.group(2)
            rest = re.sub(r', !dbg !\d+', '', rest)
            p = P(tokenize(rest), mod)
            tls = ext = False
            isconst = None
            while True:
                v = p.peek()
                if v in LINK:
                    if v in ('external', 'extern_weak'):
                        ext = True
                    p.next()
                elif v == 'thread_local':
                    tls = True
                    p.next()
                    if p.accept('('):
                        p.next()
                        p.expect(')')
                elif v in ('global', 'constant'):
                    isconst = v == 'constant'
                    p.next()
                    break
                elif v in ('alias', 'ifunc', 'comdat'):
                    break
                else:
                    raise IRError('bad global: ' + l[:200])
            if isconst is not None:
                ty = p.type()
                init = None
                if not ext:
                    init = p.const(ty)
                mod.globals[name] = Glob(name, ty, init, isconst, tls, ext)
                if name == 'llvm.global_ctors':
                    for _, e in init[1]:
                        for t, c in e[1]:
                            if c[0] == 'glob':
                                mod.ctors.append(c[1])
        elif l.startswith('declare'):
            m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
            mod.decls[m.group(1).strip('"')] = l
        elif l.startswith('define'):
            m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
            name = m.group(1).strip('"')
            dbg = re.search(r'!dbg !(\d+)', l)
            head = l[:m.start()]
            hp = P(tokenize(head), mod)
            linkage = []
            hp.next()
            while hp.peek() in LINK or hp.peek() in ('noundef', 'nonnull', 'zeroext', 'signext', 'align',
                                                     'dereferenceable', 'noalias'):
                if hp.peek() in LINK:
                    linkage.append(hp.next())
                else:
                    hp.skip_attrs()
            rty = hp.type()
            # parameters
            body = l[m.end() - 1:]
            body = re.sub(r'\)[^()]*\{\s*$', ')', body) if False else body
            d = 0
            for j, ch in enumerate(body):
                if ch == '(':
                    d += 1
                elif ch == ')':
                    d -= 1
                    if d == 0:
                        break
            pp = P(tokenize(body[1:j]), mod)
            params = []
            while pp.peek() is not None:
                if pp.accept('...'):
                    break
                t = pp.type()
                at = pp.skip_attrs()
                nm = pp.next() if pp.kind() == 'local' else None
                params.append((t, nm, at))
                pp.accept(',')
            f = Func(name, rty, params, linkage)
            if dbg:
                sub = md.get(int(dbg.group(1)))
                if sub:
                    mm = re.search(r'line: (\d+)', sub[1])
                    f.line = int(mm.group(1)) if mm else None
                    f.file = fileof(int(dbg.group(1)))
            i += 1
            cur = None
            while lines[i] != '}':
                s = lines[i]
                if s and not s[0].isspace() and not s.startswith(';'):
                    mm = re.match(r'("[^"]*"|[-\w.$]+):', s)
                    cur = Block(mm.group(1).strip('"'))
                    f.blocks[cur.name] = cur
                    f.order.append(cur.name)
                elif s.strip() and not s.strip().startswith(';'):
                    st = s.strip()
                    if st.startswith('#dbg'):
                        i += 1
                        continue
                    while (st.startswith('switch') or ' switch ' in st) and not st.rstrip().endswith(']') and \
                            not re.search(r'\](, !\w+ !\d+)+$', st.rstrip()):
                        i += 1
                        st += ' ' + lines[i].strip()
                    if re.match(r'(%\S+ = )?invoke', st) and ' to label' not in st:
                        i += 1
                        st += ' ' + lines[i].strip()
                    if re.match(r'%\S+ = landingpad', st):
                        while lines[i + 1].strip().startswith(('cleanup', 'catch', 'filter')):
                            i += 1
                    if cur is None:
                        cur = Block('0')
                        f.blocks['0'] = cur
                        f.order.append('0')
                    I, dn = parse_instr(st, mod)
                    I.file, I.line = loc(dn)
                    I.fn, I.blk = name, cur.name
                    cur.ins.append(I)
                i += 1
            mod.funcs[name] = f
        i += 1
    return mod

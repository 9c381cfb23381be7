"""Parser for textual LLVM IR (LLVM 16, opaque pointers, wasm32 data layout)."""
import re

TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"])*") |
  (?P<glob>@(?:"[^"]*"|[-A-Za-z$._0-9]+)) |
  (?P<loc>%(?:"[^"]*"|[-A-Za-z$._0-9]+)) |
  (?P<meta>!(?:"[^"]*"|[-A-Za-z$._0-9]+)?) |
  (?P<attr>\#[0-9]+) |
  (?P<num>-?[0-9]+(?:\.[0-9]+(?:e[-+]?[0-9]+)?)?) |
  (?P<dots>\.\.\.) |
  (?P<word>[A-Za-z_$.][-A-Za-z0-9_$.]*) |
  (?P<punct><\{|\}>|[()\[\]{}<>,=*:|])
)''', re.X)


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise SyntaxError('cannot tokenize: %r' % s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        out.append((k, m.group(k)))
        if i < n and s[i:].lstrip().startswith(';'):
            break
    return out


class P:
    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def eat(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.eat(v):
            raise SyntaxError('expected %r, got %r in %r' % (v, self.peek(), ' '.join(x[1] for x in self.t)))

    # ---- types
    def type(self):
        t = self._type()
        while True:
            if self.peek() == '*':
                self.next()
                t = ('ptr',)
            else:
                return t

    def _type(self):
        v = self.next()
        if re.fullmatch(r'i[0-9]+', v):
            return ('i', int(v[1:]))
        if v == 'ptr':
            if self.peek() == 'addrspace':
                self.next(), self.expect('('), self.next(), self.expect(')')
            return ('ptr',)
        if v == 'void':
            return ('void',)
        if v in ('label', 'metadata', 'float', 'double', 'token'):
            return (v,)
        if v == '[':
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect(']')
            return ('arr', n, t)
        if v == '<':
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect('>')
            return ('vec', n, t)
        if v in ('{', '<{'):
            end = '}' if v == '{' else '}>'
            ts = []
            while not self.eat(end):
                ts.append(self.type())
                self.eat(',')
            return ('struct', tuple(ts), v == '<{')
        if v.startswith('%'):
            return self.m.types[v]
        raise SyntaxError('type? %r in %r' % (v, ' '.join(x[1] for x in self.t)))

    PATTR = {'noundef', 'signext', 'zeroext', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'readnone', 'returned', 'noalias', 'immarg', 'inreg', 'nofree', 'nest', 'swiftself', 'allocalign', 'allocptr', 'noundef'}

    def pattrs(self):
        while True:
            v = self.peek()
            if v in self.PATTR:
                self.next()
            elif v in ('align', ):
                self.next()
                if self.eat('('):
                    self.next(), self.expect(')')
                else:
                    self.next()
            elif v in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'byref', 'inalloca', 'preallocated'):
                self.next()
                self.expect('(')
                d = 1
                while d:
                    x = self.next()
                    d += x == '('
                    d -= x == ')'
            else:
                return

    # ---- operands (already knowing the type)
    def value(self, ty):
        k, v = self.t[self.i]
        if k == 'loc':
            self.i += 1
            return ('l', v)
        if k == 'glob':
            self.i += 1
            return ('g', v)
        if k == 'num':
            self.i += 1
            if ty[0] == 'i':
                return ('c', int(v) & ((1 << ty[1]) - 1))
            return ('f', float(v))
        if k == 'str':
            self.i += 1
            return ('bytes', unescape(v))
        if v in ('true', 'false'):
            self.i += 1
            return ('c', int(v == 'true'))
        if v in ('null', 'zeroinitializer'):
            self.i += 1
            return ('zero', ) if ty[0] in ('arr', 'struct', 'vec') else ('c', 0)
        if v in ('undef', 'poison'):
            self.i += 1
            return ('undef',)
        if v in ('{', '<{', '[', '<'):
            end = {'{': '}', '<{': '}>', '[': ']', '<': '>'}[v]
            self.i += 1
            el = []
            while not self.eat(end):
                t = self.type()
                el.append((t, self.value(t)))
                self.eat(',')
            return ('agg', el)
        if v == 'getelementptr':
            self.i += 1
            self.eat('inbounds')
            self.expect('(')
            self.eat('inbounds')
            base = self.type()
            self.expect(',')
            ops = []
            while not self.eat(')'):
                self.eat('inrange')
                t = self.type()
                ops.append((t, self.value(t)))
                self.eat(',')
            return ('cgep', base, ops)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.i += 1
            self.expect('(')
            t = self.type()
            x = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('ccast', v, t, x, t2)
        if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            self.i += 1
            while self.peek() in ('nuw', 'nsw', 'exact'):
                self.i += 1
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t2 = self.type()
            b = self.value(t2)
            self.expect(')')
            return ('cbin', v, t, a, b)
        if v == 'icmp':
            self.i += 1
            pred = self.next()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t2 = self.type()
            b = self.value(t2)
            self.expect(')')
            return ('cicmp', pred, t, a, b)
        if v == 'select':
            self.i += 1
            self.expect('(')
            xs = []
            while not self.eat(')'):
                t = self.type()
                xs.append((t, self.value(t)))
                self.eat(',')
            return ('cselect', xs)
        raise SyntaxError('value? %r in %r' % (v, ' '.join(x[1] for x in self.t)))

    def tv(self):
        t = self.type()
        self.pattrs()
        return t, self.value(t)


def unescape(s):
    s = s[s.index('"') + 1:-1]
    out, i = bytearray(), 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(0x5c)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode()
            i += 1
    return bytes(out)


def sizeof(t):
    k = t[0]
    if k == 'i':
        b = (t[1] + 7) // 8
        a = alignof(t)
        return (b + a - 1) // a * a
    if k == 'ptr':
        return 4
    if k == 'arr' or k == 'vec':
        return t[1] * sizeof(t[2])
    if k == 'struct':
        return layout(t)[1]
    if k == 'float':
        return 4
    if k == 'double':
        return 8
    raise TypeError(t)


def alignof(t):
    k = t[0]
    if k == 'i':
        for a in (8, 16, 32, 64):
            if t[1] <= a:
                return a // 8
        return 8
    if k == 'ptr':
        return 4
    if k in ('arr', 'vec'):
        return alignof(t[2])
    if k == 'struct':
        return 1 if t[2] else max([alignof(x) for x in t[1]] or [1])
    return 8


def layout(t):
    offs, o = [], 0
    for x in t[1]:
        a = 1 if t[2] else alignof(x)
        o = (o + a - 1) // a * a
        offs.append(o)
        o += sizeof(x)
    a = alignof(t)
    return offs, (o + a - 1) // a * a


def storesize(t):
    return (t[1] + 7) // 8 if t[0] == 'i' else sizeof(t)


class Func:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'order', 'entry', 'line')


class Module:
    def __init__(self):
        self.types, self.globals, self.funcs, self.decls = {}, {}, {}, {}


FATTR_STOP = {'comdat', 'section', 'align', 'personality', 'gc', 'prefix'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
CASTS = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast'}
LINK = {'private', 'internal', 'external', 'hidden', 'dso_local', 'unnamed_addr', 'local_unnamed_addr', 'constant', 'global', 'weak', 'linkonce', 'linkonce_odr', 'weak_odr', 'common', 'protected', 'default', 'thread_local', 'appending', 'externally_initialized', 'available_externally'}


def parse(text):
    m = Module()
    lines = text.split('\n')
    i, n = 0, len(lines)
    # named struct types first
    for l in lines:
        if l.startswith('%') and ' = type ' in l:
            nm, rest = l.split(' = type ', 1)
            if rest.strip() == 'opaque':
                m.types[nm.strip()] = ('struct', (), False)
            else:
                m.types[nm.strip()] = P(tokenize(rest), m).type()
    while i < n:
        l = lines[i]
        if l.startswith('@'):
            p = P(tokenize(l), m)
            name = p.next()
            p.expect('=')
            ext = False
            while p.peek() in LINK or p.peek() == 'addrspace':
                v = p.next()
                if v == 'addrspace':
                    p.expect('('), p.next(), p.expect(')')
                if v == 'external':
                    ext = True
            t = p.type()
            init = None
            if not ext and p.kind() is not None and p.peek() != ',':
                init = p.value(t)
            align = None
            while p.peek() is not None:
                if p.next() == 'align':
                    align = int(p.next())
                    break
            m.globals[name] = (t, init, align, ' constant ' in l.split('=', 1)[1][:80])
        elif l.startswith('declare'):
            p = P(tokenize(l), m)
            p.next()
            while p.peek() in LINK or p.peek() in P.PATTR or p.peek() in ('fastcc', 'ccc'):
                p.next()
            p.pattrs()
            t = p.type()
            name = p.next()
            m.decls[name] = t
        elif l.startswith('define'):
            f = Func()
            p = P(tokenize(l), m)
            p.next()
            while p.peek() in LINK or p.peek() in P.PATTR or p.peek() in ('fastcc', 'ccc'):
                p.next()
            p.pattrs()
            f.ret = p.type()
            f.name = p.next()
            p.expect('(')
            f.params = []
            cnt = 0
            while not p.eat(')'):
                if p.eat('...'):
                    continue
                t = p.type()
                p.pattrs()
                if p.kind() == 'loc':
                    nm = p.next()
                else:
                    nm = '%%%d' % cnt
                if re.fullmatch(r'%\d+', nm):
                    cnt = int(nm[1:]) + 1
                f.params.append((t, nm))
                p.eat(',')
            f.blocks, f.order = {}, []
            cur = '%%%d' % cnt
            f.entry = None
            i += 1
            ins = []
            started = False
            while lines[i] != '}':
                s = lines[i]
                mm = re.match(r'^((?:"[^"]*"|[-A-Za-z$._0-9]+)):', s)
                if mm and not s.startswith(' '):
                    if started:
                        f.blocks[cur] = ins
                    cur = '%' + mm.group(1)
                    f.order.append(cur)
                    f.entry = f.entry or cur
                    ins = []
                    started = True
                elif s.strip() and not s.strip().startswith(';'):
                    if not started:
                        started = True
                        f.order.append(cur)
                        f.entry = cur
                    st = s
                    if re.match(r'\s+switch ', st):
                        while ']' not in lines[i]:
                            i += 1
                            st += ' ' + lines[i]
                    x = parse_instr(st, m)
                    if x is not None:
                        ins.append(x)
                i += 1
            f.blocks[cur] = ins
            m.funcs[f.name] = f
        i += 1
    return m


def strip_meta(p):
    pass


def parse_instr(s, m):
    p = P(tokenize(s), m)
    dst = None
    if p.kind() == 'loc' and p.peek(1) == '=':
        dst = p.next()
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BINOPS:
        fl = []
        while p.peek() in ('nuw', 'nsw', 'exact'):
            fl.append(p.next())
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return ('bin', dst, op, t, a, b, tuple(fl))
    if op in CASTS:
        t = p.type()
        a = p.value(t)
        p.expect('to')
        return ('cast', dst, op, t, a, p.type())
    if op == 'icmp':
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        return ('icmp', dst, pred, t, a, p.value(t))
    if op == 'load':
        p.eat('volatile')
        t = p.type()
        p.expect(',')
        _, a = p.tv()
        return ('load', dst, t, a)
    if op == 'store':
        p.eat('volatile')
        t, v = p.tv()
        p.expect(',')
        _, a = p.tv()
        return ('store', None, t, v, a)
    if op == 'alloca':
        t = p.type()
        cnt = None
        align = None
        while p.eat(','):
            if p.peek() == 'align':
                p.next()
                align = int(p.next())
            elif p.kind() == 'meta':
                break
            else:
                cnt = p.tv()
        return ('alloca', dst, t, cnt, align)
    if op == 'getelementptr':
        p.eat('inbounds')
        t = p.type()
        p.expect(',')
        ops = [p.tv()]
        while p.eat(','):
            if p.kind() == 'meta':
                break
            ops.append(p.tv())
        return ('gep', dst, t, ops)
    if op == 'br':
        if p.eat('label'):
            return ('br', None, p.next())
        t, c = p.tv()
        p.expect(',')
        p.expect('label')
        a = p.next()
        p.expect(',')
        p.expect('label')
        return ('condbr', None, c, a, p.next())
    if op == 'switch':
        t, v = p.tv()
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cases = []
        while not p.eat(']'):
            ct, cv = p.tv()
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], p.next()))
        return ('switch', None, t, v, d, cases)
    if op == 'ret':
        if p.eat('void'):
            return ('ret', None, None, None)
        t, v = p.tv()
        return ('ret', None, t, v)
    if op == 'unreachable':
        return ('unreachable', None)
    if op == 'phi':
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            inc.append((v, p.next()))
            p.expect(']')
            if not p.eat(','):
                break
            if p.kind() == 'meta':
                break
        return ('phi', dst, t, inc)
    if op == 'select':
        ct, c = p.tv()
        p.expect(',')
        t, a = p.tv()
        p.expect(',')
        _, b = p.tv()
        return ('select', dst, t, c, a, b)
    if op == 'freeze':
        t, a = p.tv()
        return ('freeze', dst, t, a)
    if op == 'extractvalue':
        t, a = p.tv()
        idx = []
        while p.eat(','):
            if p.kind() == 'meta':
                break
            idx.append(int(p.next()))
        return ('extractvalue', dst, t, a, idx)
    if op == 'insertvalue':
        t, a = p.tv()
        p.expect(',')
        t2, b = p.tv()
        idx = []
        while p.eat(','):
            if p.kind() == 'meta':
                break
            idx.append(int(p.next()))
        return ('insertvalue', dst, t, a, t2, b, idx)
    if op == 'call':
        while p.peek() in P.PATTR or p.peek() in ('fastcc', 'ccc', 'coldcc'):
            p.next()
        p.pattrs()
        t = p.type()
        if p.peek() == '(':      # function type
            d = 0
            while True:
                v = p.next()
                d += v == '('
                d -= v == ')'
                if d == 0:
                    break
        k = p.kind()
        name = p.next()
        if name.startswith('@llvm.dbg.'):
            return None
        p.expect('(')
        args = []
        while not p.eat(')'):
            at = p.type()
            p.pattrs()
            if at == ('metadata',):
                while p.peek() not in (',', ')'):
                    p.next()
                args.append((at, None))
            else:
                args.append((at, p.value(at)))
            p.eat(',')
        return ('call', dst, t, name if k == 'glob' else ('l', name), args)
    raise SyntaxError('instruction? ' + s)

"""The reference: a Yul parser and an interpreter with EVM semantics over symbolic words."""
import re
import z3
import bv, host, evm
from check import Halt

M256 = bv.mask(256)
TOK = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|(?P<hexs>hex"[^"]*")|(?P<str>"(?:[^"\\]|\\.)*")|(?P<num>0x[0-9a-fA-F]+|[0-9]+)|(?P<id>[A-Za-z_$][A-Za-z0-9_$.]*)|(?P<op>:=|->|[{}(),:])', re.S)


def tokens(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError('bad character %r' % s[i:i + 10])
        i = m.end()
        if m.lastgroup:
            out.append((m.lastgroup, m.group(m.lastgroup)))
    return out


def unescape(s):
    """The bytes of a quoted string."""
    out, i, s = bytearray(), 1, s[:-1]
    while i < len(s):
        c = s[i]
        i += 1
        if c != '\\':
            out += c.encode()
            continue
        e = s[i]
        i += 1
        if e == 'x':
            out.append(int(s[i:i + 2], 16))
            i += 2
        elif e == 'u':
            out += chr(int(s[i:i + 4], 16)).encode()
            i += 4
        elif e == '\n':
            pass
        else:
            out += {'n': b'\n', 't': b'\t', 'r': b'\r', 'b': b'\b', 'f': b'\f', 'v': b'\v'}.get(e, e.encode())
    return bytes(out)


class Parser:
    def __init__(self, text):
        self.t = tokens(text)
        self.i = 0

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.eat(x):
            raise SyntaxError('expected %s, found %s' % (x, self.peek()))

    def object(self):
        self.expect('object')
        o = {'name': unescape(self.next()[1]).decode(), 'objects': {}, 'data': {}}
        self.expect('{')
        self.expect('code')
        o['code'] = self.block()
        while not self.eat('}'):
            if self.peek() == 'object':
                x = self.object()
                o['objects'][x['name']] = x
            else:
                self.expect('data')
                n = unescape(self.next()[1]).decode()
                k, v = self.next()
                o['data'][n] = bytes.fromhex(v[4:-1].replace('_', '')) if k == 'hexs' else unescape(v)
        return o

    def block(self):
        self.expect('{')
        r = []
        while not self.eat('}'):
            r.append(self.stmt())
        return r

    def names(self):
        r = [self.next()[1]]
        self.ty()
        while self.eat(','):
            r.append(self.next()[1])
            self.ty()
        return r

    def ty(self):
        if self.eat(':'):
            self.next()

    def stmt(self):
        p = self.peek()
        if p == '{':
            return ('block', self.block())
        if p == 'let':
            self.next()
            n = self.names()
            return ('let', n, self.expr() if self.eat(':=') else None)
        if p == 'if':
            self.next()
            c = self.expr()
            return ('if', c, self.block())
        if p == 'for':
            self.next()
            i = self.block()
            c = self.expr()
            post = self.block()
            return ('for', i, c, post, self.block())
        if p == 'switch':
            self.next()
            e = self.expr()
            cases, d = [], None
            while self.peek() in ('case', 'default'):
                if self.next()[1] == 'case':
                    l = self.expr()
                    cases.append((l, self.block()))
                else:
                    d = self.block()
            return ('switch', e, cases, d)
        if p in ('break', 'continue', 'leave'):
            self.next()
            return (p,)
        if p == 'function':
            self.next()
            n = self.next()[1]
            self.expect('(')
            ps = [] if self.peek() == ')' else self.names()
            self.expect(')')
            rs = self.names() if self.eat('->') else []
            return ('function', n, ps, rs, self.block())
        # call or assignment
        k = self.i
        if self.t[self.i + 1][1] == '(':
            return ('expr', self.expr())
        n = [self.next()[1]]
        while self.eat(','):
            n.append(self.next()[1])
        self.expect(':=')
        return ('assign', n, self.expr())

    def expr(self):
        k, v = self.next()
        if k == 'num':
            r = ('lit', int(v, 0) if v.startswith('0x') else int(v))
        elif k in ('str', 'hexs'):
            b = bytes.fromhex(v[4:-1].replace('_', '')) if k == 'hexs' else unescape(v)
            r = ('str', b)
        elif v in ('true', 'false'):
            r = ('lit', int(v == 'true'))
        elif self.eat('('):
            a = []
            while not self.eat(')'):
                a.append(self.expr())
                self.eat(',')
            return ('call', v, a)
        else:
            r = ('id', v)
        self.ty()
        return r


def parse(text):
    return Parser(text).object()


class Jump(Exception):
    def __init__(self, k):
        self.k = k


class Opaque:
    """A value only some operations may look at: the offset of a data object."""

    def __init__(self, name, add=0):
        self.name = name


class Interp:
    """Runs one object's code; c decides branches, h is the environment."""

    def __init__(self, obj, c, h, root=None, symbols=None, deploying=False, limit=2000, slack=1 << 32, subs=None, immutables=None):
        self.o, self.c, self.h = obj, c, h
        self.env = h.env
        self.m = evm.Mem()
        self.symbols = symbols or {}
        self.deploying = deploying
        self.steps, self.limit = 0, limit
        self.depth = 0
        self.slack = slack
        self.subs = subs or {}          # embedded contracts, as the compiler emitted them
        self.imm = immutables or {}     # name -> (storage key of the value, of the mark that it is set)

    # -------------------------------------------------- statements
    def run(self):
        try:
            self.block(self.o['code'], [])
        except Jump:
            pass
        raise Halt(('finish', []))

    def block(self, b, sc):
        sc = sc + [{}]
        for s in b:
            if s[0] == 'function':
                sc[-1][s[1]] = (s, list(sc))
        for s in b:
            self.stmt(s, sc)

    def lookup(self, sc, n):
        for d in reversed(sc):
            if n in d:
                return d
        raise SyntaxError('unknown name ' + n)

    def cond(self, e, sc):
        v = self.one(e, sc)
        return self.c.branch(bv.bnot(bv.eq(v, 0, 256)))

    def stmt(self, s, sc):
        self.steps += 1
        if self.steps > self.limit:
            raise Halt(('any',))
        k = s[0]
        if k == 'block':
            self.block(s[1], sc)
        elif k == 'let':
            v = self.multi(s[2], sc, len(s[1])) if s[2] else [0] * len(s[1])
            for n, x in zip(s[1], v):
                sc[-1][n] = x
        elif k == 'assign':
            v = self.multi(s[2], sc, len(s[1]))
            for n, x in zip(s[1], v):
                self.lookup(sc, n)[n] = x
        elif k == 'if':
            if self.cond(s[1], sc):
                self.block(s[2], sc)
        elif k == 'for':
            sc = sc + [{}]
            for x in s[1]:
                if x[0] == 'function':
                    sc[-1][x[1]] = (x, list(sc))
            for x in s[1]:
                self.stmt(x, sc)
            while self.cond(s[2], sc):
                self.steps += 1
                if self.steps > self.limit:
                    raise Halt(('any',))
                try:
                    self.block(s[4], sc)
                except Jump as j:
                    if j.k == 'break':
                        break
                    if j.k != 'continue':
                        raise
                self.block(s[3], sc)
        elif k == 'switch':
            v = self.one(s[1], sc)
            for l, b in s[2]:
                if self.c.branch(bv.eq(v, self.one(l, sc), 256)):
                    self.block(b, sc)
                    return
            if s[3] is not None:
                self.block(s[3], sc)
        elif k in ('break', 'continue', 'leave'):
            raise Jump(k)
        elif k == 'expr':
            self.call(s[1], sc)
        elif k == 'function':
            pass
        else:
            raise SyntaxError(k)

    # -------------------------------------------------- expressions
    def multi(self, e, sc, n):
        if n == 1:
            return [self.one(e, sc)]
        r = self.call(e, sc)
        assert len(r) == n
        return r

    def one(self, e, sc):
        k = e[0]
        if k == 'lit':
            return e[1]
        if k == 'str':
            b = e[1]
            assert len(b) <= 32
            return int.from_bytes(b.ljust(32, b'\0'), 'big')
        if k == 'id':
            return self.lookup(sc, e[1])[e[1]]
        r = self.call(e, sc)
        assert len(r) == 1, e
        return r[0]

    def call(self, e, sc):
        n = e[1]
        f = None
        for d in reversed(sc):
            if n in d:
                f = d[n]
                break
        if f is None:
            if n in ('dataoffset', 'datasize', 'linkersymbol', 'loadimmutable', 'setimmutable', 'memoryguard'):
                return self.special(n, e[2], sc)
            a = [self.one(x, sc) for x in reversed(e[2])][::-1]      # arguments are evaluated from the last to the first
            r = getattr(self, 'b_' + n)(*a)
            return [] if r is None else [r]
        (_, _, ps, rs, body), dsc = f
        a = [self.one(x, sc) for x in reversed(e[2])][::-1]
        assert len(a) == len(ps)
        self.depth += 1
        if self.depth > 60:
            raise Halt(('any',))
        fr = dict(zip(ps, a))
        for r in rs:
            fr[r] = 0
        # only functions are visible from outside a function
        vis = [{k: v for k, v in d.items() if isinstance(v, tuple)} for d in dsc]
        try:
            self.block(body, vis + [fr])
        except Jump as j:
            if j.k != 'leave':
                raise
        self.depth -= 1
        return [fr[r] for r in rs]

    def special(self, n, args, sc):
        if n == 'datasize':
            k = args[0][1].decode()
            return [len(self.embedded(k))] if k != self.o['name'] else [bv.zext(self.env.codesize, 32, 256)]
        if n == 'dataoffset':
            return [Opaque(args[0][1].decode())]
        if n == 'linkersymbol':
            return [int(self.symbols[args[0][1].decode()], 16)]
        if n == 'loadimmutable':
            return [self.h.sload(self.imm[args[0][1].decode()][0])]
        if n == 'setimmutable':
            v = self.one(args[2], sc)
            self.one(args[0], sc)
            k, mark = self.imm[args[1][1].decode()]
            if self.c.branch(bv.bnot(bv.eq(self.h.sload(mark), 0, 256))):
                raise Halt(('any',))                    # set twice
            self.h.sstore(k, v)
            self.h.sstore(mark, 1)
            return []
        if n == 'memoryguard':
            v = self.one(args[0], sc)
            return [v]
        raise SyntaxError(n)

    def embedded(self, n):
        if n in self.o['data']:
            return self.o['data'][n]
        b = self.subs[n]
        return len(b).to_bytes(4, 'big') + b

    # offsets: the limits of the memory are outside the property
    def off(self, v, what='offset'):
        if isinstance(v, int):
            if v >= self.slack:
                raise Halt(('any',))
            return v
        if not self.c.branch(bv.ult(v, self.slack, 256)):
            raise Halt(('any',))
        return self.c.concrete(v, 256, what)

    def rng(self, o, n):
        """(offset, length) of a memory range; the offset of an empty one does not matter."""
        n = self.off(n, 'length')
        return (self.off(o), n) if n else (0, 0)

    # -------------------------------------------------- arithmetic
    def b_add(self, a, b): return bv.add(a, b, 256)
    def b_sub(self, a, b): return bv.sub(a, b, 256)
    def b_mul(self, a, b): return bv.mul(a, b, 256)

    def dz(self, f, a, b):
        if isinstance(b, int):
            return 0 if b == 0 else f(a, b)
        return bv.ite(bv.eq(b, 0, 256), 0, f(a, b), 256)

    def b_div(self, a, b): return self.dz(lambda x, y: bv.udiv(x, y, 256), a, b)
    def b_mod(self, a, b): return self.dz(lambda x, y: bv.urem(x, y, 256), a, b)
    def b_sdiv(self, a, b): return self.dz(lambda x, y: bv.sdiv(x, y, 256), a, b)
    def b_smod(self, a, b): return self.dz(lambda x, y: bv.srem(x, y, 256), a, b)

    def b_exp(self, a, b):
        b = self.c.concrete(b, 256, 'exponent')
        r = 1
        while b:
            if b & 1:
                r = bv.mul(r, a, 256)
            a = bv.mul(a, a, 256)
            b >>= 1
        return r

    def b_not(self, a): return bv.not_(a, 256)
    def flag(self, c): return int(c) if isinstance(c, (bool, int)) else bv.ite(c, 1, 0, 256)
    def b_lt(self, a, b): return self.flag(bv.ult(a, b, 256))
    def b_gt(self, a, b): return self.flag(bv.ult(b, a, 256))
    def b_slt(self, a, b): return self.flag(bv.slt(a, b, 256))
    def b_sgt(self, a, b): return self.flag(bv.slt(b, a, 256))
    def b_eq(self, a, b): return self.flag(bv.eq(a, b, 256))
    def b_iszero(self, a): return self.flag(bv.eq(a, 0, 256))
    def b_and(self, a, b): return bv.and_(a, b, 256)
    def b_or(self, a, b): return bv.or_(a, b, 256)
    def b_xor(self, a, b): return bv.xor(a, b, 256)

    def b_byte(self, i, x):
        if isinstance(i, int):
            return 0 if i > 31 else bv.zext(bv.byte(x, 31 - i), 8, 256)
        r = bv.and_(bv.lshr(x, bv.sub(248, bv.shl_c(i, 3, 256), 256), 256), 255, 256)
        return bv.ite(bv.ult(i, 32, 256), r, 0, 256)

    def shift(self, f, s, x, over):
        if isinstance(s, int):
            return over if s > 255 else f(x, s, 256)
        return bv.ite(bv.ult(s, 256, 256), f(x, s, 256), over, 256)

    def b_shl(self, s, x): return self.shift(bv.shl, s, x, 0)
    def b_shr(self, s, x): return self.shift(bv.lshr, s, x, 0)
    def b_sar(self, s, x): return self.shift(bv.ashr, s, x, bv.ashr(x, 255, 256))
    def b_addmod(self, a, b, n): return host.modop('addmod', a, b, n)
    def b_mulmod(self, a, b, n): return host.modop('mulmod', a, b, n)

    def b_signextend(self, i, x):
        if isinstance(i, int):
            return x if i > 30 else bv.sext(bv.trunc(x, 8 * i + 8), 8 * i + 8, 256)
        s = bv.sub(248, bv.shl_c(i, 3, 256), 256)
        return bv.ite(bv.ult(i, 31, 256), bv.ashr(bv.shl(x, s, 256), s, 256), x, 256)

    # -------------------------------------------------- memory and data
    def b_keccak256(self, o, n): return host.keccak_term(self.m.load(*self.rng(o, n)))
    def b_pop(self, a): return None
    def b_mload(self, o): return self.m.word(self.off(o))
    def b_mstore(self, o, v): self.m.store_word(self.off(o), v)
    def b_mstore8(self, o, v): self.m.store(self.off(o), [bv.trunc(v, 8)])
    def b_msize(self): return self.m.high

    def b_mcopy(self, d, s, n):
        n = self.off(n)
        if n:
            self.m.copy(self.off(d), self.off(s), n)

    def source(self, o, limit):
        """Offset into a byte string of at most `limit` bytes; None if past its end."""
        if isinstance(o, int):
            return o if o < limit else None
        if not self.c.branch(bv.ult(o, limit, 256)):
            return None
        return self.c.concrete(o, 256)

    def b_calldataload(self, o):
        o = self.source(o, max(1, self.env.max_calldata))
        if o is None:
            return 0
        return bv.from_bytes_be([self.env.calldata_byte(o + i) for i in range(32)])

    def b_calldatasize(self): return bv.zext(self.env.cdsize, 32, 256)

    def b_calldatacopy(self, d, o, n):
        d, n = self.rng(d, n)
        if not n:
            return
        o = self.source(o, max(1, self.env.max_calldata))
        self.m.store(d, [0] * n if o is None else [self.env.calldata_byte(o + i) for i in range(n)])

    def b_datacopy(self, d, o, n):
        if not isinstance(o, Opaque):
            return self.b_codecopy(d, o, n)
        b = self.embedded(o.name)
        d, n = self.rng(d, n)
        assert n <= len(b)
        self.m.store(d, list(b[:n]))

    def b_codesize(self):
        r = bv.zext(self.env.codesize, 32, 256)
        return bv.add(r, self.b_calldatasize(), 256) if self.deploying else r

    def b_codecopy(self, d, o, n):
        if isinstance(o, Opaque):
            return self.b_datacopy(d, o, n)
        d, n = self.rng(d, n)
        o = self.off(o)
        cs = self.c.concrete(self.env.codesize, 32)
        self.m.store(d, [host.code_byte(self.env, i) if i < cs else (self.env.calldata_byte(i - cs) if self.deploying else 0) for i in range(o, o + n)])

    # -------------------------------------------------- state
    def b_sload(self, k): return self.h.sload(k)
    def b_tload(self, k): return self.h.tload(k)
    def b_sstore(self, k, v): self.h.sstore(k, v)
    def b_tstore(self, k, v): self.h.tstore(k, v)
    def b_gas(self): return bv.zext(self.h.gas(), 64, 256)
    def b_address(self): return bv.zext(self.env.word('address', 160), 160, 256)
    def b_caller(self): return bv.zext(self.env.word('caller', 160), 160, 256)
    def b_origin(self): return bv.zext(self.env.word('origin', 160), 160, 256)
    def b_coinbase(self): return bv.zext(self.env.word('coinbase', 160), 160, 256)
    def b_callvalue(self): return self.env.word('callvalue', 256)
    def b_gasprice(self): return self.env.word('gasprice', 256)
    def b_basefee(self): return self.env.word('basefee', 256)
    def b_blobbasefee(self): return self.env.word('blobbasefee', 256)
    def b_chainid(self): return self.env.word('chainid', 256)
    def b_prevrandao(self): return self.env.word('prevrandao', 256)
    b_difficulty = b_prevrandao
    def b_timestamp(self): return bv.zext(self.env.word('timestamp', 64), 64, 256)
    def b_number(self): return bv.zext(self.env.word('number', 64), 64, 256)
    def b_gaslimit(self): return bv.zext(self.env.word('gaslimit', 64), 64, 256)
    def b_balance(self, a): return host.uf('balance', [(bv.trunc(a, 160), 160)])
    def b_selfbalance(self): return host.uf('balance', [(self.env.word('address', 160), 160)])
    def b_extcodehash(self, a): return host.uf('extcodehash', [(bv.trunc(a, 160), 160)])
    def b_extcodesize(self, a): return bv.zext(bv.trunc(host.uf('extcodesize', [(bv.trunc(a, 160), 160)]), 31), 31, 256)

    def b_extcodecopy(self, a, d, o, n):
        d, n = self.rng(d, n)
        o = self.off(o)
        self.m.store(d, [host.extcode_byte(bv.trunc(a, 160), o + i) for i in range(n)])

    def b_blockhash(self, n):
        return bv.ite(bv.ult(n, (1 << 64) - 1, 256), host.uf('blockhash', [(bv.trunc(n, 64), 64)]), 0, 256)

    # -------------------------------------------------- calls
    def b_returndatasize(self):
        return 0 if self.h.ret is None else bv.zext(self.env.call_result(self.h.ret)[1], 32, 256)

    def b_returndatacopy(self, d, o, n):
        d, n = self.rng(d, n)
        if not n and isinstance(o, int) and not o:
            return
        if not n:
            raise Halt(('any',))
        o = self.off(o)
        sz = 0 if self.h.ret is None else self.env.call_result(self.h.ret)[1]
        if self.c.branch(bv.bnot(bv.ule(o + n, sz, 32))):
            raise Halt(('trap',))
        self.m.store(d, self.env.call_result(self.h.ret)[2][o:o + n])

    def ext(self, kind, g, a, v, io, i, oo, o):
        io, i = self.rng(io, i)
        oo, o = self.rng(oo, o)
        g = bv.ite(bv.ult(g, (1 << 64) - 1, 256), bv.trunc(g, 64), (1 << 64) - 1, 64)
        k = self.h.ext_call(kind, g, bv.trunc(a, 160), v, self.m.load(io, i))
        st, sz, bs, _ = self.env.call_result(k)
        ok = self.c.branch(bv.eq(st, 0, 32))
        self.m.touch(oo, o)
        # a precompiled contract that fails returns nothing
        if o and not ok and self.c.branch(bv.ult(bv.sub(bv.trunc(a, 160), 1, 160), 10, 160)):
            if self.c.branch(bv.bnot(bv.eq(sz, 0, 32))):
                raise Halt(('any',))
        elif o:
            self.m.store(oo, bs[:min(self.c.concrete(sz, 32), o)])
        return int(ok)

    def b_call(self, g, a, v, io, i, oo, o): return self.ext('call', g, a, v, io, i, oo, o)
    def b_callcode(self, g, a, v, io, i, oo, o): return self.ext('callcode', g, a, v, io, i, oo, o)
    def b_delegatecall(self, g, a, io, i, oo, o): return self.ext('delegatecall', g, a, 0, io, i, oo, o)
    def b_staticcall(self, g, a, io, i, oo, o): return self.ext('staticcall', g, a, 0, io, i, oo, o)

    def new(self, v, o, n, s):
        """The memory holds length-prefixed code, then constructor data."""
        o, n = self.rng(o, n)
        k = self.c.concrete(bv.from_bytes_be(self.m.load(o, 4)), 32)
        k = self.h.create(v, self.m.load(o, 4 + k), self.m.load(o + 4 + k, n - 4 - k), s)
        st, _, _, ad = self.env.call_result(k)
        return bv.zext(ad, 160, 256) if self.c.branch(bv.eq(st, 0, 32)) else 0

    def b_create(self, v, o, n): return self.new(v, o, n, None)
    def b_create2(self, v, o, n, s): return self.new(v, o, n, s)

    # -------------------------------------------------- ends
    def b_return(self, o, n): evm.finish(self.m.load(*self.rng(o, n)))
    def b_revert(self, o, n): evm.revert(self.m.load(*self.rng(o, n)))
    def b_stop(self): evm.finish([])
    def b_invalid(self): raise Halt(('invalid',))
    def b_selfdestruct(self, a): raise Halt(('selfdestruct', (bv.trunc(a, 160), 160)))
    def log(self, o, n, *t): self.h.log(self.m.load(*self.rng(o, n)), list(t))
    b_log0 = b_log1 = b_log2 = b_log3 = b_log4 = log

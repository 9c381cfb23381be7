"""The environment model the checks execute the code against.

One Env object holds the symbolic facts of a transaction (calldata, caller, block, storage, call results); a Host
is the mutable per-path part (storage contents, log of externally visible events).  The compiled code reaches it
through the host API imports; the reference interpreter calls the same methods directly."""
import z3
import bv
from sym import Trap, Bound

B256 = z3.BitVecSort(256)
USES = []       # (kind, [(arg, width)], term): every uninterpreted host answer, for replay tables
WORDS = {   # 32-byte big-endian values
    'getCallValue': 'callvalue', 'getTxGasPrice': 'gasprice', 'getBaseFee': 'basefee', 'getBlobBaseFee': 'blobbasefee',
    'getChainId': 'chainid', 'getBlockPrevRandao': 'prevrandao'}
ADDRS = {'getAddress': 'address', 'getCaller': 'caller', 'getBlockCoinbase': 'coinbase', 'getTxOrigin': 'origin'}
I64S = {'getBlockGasLimit': 'gaslimit', 'getBlockTimestamp': 'timestamp', 'getBlockNumber': 'number'}

_rc = [[0] * 5 for _ in range(5)]


def keccak(data):
    RC = [0x0000000000000001, 0x0000000000008082, 0x800000000000808A, 0x8000000080008000, 0x000000000000808B, 0x0000000080000001, 0x8000000080008081, 0x8000000000008009, 0x000000000000008A, 0x0000000000000088, 0x0000000080008009, 0x000000008000000A, 0x000000008000808B, 0x800000000000008B, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x000000000000800A, 0x800000008000000A, 0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008]
    M = (1 << 64) - 1
    rol = lambda x, n: ((x << n) | (x >> (64 - n))) & M if n else x
    A = [[0] * 5 for _ in range(5)]
    rate = 136
    p = bytearray(data) + b'\x01' + b'\0' * ((-len(data) - 1) % rate)
    p[-1] |= 0x80
    for o in range(0, len(p), rate):
        for i in range(rate // 8):
            A[i % 5][i // 5] ^= int.from_bytes(p[o + 8 * i:o + 8 * i + 8], 'little')
        for rc in RC:
            C = [A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4] for x in range(5)]
            D = [C[(x + 4) % 5] ^ rol(C[(x + 1) % 5], 1) for x in range(5)]
            A = [[A[x][y] ^ D[x] for y in range(5)] for x in range(5)]
            Bm = [[0] * 5 for _ in range(5)]
            x, y, cur = 1, 0, A[1][0]
            Bm[0][0] = A[0][0]
            for t in range(24):
                X, Y = y, (2 * x + 3 * y) % 5
                Bm[X][Y] = rol(A[x][y], ((t + 1) * (t + 2) // 2) % 64) if False else None
                x, y = X, Y
            # rho and pi
            x, y = 1, 0
            r = {(0, 0): 0}
            for t in range(24):
                r[(x, y)] = ((t + 1) * (t + 2) // 2) % 64
                x, y = y, (2 * x + 3 * y) % 5
            for x in range(5):
                for y in range(5):
                    Bm[y][(2 * x + 3 * y) % 5] = rol(A[x][y], r[(x, y)])
            A = [[Bm[x][y] ^ ((~Bm[(x + 1) % 5][y]) & Bm[(x + 2) % 5][y] & M) for y in range(5)] for x in range(5)]
            A[0][0] ^= rc
    out = b''
    for i in range(4):
        out += A[i % 5][i // 5].to_bytes(8, 'little')
    return out


assert keccak(b'').hex() == 'c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470'

_kf = {}


def keccak_term(bs):
    """keccak256 of a byte list: concrete when the bytes are, an uninterpreted function of them otherwise."""
    if all(isinstance(b, int) for b in bs):
        return int.from_bytes(keccak(bytes(bs)), 'big')
    n = len(bs)
    f = _kf.get(n)
    if f is None:
        f = _kf[n] = z3.Function('keccak_%d' % n, z3.BitVecSort(8 * n), B256)
    v = bv.from_bytes_be(bs)
    k = v.key()
    r = _kf.get(k)
    if r is None:
        r = _kf[k] = bv.atom(f(v.z()))
        USES.append(('keccak', [(v, 8 * n)], r))
    return r


_fn = {}


def uf(name, args):
    """Uninterpreted host function: args [(value, width)...] -> 256-bit word."""
    k = (name,) + tuple(w for _, w in args)
    f = _fn.get(k)
    if f is None:
        f = _fn[k] = z3.Function('_'.join([name] + [str(w) for _, w in args]), *([z3.BitVecSort(w) for _, w in args] + [B256]))
    r = bv.atom(f(*[bv.z(v, w) for v, w in args]))
    USES.append((name, list(args), r))
    return r


class Env:
    """Symbolic transaction environment.

    calldata: list of symbolic bytes (max length) and a symbolic size; bytes past the size read as zero.
    overrides: {name: value} fixes any of the words."""

    def __init__(self, max_calldata=100, size=None, max_ret=64, prefix='', overrides=None, zero_pad=False, codesize=None, ext_status=(0, 1), max_code=0, ret_size=None):
        self.max_calldata, self.max_ret = max_calldata, max_ret
        self.prefix = prefix
        self.o = overrides or {}
        self.vars = {}
        self.cd = [self.word('cd%d' % i, 8) for i in range(max_calldata)]
        self.pre = []
        if size is None:
            size = self.word('cdsize', 32)
            self.pre.append(bv.bnot(bv.ult(max_calldata, size, 32)))
        self.cdsize = size
        self.zero_pad = zero_pad
        self.ext_status = ext_status
        self.ret_size = ret_size
        self.max_code = max_code
        self.code = [self.word('code%d' % i, 8) for i in range(max_code)]
        self.codesize = codesize if codesize is not None else self.word('codesize', 32)
        if codesize is None:
            self.pre.append(bv.ule(self.codesize, 0x6000, 32))
        self.storage0 = z3.Array(prefix + 'storage0', B256, B256)
        self.tstorage0 = z3.Array(prefix + 'tstorage0', B256, B256)
        self._call = {}

    def word(self, name, w):
        if name in self.o:
            return self.o[name]
        v = self.vars.get(name)
        if v is None:
            v = self.vars[name] = (bv.var(self.prefix + name, w), w)
        return v[0]

    def calldata_size(self):
        return self.cdsize

    def calldata_byte(self, i):
        """i: concrete index; zero past the size."""
        if i >= self.max_calldata:
            return 0
        if isinstance(self.cdsize, int):
            return self.cd[i] if i < self.cdsize else 0
        return bv.ite(bv.ult(i, self.cdsize, 32), self.cd[i], 0, 8)

    def call_result(self, k):
        """(status, return size, return bytes, call address) of the k-th external call or create."""
        r = self._call.get(k)
        if r is None:
            st = self.word('status%d' % k, 32)
            sz = self.word('retsize%d' % k, 32) if self.ret_size is None else self.ret_size
            bs = [self.word('ret%d_%d' % (k, i), 8) for i in range(self.max_ret)]
            r = self._call[k] = (st, sz, bs, self.word('newaddr%d' % k, 160))
        return r

    def call_pre(self, k):
        st, sz, bs, a = self.call_result(k)
        return [bv.bor(*[bv.eq(st, x, 32) for x in self.ext_status]), bv.ule(sz, self.max_ret, 32)]


class Host:
    def __init__(self, env):
        self.env = env
        self.events = ()        # tuple of event tuples
        self.storage = ()       # writes since the last havoc: ((key, value)...)
        self.tstorage = ()
        self.epoch = 0          # number of external calls: storage is arbitrary after each
        self.ngas = 0
        self.ncall = 0
        self.ret = None         # index of the call whose return data is current
        self.reads = ()         # for checks that need to know what was read

    def copy(self):
        h = Host.__new__(Host)
        h.__dict__.update(self.__dict__)
        return h

    def stamp(self):
        return (id(self.events), len(self.events), self._k(self.storage), self._k(self.tstorage), self.epoch, self.ngas, self.ncall, self.ret)

    @staticmethod
    def _k(s):
        return id(s) if s else 0

    # ------------------------------------------------------------ semantic operations (shared with the reference)
    def _base(self, which):
        if self.epoch == 0:
            return self.env.storage0 if which == 'storage' else self.env.tstorage0
        return z3.Array('%s%s%d' % (self.env.prefix, which, self.epoch), B256, B256)

    def _load(self, which, key):
        log = getattr(self, which)
        a = self._base(which)
        # newest first: syntactic hit, or provably different constants
        for k, v in reversed(log):
            if bv.same(k, key):
                return v
            if not (isinstance(k, int) and isinstance(key, int)):
                break
        else:
            r = bv.atom(z3.Select(a, bv.z(key, 256)))
            USES.append((which + str(self.epoch), [(key, 256)], r))
            return r
        USES.append((which + str(self.epoch), [(key, 256)], bv.atom(z3.Select(a, bv.z(key, 256)))))
        for k, v in log:
            a = z3.Store(a, bv.z(k, 256), bv.z(v, 256))
        return bv.atom(z3.Select(a, bv.z(key, 256)))

    def sload(self, key):
        return self._load('storage', key)

    def tload(self, key):
        return self._load('tstorage', key)

    def sstore(self, key, v):
        self.storage += ((key, v),)
        self.events += (('sstore', (key, 256), (v, 256)),)

    def tstore(self, key, v):
        self.tstorage += ((key, v),)
        self.events += (('tstore', (key, 256), (v, 256)),)

    def gas(self):
        self.ngas += 1
        return self.env.word('gas%d' % (self.ngas - 1), 64)

    def log(self, data, topics):
        self.events += (('log%d' % len(topics), bytesval(data)) + tuple((t, 256) for t in topics),)

    def ext_call(self, kind, gas, addr, value, data):
        self.events += ((kind, (gas, 64), (addr, 160), (value, 256), bytesval(data)),)
        k = self.ncall
        self.ncall += 1
        self.epoch += 1
        self.storage = self.tstorage = ()
        self.ret = k
        return k

    def create(self, value, code, data, salt):
        kind = 'create' if salt is None else 'create2'
        ev = (kind, (value, 256), bytesval(code), bytesval(data))
        if salt is not None:
            ev += ((salt, 256),)
        self.events += (ev,)
        k = self.ncall
        self.ncall += 1
        self.epoch += 1
        self.storage = self.tstorage = ()
        self.ret = k
        return k

    # ------------------------------------------------------------ host API imports
    def call(self, ex, st, name, args):
        h = getattr(self, 'h_' + name, None)
        env = self.env
        if name in WORDS:
            def f(s, p):
                ex.store(s, p, bv.bswap(env.word(WORDS[name], 256), 256), 32)
            return each(ex, st, args[:1], f)
        if name in ADDRS:
            def f(s, p):
                v = env.word(ADDRS[name], 160)
                ex.store(s, p, bv.bswap(v, 160), 20)
            return each(ex, st, args[:1], f)
        if name in I64S:
            return [(st, env.word(I64S[name], 64))]
        if h is None:
            raise Trap('call of unknown import %s' % name)
        return h(ex, st, args)

    def h_getCallDataSize(self, ex, st, a):
        return [(st, self.env.cdsize)]

    def h_callDataCopy(self, ex, st, a):
        env = self.env

        def f(s, dst, off, n):
            if off + n > env.max_calldata:
                raise Trap('callDataCopy past the end of the calldata')
            end = off + n
            if n:
                c = bv.ule(end, env.cdsize, 32)
                if not isinstance(c, bool) and not env.zero_pad:
                    if ex.solver.feasible(s.pc, bv.bnot(c)):
                        bad = s.fork()
                        bad.pc.append(bv.bnot(c))
                        ex.finish(bad, ('trap', 'callDataCopy past the end of the calldata'))
                        if not ex.solver.feasible(s.pc, c):
                            return DEAD
                        s.pc.append(c)
                elif c is False:
                    raise Trap('callDataCopy past the end of the calldata')
                ex.store_bytes(s, dst, env.cd[off:end])
        return each(ex, st, a, f)

    def h_getBlockHash(self, ex, st, a):
        v = uf('blockhash', [(a[0], 64)])

        def f(s, p):
            ex.store(s, p, bv.bswap(v, 256), 32)
            return 0
        return each(ex, st, a[1:], f)

    def h_getGasLeft(self, ex, st, a):
        return [(st, st.host.gas())]

    def _addr(self, ex, s, p):
        return bv.bswap(ex.load(s, p, 20), 160)

    def h_getExternalBalance(self, ex, st, a):
        def f(s, p, r):
            ex.store(s, r, bv.bswap(uf('balance', [(self._addr(ex, s, p), 160)]), 256), 32)
        return each(ex, st, a, f)

    def h_getExternalCodeHash(self, ex, st, a):
        def f(s, p, r):
            ex.store(s, r, bv.bswap(uf('extcodehash', [(self._addr(ex, s, p), 160)]), 256), 32)
        return each(ex, st, a, f)

    def h_getExternalCodeSize(self, ex, st, a):
        def f(s, p):
            return bv.zext(bv.trunc(uf('extcodesize', [(self._addr(ex, s, p), 160)]), 31), 31, 32)
        return each(ex, st, a, f)

    def h_externalCodeCopy(self, ex, st, a):
        def f(s, p, r, off, n):
            ad = self._addr(ex, s, p)
            ex.store_bytes(s, r, [extcode_byte(ad, off + i) for i in range(n)])
        return each(ex, st, a, f)

    def h_storageLoad(self, ex, st, a):
        def f(s, k, r):
            ex.store(s, r, bv.bswap(s.host.sload(bv.bswap(ex.load(s, k, 32), 256)), 256), 32)
        return each(ex, st, a, f)

    def h_storageStore(self, ex, st, a):
        def f(s, k, r):
            s.host.sstore(bv.bswap(ex.load(s, k, 32), 256), bv.bswap(ex.load(s, r, 32), 256))
        return each(ex, st, a, f)

    def h_storageLoadLittleEndian(self, ex, st, a):
        def f(s, k, r):
            ex.store(s, r, s.host.sload(bv.bswap(ex.load(s, k, 32), 256)), 32)
        return each(ex, st, a, f)

    def h_storageStoreLittleEndian(self, ex, st, a):
        def f(s, k, r):
            s.host.sstore(bv.bswap(ex.load(s, k, 32), 256), ex.load(s, r, 32))
        return each(ex, st, a, f)

    def h_transientLoad(self, ex, st, a):
        def f(s, k, r):
            ex.store(s, r, bv.bswap(s.host.tload(bv.bswap(ex.load(s, k, 32), 256)), 256), 32)
        return each(ex, st, a, f)

    def h_transientStore(self, ex, st, a):
        def f(s, k, r):
            s.host.tstore(bv.bswap(ex.load(s, k, 32), 256), bv.bswap(ex.load(s, r, 32), 256))
        return each(ex, st, a, f)

    def h_getCodeSize(self, ex, st, a):
        return [(st, self.env.codesize)]

    def h_codeCopy(self, ex, st, a):
        env = self.env

        def f(s, r, off, n):
            c = bv.ule(off + n, env.codesize, 32) if off + n < 1 << 31 else False
            if n and c is not True:
                if c is False:
                    raise Trap('codeCopy past the end of the code')
                if ex.solver.feasible(s.pc, bv.bnot(c)):
                    bad = s.fork()
                    bad.pc.append(bv.bnot(c))
                    ex.finish(bad, ('trap', 'codeCopy past the end of the code'))
                    if not ex.solver.feasible(s.pc, c):
                        return DEAD
                    s.pc.append(c)
            ex.store_bytes(s, r, [code_byte(env, off + i) for i in range(n)])
        return each(ex, st, a, f)

    def h_keccak256(self, ex, st, a):
        def f(s, p, n, r):
            ex.store(s, r, bv.bswap(keccak_term(ex.load_bytes(s, p, n)), 256), 32)
        return each(ex, st, a, f)

    def h_sha256(self, ex, st, a):
        raise Trap('sha256 is not used')

    def _modop(self, ex, st, a, name):
        def f(s, x, y, n, r):
            v = [bv.bswap(ex.load(s, p, 32), 256) for p in (x, y, n)]
            ex.store(s, r, bv.bswap(modop(name, *v), 256), 32)
        return each(ex, st, a, f)

    def h_addmod(self, ex, st, a):
        return self._modop(ex, st, a, 'addmod')

    def h_mulmod(self, ex, st, a):
        return self._modop(ex, st, a, 'mulmod')

    # calls
    def _call_api(self, ex, st, kind, gas, args, has_value):
        def f(s, *p):
            if has_value:
                addr, val, d, n = p
                v = bv.bswap(ex.load(s, val, 32), 256)
            else:
                addr, d, n = p
                v = 0
            k = s.host.ext_call(kind, gas, self._addr(ex, s, addr), v, ex.load_bytes(s, d, n))
            for c in self.env.call_pre(k):
                if not isinstance(c, bool):
                    s.pc.append(c)
            return self.env.call_result(k)[0]
        return each(ex, st, args, f)

    def h_callContract(self, ex, st, a):
        return self._call_api(ex, st, 'call', a[0], a[1:], True)

    def h_callCode(self, ex, st, a):
        return self._call_api(ex, st, 'callcode', a[0], a[1:], True)

    def h_callDelegate(self, ex, st, a):
        return self._call_api(ex, st, 'delegatecall', a[0], a[1:], False)

    def h_callStatic(self, ex, st, a):
        return self._call_api(ex, st, 'staticcall', a[0], a[1:], False)

    def h_createContract(self, ex, st, a):
        val, code, clen, data, dlen, salt, is2, res = a

        def f(s, val, code, clen, data, dlen, salt, is2, res):
            sv = bv.bswap(ex.load(s, salt, 32), 256) if is2 else None
            k = s.host.create(bv.bswap(ex.load(s, val, 32), 256), ex.load_bytes(s, code, clen), ex.load_bytes(s, data, dlen), sv)
            for c in self.env.call_pre(k):
                if not isinstance(c, bool):
                    s.pc.append(c)
            status, sz, bs, ad = self.env.call_result(k)
            out = []
            for s2, ok in ex.split(s, bv.eq(status, 0, 32)):
                if ok:
                    ex.store(s2, res, bv.bswap(ad, 160), 20)
                out.append((s2, status))
            return Many(out)
        return each(ex, st, a, f)

    def h_getReturnDataSize(self, ex, st, a):
        return [(st, 0 if self.ret is None else self.env.call_result(self.ret)[1])]

    def h_returnDataCopy(self, ex, st, a):
        env = self.env

        def f(s, dst, off, n):
            if n == 0:
                return
            if s.host.ret is None:
                raise Trap('returnDataCopy past the end of the return data')
            _, sz, bs, _ = env.call_result(s.host.ret)
            if off + n > env.max_ret:
                raise Trap('returnDataCopy past the end of the return data')
            c = bv.ule(off + n, sz, 32)
            if c is False:
                raise Trap('returnDataCopy past the end of the return data')
            if c is not True and ex.solver.feasible(s.pc, bv.bnot(c)):
                bad = s.fork()
                bad.pc.append(bv.bnot(c))
                ex.finish(bad, ('trap', 'returnDataCopy past the end of the return data'))
                if not ex.solver.feasible(s.pc, c):
                    return DEAD
                s.pc.append(c)
            ex.store_bytes(s, dst, bs[off:off + n])
        return each(ex, st, a, f)

    def h_emitLogEvent(self, ex, st, a):
        def f(s, d, n, nt, *t):
            if nt > 4:
                raise Trap('more than four topics')
            s.host.log(ex.load_bytes(s, d, n), [bv.bswap(ex.load(s, p, 32), 256) for p in t[:nt]])
        return each(ex, st, a, f)

    # termination
    def h_finish(self, ex, st, a):
        def f(s, d, n):
            ex.finish(s, ('finish', ex.load_bytes(s, d, n)))
            return DEAD
        return each(ex, st, a, f)

    def h_revert(self, ex, st, a):
        def f(s, d, n):
            ex.finish(s, ('revert', ex.load_bytes(s, d, n)))
            return DEAD
        return each(ex, st, a, f)

    def h_invalid(self, ex, st, a):
        ex.finish(st, ('invalid',))
        return []

    def h_selfDestruct(self, ex, st, a):
        def f(s, p):
            ex.finish(s, ('selfdestruct', (self._addr(ex, s, p), 160)))
            return DEAD
        return each(ex, st, a, f)

    def h_debug_bytes(self, ex, st, a):
        return [(st, None)]


class Many:
    def __init__(self, l):
        self.l = l


DEAD = object()


def each(ex, st, args, f):
    """Run f once per feasible concrete value of the arguments; a Trap ends that path."""
    todo = [(st, [])]
    for a in args:
        nxt = []
        for s, vs in todo:
            for s2, v in ex.concretize(s, a, 32, 'host argument'):
                nxt.append((s2, vs + [v]))
        todo = nxt
    out = []
    for s, vs in todo:
        try:
            r = f(s, *vs)
        except Trap as e:
            ex.finish(s, ('trap', e.kind))
            continue
        if r is DEAD:
            continue
        if isinstance(r, Many):
            out.extend(r.l)
        else:
            out.append((s, r))
    return out


def bytesval(bs):
    return (bv.from_bytes_be(bs) if bs else 0, 8 * len(bs))


def extcode_byte(addr, i):
    return bv.trunc(uf('extcode', [(addr, 160), (i & 0xffffffff, 32)]), 8)


def code_byte(env, i):
    if i < env.max_code:
        return env.code[i]
    return bv.trunc(uf('code', [(i & 0xffffffff, 32)]), 8)


_mod = {}


def modop(name, a, b, n):
    """(a op b) mod n without wrap-around, 0 if n is 0: kept abstract (both sides share the host's operation)."""
    if isinstance(a, int) and isinstance(b, int) and isinstance(n, int):
        return 0 if n == 0 else ((a + b) if name == 'addmod' else a * b) % n
    return uf(name, [(a, 256), (b, 256), (n, 256)])

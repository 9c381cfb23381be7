"""S05-S07: calldata, EVM memory, persistent words."""
import bv, std, check, evm, host, sym
from std import Step, P, R, I64
from evm import be_bytes

OUT = 512


def w(name):
    return bv.var(name, 256)


def cdbyte(env, c, off, i):
    """calldata byte off+i for a symbolic 32-bit offset the path has already fixed."""
    return env.calldata_byte(off + i)


def loaded(env, c, off):
    """calldataload(off): off any 32-bit value."""
    size = env.cdsize
    if c.branch(bv.ule(size, off, 32)):
        return 0
    o = c.concrete(off, 32)
    return bv.from_bytes_be([env.calldata_byte(o + i) for i in range(32)])


def rng(v, lo, hi, wd=32):
    """lo <= v <= hi"""
    return [c for c in (bv.ule(lo, v, wd), bv.ule(v, hi, wd)) if not isinstance(c, bool)]


def S05(ck):
    big = ck.thorough
    ranges = [(0, 3), (4, 5), (31, 36), (67, 68), (98, 103)] if not big else [(0, 8), (9, 30), (31, 40), (41, 66), (67, 72), (98, 103), (104, 132)]
    ck.bounds = ['calldata sizes %s, every calldata content' % ', '.join('%d..%d' % r for r in ranges), 'every 32-bit load offset; copies of 0..40 bytes to the window 0..8 from every 32-bit source offset below 2^32 - 64',
                 'sequences of up to three reads']
    off, off2 = bv.var('off', 32), bv.var('off2', 32)
    for lo, hi in ranges:
        def mk(lo=lo, hi=hi):
            e = host.Env(max_calldata=hi)
            e.pre += rng(e.cdsize, lo, hi)
            ck.assumptions = ['the host returns the calldata bytes it is asked for and treats a request past the end as fatal']
            mk.e = e
            return e
        nm = 'size_%d_%d' % (lo, hi)
        L = lambda c, o=off: loaded(mk.e, c, o)
        std.check_ops(ck, 'load_u256 ' + nm, [(Step('wrapper_calldataload_u256', [off, P(OUT)], [(OUT, w('junk'), 'le')], [(OUT, 'le')]), lambda c, h, m: (None, (L(c),)))], env=mk, merge_top=False)
        std.check_ops(ck, 'load_bytes32 ' + nm, [(Step('wrapper_calldataload_bytes32', [off, P(OUT)], [(OUT, w('junk'), 'be'), (OUT - 32, w('n1'), 'be'), (OUT + 32, w('n2'), 'be')], [(OUT, 'be'), (OUT - 32, 'be'), (OUT + 32, 'be')]),
                                                  lambda c, h, m: (None, (L(c), w('n1'), w('n2'))))], env=mk)
        sel = lambda c, h, m: bv.from_bytes_be([mk.e.calldata_byte(i) for i in range(4)])
        std.check_ops(ck, 'selector and sizes ' + nm, [(Step('wrapper_calldata_load_selector', [], ret=32), sel), (Step('wrapper_calldata_size', [], ret=32), lambda c, h, m: mk.e.cdsize),
                                                       (Step('wrapper_calldata_size_minus_4', [], ret=32), lambda c, h, m: bv.sub(mk.e.cdsize, 4, 32)), (Step('wrapper_calldata_load_selector', [], ret=32), sel)], env=mk)
        # a selector read, then a load, then the selector again: caching must not change what is read
        fixed = [0, 4, 36, 68] if big else [4, 36]
        for o in fixed:
            std.check_ops(ck, 'selector then load %d %s' % (o, nm), [(Step('wrapper_calldata_load_selector', [], ret=32), sel),
                                                                      (Step('wrapper_calldataload_u256', [o, P(OUT)], [], [(OUT, 'le')]), lambda c, h, m, o=o: (None, (loaded(mk.e, c, o),))),
                                                                      (Step('wrapper_calldataload_bytes32', [o, P(OUT)], [], [(OUT, 'be')]), lambda c, h, m, o=o: (None, (loaded(mk.e, c, o),)))], env=mk)
        # copies
        n = bv.var('n', 32)
        dst = bv.var('dst', 32)

        def cp(c, h, m):
            d, k = c.concrete(dst, 32), c.concrete(n, 32)
            if c.branch(bv.ule(mk.e.cdsize, off, 32)):
                m.store(d, [0] * k)
                return
            o = c.concrete(off, 32)
            m.store(d, [mk.e.calldata_byte(o + i) for i in range(k)])
        a, b = w('a'), w('b')
        for (dl, dh), (nl, nh), (ol, oh) in [((3, 3), (0, 40), (0, 0)), ((0, 8), (5, 5), (1, 1)), ((7, 7), (33, 33), (0, (1 << 32) - 65)), ((0, 0), (4, 4), (0, (1 << 32) - 65))] + ([((0, 0), (0, 36), (2, 7))] if big else []):
            std.check_ops(ck, 'copy dst %d..%d len %d..%d from %x..%x %s' % (dl, dh, nl, nh, ol, oh, nm), [
                (Step('wrapper_mstore_bytes32', [0, P(0)], [(0, a, 'be')]), lambda c, h, m: m.store_word(0, a)),
                (Step('wrapper_mstore_bytes32', [32, P(0)], [(0, b, 'be')]), lambda c, h, m: m.store_word(32, b)),
                (Step('wrapper_calldata_copy', [dst, off, n]), cp),
                (Step('wrapper_return', [0, 64]), lambda c, h, m: evm.finish(m.load(0, 64)))], env=mk, pre=rng(dst, dl, dh) + rng(n, nl, nh) + rng(off, ol, oh))


# ---------------------------------------------------------------- EVM memory
def mstore(fn, off, name, args=(), small=None):
    """(Step, ref) of one store; off may be symbolic."""
    v = {'bytes32': lambda: w(name), 'u256': lambda: w(name), 'u32': lambda: bv.var(name, 32), 'u64': lambda: bv.var(name, 64), 'u8': lambda: bv.var(name, 8)}[fn]()
    o = lambda c: c.concrete(off, 32)
    if fn == 'bytes32':
        return Step('wrapper_mstore_bytes32', [off, P(0)], [(0, v, 'be')]), lambda c, h, m: m.store_word(o(c), v)
    if fn == 'u256':
        return Step('wrapper_mstore_u256', [off, P(64)], [(64, v, 'le')]), lambda c, h, m: m.store_word(o(c), v)
    if fn == 'u8':
        return Step('wrapper_mstore_u8', [off, bv.zext(v, 8, 32)]), lambda c, h, m: m.store(o(c), [v])
    n = 32 if fn == 'u32' else 64
    return Step('wrapper_mstore_' + fn, [off, v if n == 32 else I64(v)]), lambda c, h, m: m.store_word(o(c), bv.zext(v, n, 256))


def ret(lo, n):
    return Step('wrapper_return', [lo, n]), lambda c, h, m: evm.finish(m.load(lo, n))


def mload(off):
    """Every load width at one offset, into scratch."""
    o = lambda c: c.concrete(off, 32)
    return [(Step('wrapper_mload_bytes32', [off, P(OUT)], [(OUT, w('junk'), 'be'), (OUT + 32, w('n2'), 'be')], [(OUT, 'be'), (OUT + 32, 'be')]), lambda c, h, m: (None, (m.word(o(c)), w('n2')))),
            (Step('wrapper_mload_u256', [off, P(OUT)], [(OUT, w('junk'), 'be')], [(OUT, 'le')]), lambda c, h, m: (None, (m.word(o(c)),))),
            (Step('wrapper_mload_u64', [off], [], [], 64), lambda c, h, m: bv.trunc(m.word(o(c)), 64)),
            (Step('wrapper_mload_u32', [off], [], [], 32), lambda c, h, m: bv.trunc(m.word(o(c)), 32))]


WIDTHS = ('bytes32', 'u256', 'u32', 'u64', 'u8')


def S06(ck):
    big = ck.thorough
    win = 70 if big else 40
    ck.bounds = ['every stored value; store and load offsets over windows of %d at 0, at 16384, at 65536 and at 131072 (the static buffer and the page boundaries), and three offsets up to 1 MiB' % (win + 1),
                 'sequences of up to four memory operations, both memory placements (separate pages, static 16 KiB buffer)', 'copies of up to 40 bytes; loads, returns and hashes of memory never written before']
    x = bv.var('x', 32)
    y = bv.var('y', 32)
    for small in (False, True):
        t = 'static buffer' if small else 'own pages'
        kw = dict(small=small, env=lambda: host.Env(max_calldata=0, size=0))
        # one store of each width at any offset of the window over existing contents, everything around read back
        for fn in WIDTHS:
            for base in ([0, 16384 - 48, 65536 - 48] if not big else [0, 16384 - 48, 65536 - 48, 131072 - 48]):
                if base and fn in ('u256', 'u64') and not big:
                    continue
                lo, hi = base, base + win
                std.check_ops(ck, 'store %s at %d..%d, %s' % (fn, lo, hi, t), [mstore('bytes32', base + 8, 'a'), mstore('bytes32', base + 40, 'b'), mstore(fn, x, 'v'), ret(base, 104)], pre=rng(x, lo, hi), **kw)
        # loads of each width at any offset
        for base in ([0, 16384 - 64, 65536 - 64] if not big else [0, 16384 - 64, 65536 - 64, 131072 - 64]):
            std.check_ops(ck, 'load at %d..%d, %s' % (base, base + win, t), [mstore('bytes32', base + 16, 'a'), mstore('u256', base + 48, 'b')] + mload(x), pre=rng(x, base, base + win), **kw)
        # growth keeps what was there: write low, write high, read low
        for hi in (16352, 16384, 20000, 65504, 65505, 65536, 70000, 131072, 200000, 1000000):
            for fn in (WIDTHS if big else ('bytes32', 'u8', 'u32')):
                std.check_ops(ck, 'grow to %d by %s, %s' % (hi, fn, t), [mstore('bytes32', 0, 'a'), mstore('bytes32', 16352, 'b') if hi > 16400 else mstore('bytes32', 96, 'b'), mstore(fn, hi, 'v')] + mload(hi) + mload(0) + mload(16352) + [ret(0, 128)], **kw)
        # memory never written reads as zero, however far out, and a read does not fault
        for off in (0, 96, 16380, 16384, 65500, 65536, 140000, 1000000):
            std.check_ops(ck, 'fresh memory at %d, %s' % (off, t), mload(off) + [mstore('bytes32', 64, 'a')] + mload(off) + [ret(off, 64)], **kw)
            std.check_ops(ck, 'fresh memory hashed at %d, %s' % (off, t), [(Step('wrapper_keccak256', [off, 64, P(OUT)], [], [(OUT, 'be')]), lambda c, h, m, off=off: (None, (host.keccak_term(m.load(off, 64)),)))], **kw)
            std.check_ops(ck, 'fresh memory reverted at %d, %s' % (off, t), [(Step('wrapper_revert', [off, 64]), lambda c, h, m, off=off: evm.revert(m.load(off, 64)))], **kw)
            std.check_ops(ck, 'fresh memory logged at %d, %s' % (off, t), [(Step('wrapper_log0', [off, 64]), lambda c, h, m, off=off: h.log(m.load(off, 64), [])), ret(0, 0)], **kw)
        # an empty range is never touched, wherever it is said to start
        for o in (0, 1 << 20, (1 << 31) - 1):
            std.check_ops(ck, 'empty ranges at %d, %s' % (o, t), [(Step('wrapper_keccak256', [o, 0, P(OUT)], [], [(OUT, 'be')]), lambda c, h, m: (None, (host.keccak_term([]),))), (Step('wrapper_log0', [o, 0]), lambda c, h, m: h.log([], [])), ret(o, 0)], **kw)
            std.check_ops(ck, 'empty revert at %d, %s' % (o, t), [(Step('wrapper_revert', [o, 0]), lambda c, h, m: evm.revert([]))], **kw)
        # copies
        n = bv.var('n', 32)

        def mc(dst, src, ln):
            return Step('wrapper_mcopy', [dst, src, ln]), lambda c, h, m: m.copy(c.concrete(dst, 32), c.concrete(src, 32), c.concrete(ln, 32))
        pre2 = [mstore('bytes32', 16, 'a'), mstore('bytes32', 48, 'b')]
        std.check_ops(ck, 'mcopy to %s, %s' % ('0..40', t), pre2 + [mc(x, 24, 24), ret(0, 104)], pre=rng(x, 0, 60), **kw)
        std.check_ops(ck, 'mcopy from, %s' % t, pre2 + [mc(32, x, 24), ret(0, 104)], pre=rng(x, 0, 60), **kw)
        std.check_ops(ck, 'mcopy length, %s' % t, pre2 + [mc(20, 28, n), ret(0, 104)], pre=rng(n, 0, 40), **kw)
        std.check_ops(ck, 'mcopy length backwards, %s' % t, pre2 + [mc(28, 20, n), ret(0, 104)], pre=rng(n, 0, 40), **kw)
        for far in (16370, 65530, 131070):
            std.check_ops(ck, 'mcopy to far %d, %s' % (far, t), pre2 + [mc(far, 24, 40), ret(0, 96)], **kw)
            std.check_ops(ck, 'mcopy to far %d read back, %s' % (far, t), pre2 + [mc(far, 24, 40), ret(far - 8, 64)], **kw)
            std.check_ops(ck, 'mcopy from far %d, %s' % (far, t), pre2 + [mc(30, far, 40), ret(0, 96)], **kw)
        # overlapping stores of all widths in order
        for f1 in WIDTHS:
            for f2 in (WIDTHS if big else ('bytes32', 'u32', 'u8')):
                std.check_ops(ck, 'store %s then %s, %s' % (f1, f2, t), [mstore(f1, x, 'v1'), mstore(f2, y, 'v2'), ret(0, 80)], pre=rng(x, 0, 7) + rng(y, 0, 7) if not big else rng(x, 0, 12) + rng(y, 0, 12), **kw)
        # the size of memory
        ms = lambda: (Step('wrapper_memory_size', [], [], [], 64), lambda c, h, m: m.high)
        std.check_ops(ck, 'memory size, %s' % t, [ms(), mstore('bytes32', 0, 'a'), ms(), mstore('u256', 33, 'b'), ms(), mstore('u8', 96, 'v'), ms()] + mload(200)[:1] + [ms()] + mload(0)[:1] + [ms()], **kw)
        std.check_ops(ck, 'memory guard, %s' % t, [(Step('wrapper_memory_guard', [bv.var('g', 32)], [], [], 32), lambda c, h, m: None), mstore('bytes32', 128, 'a'), ret(96, 64)], pre=rng(bv.var('g', 32), 0, 512), **kw)

    g = bv.var('g', 32)
    std.check_ops(ck, 'memory guard result of small guards', [(Step('wrapper_memory_guard', [g], [], [], 'ge32'), lambda c, h, m: g)], pre=rng(g, 0, 96))
    std.check_ops(ck, 'memory guard result skips the reserved words', [(Step('wrapper_memory_guard', [g], [], [], 'ge32'), lambda c, h, m: 96)], pre=rng(g, 96, 512))
    std.check_ops(ck, 'memory guard result', [(Step('wrapper_memory_guard', [g], [], [], 'ge32'), lambda c, h, m: g)], pre=rng(g, 128, 512))


# ---------------------------------------------------------------- persistent words
def S07(ck):
    ck.bounds = ['every slot and value; sequences of up to five reads and writes through each interface, with slots that may or may not coincide']
    ck.assumptions = ['the host storage behaves as a map from 32-byte keys to 32-byte values']
    k1, k2, v1, v2 = w('k1'), w('k2'), w('v1'), w('v2')

    def st(kind, enc, k, v):
        """A store through one interface; (Step, ref)."""
        f = lambda c, h, m: (h.sstore if kind[0] == 's' else h.tstore)(k, v)
        if enc == 'u256':
            return Step('wrapper_%sstore_u256' % kind, [P(0), P(64)], [(0, k, 'le'), (64, v, 'le')]), f
        if enc == 'bytes32':
            return Step('wrapper_%sstore_bytes32' % kind, [P(0), P(64)], [(0, k, 'be'), (64, v, 'be')]), f
        return Step('wrapper_sstore_u256_using_little_endian_hostapi', [P(0), P(64)], [(0, k, 'be'), (64, v, 'le')]), f

    def ld(kind, enc, k):
        f = lambda c, h, m: (None, ((h.sload if kind[0] == 's' else h.tload)(k), w('n1'), w('n2')))
        o = lambda e: [(OUT, e), (OUT - 32, 'be'), (OUT + 32, 'be')]
        wr = [(0, k, 'be'), (OUT, w('junk'), 'be'), (OUT - 32, w('n1'), 'be'), (OUT + 32, w('n2'), 'be')]
        if enc == 'little':
            return Step('wrapper_sload_u256_using_little_endian_hostapi', [P(0), P(OUT)], wr, o('le')), f
        return Step('wrapper_%sload_%s' % (kind, enc), [P(0), P(OUT)], wr, o('le' if enc == 'u256' else 'be')), f
    for kind in 's', 't':
        encs = ('u256', 'bytes32', 'little') if kind == 's' else ('u256', 'bytes32')
        for e1 in encs:
            for e2 in encs:
                std.check_ops(ck, '%sstore %s, %sload %s, any slots' % (kind, e1, kind, e2), [st(kind, e1, k1, v1), ld(kind, e2, k2), st(kind, e2, k2, v2), ld(kind, e1, k1), ld(kind, e2, k2)])
            other = 't' if kind == 's' else 's'
            std.check_ops(ck, '%sstore %s leaves %sload alone' % (kind, e1, other), [st(kind, e1, k1, v1), ld(other, 'u256', k1), ld(other, 'bytes32', k2)])
    # immutables: what setimmutable writes once, loadimmutable reads
    n = bv.zext(bv.var('n', 64), 64, 256)
    n2 = bv.zext(bv.var('m', 64), 64, 256)
    seti = lambda k, v: Step('wrapper_setimmutable', [bv.var('off', 32), P(0), P(64)], [(0, k, 'le'), (64, v, 'le')])
    loadi = lambda k: Step('wrapper_loadimmutable', [P(0), P(OUT)], [(0, k, 'le'), (OUT, w('junk'), 'be')], [(OUT, 'le')])
    imm(ck, 'immutable set and read', [('set', n, v1), ('load', n)], seti, loadi)
    imm(ck, 'two immutables set and read', [('set', n, v1), ('set', n2, v2), ('load', n), ('load', n2)], seti, loadi)
    imm(ck, 'immutable set twice', [('set', n, v1), ('set', n, v2)], seti, loadi)


class Fresh(host.Host):
    """Storage as a new contract sees it: zero everywhere."""

    def _load(self, which, key):
        if self.epoch == 0 and which == 'storage':
            r = 0
            for k, v in self.storage:
                r = bv.ite(bv.eq(k, key, 256), v, r, 256)
            return r
        return host.Host._load(self, which, key)


def imm(ck, name, prog, seti, loadi):
    """Immutables are observed through loads only: where they are kept is the library's business."""
    steps = [seti(k, v) if op == 'set' else loadi(k) for op, k, *r in prog for v in (r or [0])]

    def f(v):
        S = std.Std(v, host.Env(max_calldata=0, size=0))
        S.ex.host_factory = lambda: Fresh(S.env)
        S.st.host = Fresh(S.env)
        n = 0
        for st in std.run_seq(S, steps):
            for c, r in check.ref_paths(S.ex.solver, st.pc, lambda c: immref(c, prog)):
                n += 1
                ck.witness[r[0]] = ck.witness.get(r[0], 0) + 1
                goal = st.out[0] == r[0]
                what = 'ends with %s, expected %s' % (st.out[:2], r[0])
                if goal and r[0] == 'return':
                    gs = [bv.eq(o[0], e, 256) for (_, o), e in zip(st.notes, r[1]) if e is not None]
                    goal = bv.band(*gs)
                    what = 'an immutable does not read back the value it was set to'
                m = ck.prover.prove(c.pc, goal)
                if m is not None:
                    job = std.concrete_job(S, steps, m)
                    got = check.run_node(job)
                    exp = [None if e is None else '%064x' % bv.evaluate(m, e, 256) for e in (r[1] if r[0] == 'return' else [])]
                    if got['outcome'][0] == r[0] and all(e is None or bytes.fromhex(x[0])[::-1].hex() == e for x, e in zip(got['reads'][1:], exp)):
                        raise check.Failure('counterexample does not reproduce: %s %s' % (what, got))
                    raise check.Violation('%s: observed %s' % (what, got['outcome'][:1] + [x[0] for x in got['reads'][1:] if x]), {'job': job, 'observed': got, 'expected': [r[0], exp]})
        return n
    for v in 'release', 'debug':
        std.mods(v)
        ck.case('%s[%s]' % (name, v), lambda v=v: f(v))


def immref(c, prog):
    done, res = [], []
    for op, k, *r in prog:
        if op == 'set':
            for k2, _ in done:
                if c.branch(bv.eq(k, k2, 256)):
                    return ('revert',)
            done.append((k, r[0]))
            res.append(None)
        else:
            e = 0
            for k2, v in done:
                if c.branch(bv.eq(k, k2, 256)):
                    e = v
            res.append(e)
    return ('return', res)


# ---------------------------------------------------------------- environment
def S08(ck):
    ck.bounds = ['every value of every environment word, every address and block number; no loop bound is cut']
    ck.assumptions = ['host answers are arbitrary but fixed within the transaction (gas left may change at every query)']
    E = lambda: host.Env(max_calldata=0, size=0)
    n1, n2 = w('n1'), w('n2')
    around = [(OUT, w('junk'), 'be'), (OUT - 32, n1, 'be'), (OUT + 32, n2, 'be')]

    def q(fn, val, enc, args=(), writes=(), case=None):
        def ref(c, h, m):
            return None, (val(h), n1, n2)
        std.check_ops(ck, case or fn, [(Step(fn, list(args) + [P(OUT)], around + list(writes), [(OUT, enc), (OUT - 32, 'be'), (OUT + 32, 'be')]), ref)], env=E)
    word = lambda n: lambda h: h.env.word(n, 256)
    addr = lambda n: lambda h: bv.zext(h.env.word(n, 160), 160, 256)
    for fn, n in {'wrapper_caller': 'caller', 'wrapper_current_contract': 'address', 'wrapper_origin': 'origin', 'wrapper_block_coin_base': 'coinbase'}.items():
        q(fn, addr(n), 'be')
    q('wrapper_block_prevRandao', word('prevrandao'), 'be')
    for fn, n in {'wrapper_callvalue': 'callvalue', 'wrapper_current_chainid': 'chainid', 'wrapper_current_base_fee': 'basefee', 'wrapper_current_blob_base_fee': 'blobbasefee', 'wrapper_gas_price': 'gasprice'}.items():
        q(fn, word(n), 'le')
    a = w('a')
    low = bv.trunc(a, 160)
    q('wrapper_query_balance', lambda h: host.uf('balance', [(low, 160)]), 'le', [P(0)], [(0, a, 'be')])
    q('wrapper_self_balance', lambda h: host.uf('balance', [(h.env.word('address', 160), 160)]), 'le')
    q('wrapper_extcode_hash', lambda h: host.uf('extcodehash', [(low, 160)]), 'be', [P(0)], [(0, a, 'be')])
    num = bv.var('num', 64)
    q('wrapper_block_hash', lambda h: host.uf('blockhash', [(num, 64)]), 'be', [I64(num)])
    std.check_ops(ck, 'callvalue not zero', [(Step('wrapper_callvalue_not_zero', [], [], [], 'bool'), lambda c, h, m: bv.bnot(bv.eq(h.env.word('callvalue', 256), 0, 256)))], env=E)
    std.check_ops(ck, 'extcodesize', [(Step('wrapper_extcode_size', [P(0)], [(0, a, 'be')], [], 32), lambda c, h, m: bv.zext(bv.trunc(host.uf('extcodesize', [(low, 160)]), 31), 31, 32))], env=E)
    for fn, n in {'wrapper_time_stamp': 'timestamp', 'wrapper_block_number': 'number', 'wrapper_gas_limit': 'gaslimit'}.items():
        std.check_ops(ck, fn, [(Step(fn, [], [], [], 64), lambda c, h, m, n=n: h.env.word(n, 64))] * 2, env=E)
    std.check_ops(ck, 'gas is asked anew every time', [(Step('wrapper_gas', [], [], [], 64), lambda c, h, m: h.gas())] * 3, env=E)
    b, nn = w('b'), w('m')
    for op in 'addmod', 'mulmod':
        std.check_ops(ck, op, [(Step('wrapper_' + op, [P(0), P(64), P(128), P(OUT)], around + [(0, a, 'be'), (64, b, 'be'), (128, nn, 'be')], [(OUT, 'be'), (OUT - 32, 'be'), (OUT + 32, 'be'), (0, 'be'), (64, 'be'), (128, 'be')]),
                                lambda c, h, m, op=op: (None, (host.modop(op, a, b, nn), n1, n2, a, b, nn)))], env=E)
    std.check_ops(ck, 'zero word', [(Step('wrapper_zero_bytes32', [], [], [], 32), lambda c, h, m: None), (Step(None, [], [], [(R(0), 'be')]), lambda c, h, m: (None, (0,)))], env=E)
    # external code
    x, n, o = bv.var('x', 32), bv.var('n', 32), bv.var('o', 32)

    def ec(c, h, m):
        d, k, s = c.concrete(x, 32), c.concrete(n, 32), c.concrete(o, 32)
        m.store(d, [host.extcode_byte(low, s + i) for i in range(k)])
    for (dl, dh), (nl, nh), (ol, oh) in [((0, 40), (5, 5), (3, 3)), ((4, 4), (0, 40), (1, 1)), ((4, 4), (33, 33), (0, 40)), ((16380, 16390), (8, 8), (0, 0)), ((65530, 65540), (8, 8), (0, 0)), ((131070, 131074), (0, 0), (0, 0))]:
        std.check_ops(ck, 'extcodecopy to %d..%d, %d..%d bytes from %d..%d' % (dl, dh, nl, nh, ol, oh), [
            mstore('bytes32', max(0, dl - 4), 'p'), mstore('bytes32', dl + 28, 'q'), (Step('wrapper_extcode_copy', [P(0), x, o, n], [(0, a, 'be')]), ec), ret(max(0, dl - 4), 96)], env=E, pre=rng(x, dl, dh) + rng(n, nl, nh) + rng(o, ol, oh))

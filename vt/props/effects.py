"""S09-S13: calls, creation, code, logs and halting, allocation, the ERC20 transfer shortcut."""
import bv, std, check, evm, host, sym
from std import Step, P, R, I64
from props.data import w, mstore, ret, rng, OUT

MASK160 = bv.mask(160)


def S09(ck):
    ck.bounds = ['every gas, address and value; argument data of 0..40 bytes, output areas of 0..40 bytes, return data of 0..40 bytes and every content', 'one or two calls in sequence']
    ck.assumptions = ['the host answers 0 for success, 1 for failure or 2 for failure, and keeps the return data of the last call']
    gas = bv.var('gas', 64)
    a, v = w('to'), w('val')
    ol, il, x = bv.var('ol', 32), bv.var('il', 32), bv.var('x', 32)
    env = lambda st=(0, 1, 2), **kw: (lambda: host.Env(max_calldata=0, size=0, **dict(dict(max_ret=40, ext_status=st), **kw)))
    memo = [mstore('bytes32', 0, 'm0'), mstore('bytes32', 32, 'm1'), mstore('bytes32', 64, 'm2')]

    def call(kind, in_off, in_len, out_off, out_len, to=a, val=v, short='any'):
        """short: what the reference says where a failing call returns less than the output area."""
        fn = {'call': 'wrapper_call_contract', 'delegatecall': 'wrapper_delegatecall', 'staticcall': 'wrapper_staticcall'}[kind]
        args = [I64(gas), P(0)] + ([P(64)] if kind == 'call' else []) + [in_off, in_len, out_off, out_len]

        def f(c, h, m):
            io, i, oo, o = [c.concrete(t, 32) for t in (in_off, in_len, out_off, out_len)]
            k = h.ext_call(kind, gas, bv.trunc(to, 160), val if kind == 'call' else 0, m.load(io, i))
            st, sz, bs, _ = h.env.call_result(k)
            ok = c.branch(bv.eq(st, 0, 32))
            m.touch(oo, o)
            if o:
                m.store(oo, bs[:min(c.concrete(sz, 32), o)])
            return int(ok)
        return Step(fn, args, [(0, to, 'be'), (64, val, 'le')], [], 32), f
    rds = Step('wrapper_returndata_size', [], [], [], 32), lambda c, h, m: 0 if h.ret is None else h.env.call_result(h.ret)[1]

    def rdc(dst, off, n):
        def f(c, h, m):
            d, o, k = c.concrete(dst, 32), c.concrete(off, 32), c.concrete(n, 32)
            sz = 0 if h.ret is None else h.env.call_result(h.ret)[1]
            if c.branch(bv.bnot(bv.ule(o + k, sz, 32))):
                raise check.Halt(('trap',) if k else ('any',))
            m.store(d, h.env.call_result(h.ret)[2][o:o + k] if k else [])
        return Step('wrapper_returndata_copy', [dst, off, n]), f
    for kind in 'call', 'delegatecall', 'staticcall':
        # the output area does not exceed the return data, or the call succeeds
        nb = [bv.bnot(bv.ule(bv.trunc(a, 160), 10, 160))]
        std.check_ops(ck, kind + ', argument lengths', memo + [call(kind, 4, il, 20, 0), rds, ret(0, 96)], env=env(), pre=rng(il, 0, 40) + nb)
        std.check_ops(ck, kind + ', argument offsets', memo + [call(kind, x, 36, 20, 0), ret(0, 96)], env=env(), pre=rng(x, 0, 40) + nb)
        std.check_ops(ck, kind + ' succeeds, output lengths', memo + [call(kind, 4, 36, 20, ol), rds, ret(0, 96)], env=env((0,)), pre=rng(ol, 0, 40) + nb)
        std.check_ops(ck, kind + ', output covered by the return data', memo + [call(kind, 4, 36, 20, ol), rds, ret(0, 96)], env=env(ret_size=40), pre=rng(ol, 0, 40) + nb)
        std.check_ops(ck, kind + ', output offsets', memo + [call(kind, 4, 36, x, 32), ret(0, 104)], env=env(ret_size=36), pre=rng(x, 0, 40) + nb)
        std.check_ops(ck, kind + ' to any address succeeds', memo + [call(kind, 4, 36, 20, 32), rds, ret(0, 96)], env=env((0,)))
        for pre_addr in range(0, 12):
            std.check_ops(ck, kind + ' to precompile %d' % pre_addr, memo + [call(kind, 4, 36, 20, 32, to=pre_addr), rds, ret(0, 96)], env=env((0, 1, 2), ret_size=None if pre_addr in (0, 11) else 0))
        std.check_ops(ck, kind + ', then return data', memo + [call(kind, 4, 4, 20, 0), rds, rdc(16, 3, x), ret(0, 96)], env=env(), pre=rng(x, 0, 38) + nb)
        std.check_ops(ck, kind + ', then return data offsets', memo + [call(kind, 4, 4, 20, 0), rdc(16, x, 8), ret(0, 96)], env=env(), pre=rng(x, 0, 34) + nb)
        std.check_ops(ck, kind + ' twice', memo + [call(kind, 4, 4, 20, 6), rds, call(kind, 8, 8, 24, 6, to=w('to2'), val=w('val2')), rds, ret(0, 96)], env=env(max_ret=8 if ck.thorough else 4), pre=nb + [bv.bnot(bv.ule(bv.trunc(w('to2'), 160), 10, 160))])
        # far output and argument areas grow the memory
        for far in (16380, 65530, 131070):
            std.check_ops(ck, kind + ' output at %d' % far, memo + [call(kind, 4, 4, far, 32), ret(far - 8, 64)], env=env(ret_size=36), pre=nb)
            std.check_ops(ck, kind + ' argument at %d' % far, memo + [mstore('bytes32', far, 'p'), call(kind, far - 4, 40, 20, 0), ret(0, 96)], env=env(), pre=nb)
        # storage is whatever the callee left
        std.check_ops(ck, kind + ' failing with short return data', memo + [call(kind, 4, 36, 20, 32), rds, ret(0, 96)], env=env((1,), ret_size=4), pre=nb)
        std.check_ops(ck, kind + ' failing without return data', memo + [call(kind, 4, 36, 20, 32), rds, ret(0, 96)], env=env((1,), ret_size=0), pre=nb)
        std.check_ops(ck, kind + ' reverted by the callee', memo + [call(kind, 4, 36, 20, 0), rds, ret(0, 96)], env=env((2,), ret_size=36), pre=nb)
        std.check_ops(ck, kind + ' fails, output lengths', memo + [call(kind, 4, 36, 20, ol), rds, ret(0, 96)], env=env((1, 2), max_ret=40 if ck.thorough else 12), pre=rng(ol, 0, 40 if ck.thorough else 12) + nb)
    std.check_ops(ck, 'no call yet', [rds, ret(0, 0)], env=env())


def S10(ck):
    ck.bounds = ['every value, salt and code content; init code of 0..24 bytes with 0..40 bytes of constructor data', 'code copies of 0..40 bytes around every boundary of code and constructor data, code sizes 0..48']
    ck.assumptions = ['creation status 0 is success']
    v, s = w('val'), w('salt')
    env = lambda st=(0,), **kw: (lambda: host.Env(max_calldata=0, size=0, ext_status=st, **kw))
    wl, cl = bv.var('wl', 8), bv.var('cl', 32)
    m0, m1, m2 = w('m0'), w('m1'), w('m2')

    def create(two, off, length, wasm_len):
        args = [P(0), off, length] + ([P(64)] if two else []) + [P(OUT)]

        def f(c, h, m):
            o, n, k = c.concrete(off, 32), c.concrete(length, 32), c.concrete(wasm_len, 8)
            k = h.create(v, m.load(o, 4 + k), m.load(o + 4 + k, n - 4 - k), s if two else None)
            st, _, _, ad = h.env.call_result(k)
            ok = c.branch(bv.eq(st, 0, 32))
            return None, (bv.zext(ad, 160, 256) if ok else 0,)
        return Step('wrapper_create2' if two else 'wrapper_create', args, [(0, v, 'le'), (64, s, 'le'), (OUT, w('old'), 'be')], [(OUT, 'be')], None), f

    def code_at(off, wasm_len):
        """Memory with a length prefix at off followed by arbitrary bytes."""
        b = bv.or_(bv.shl_c(bv.zext(wasm_len, 8, 256), 224, 256), bv.trunc(m0, 224) if False else bv.zext(bv.trunc(m0, 224), 224, 256), 256)
        return [(Step('wrapper_mstore_bytes32', [off, P(0)], [(0, b, 'be')]), lambda c, h, m: m.store_word(off, b)), mstore('bytes32', off + 32, 'm1'), mstore('bytes32', off + 64, 'm2')]
    for two in (False, True):
        nm = 'create2' if two else 'create'
        for off in (0, 3, 16370, 65530):
            std.check_ops(ck, '%s at %d' % (nm, off), code_at(off, wl) + [create(two, off, cl, wl), (Step('wrapper_returndata_size', [], [], [], 32), lambda c, h, m: h.env.call_result(h.ret)[1])],
                          env=env(), pre=[bv.ule(wl, 24, 8)] + [bv.ule(bv.add(bv.zext(wl, 8, 32), 4, 32), cl, 32), bv.ule(cl, 68, 32)] if off == 0 else [bv.ule(wl, 6, 8), bv.eq(cl, 40, 32)])
        std.check_ops(ck, '%s fails' % nm, code_at(0, wl) + [create(two, 0, 40, wl)], env=env((1, 2)), pre=[bv.ule(wl, 3, 8)])
        # code of more than 64 KiB, with a word at its end and one of constructor data behind it
        big = 65536 + 300
        std.check_ops(ck, '%s of large code' % nm, [(Step('wrapper_mstore_u32', [0, big], []), lambda c, h, m: m.store_word(0, big)), (Step('wrapper_mcopy', [0, 28, 4]), lambda c, h, m: m.copy(0, 28, 4)),
                      mstore('bytes32', 4 + big - 32, 'm1'), mstore('bytes32', 4 + big, 'm2'), create(two, 0, 4 + big + 32, big)], env=env())
    # code size and code copy
    off, n, x = bv.var('off', 32), bv.var('n', 32), bv.var('x', 32)
    hi = 48
    sizes = (Step('wrapper_current_contract_code_size', [], [], [], 32), lambda c, h, m: h.env.codesize), (Step('wrapper_current_contract_pure_contract_size', [], [], [], 32), lambda c, h, m: h.env.codesize)
    std.check_ops(ck, 'code size at run time', list(sizes), env=lambda: host.Env(max_calldata=8))
    dep = (Step('set_is_deploying_tx', []), lambda c, h, m: None)
    std.check_ops(ck, 'code size while deploying', [dep, (Step('wrapper_current_contract_code_size', [], [], [], 32), lambda c, h, m: bv.add(h.env.codesize, h.env.cdsize, 32)), sizes[1]], env=lambda: host.Env(max_calldata=8))

    def copy(deploy):
        def f(c, h, m):
            d, o, k = c.concrete(x, 32), c.concrete(off, 32), c.concrete(n, 32)
            cs, ds = c.concrete(h.env.codesize, 32), c.concrete(h.env.cdsize, 32)
            m.store(d, [host.code_byte(h.env, i) if i < cs else (h.env.cd[i - cs] if deploy and i - cs < ds else 0) for i in range(o, o + k)])
        return Step('wrapper_codecopy', [x, off, n]), f
    for deploy in (True, False):
        t = 'while deploying' if deploy else 'at run time'
        for (cl_, chh), (dl, dh), (nl, nh), (ol, oh), (xl, xh) in [((hi, hi), (0, 36), (32, 32), (hi, hi), (0, 0)), ((hi, hi), (36, 36), (8, 8), (0, hi + 40), (4, 4)), ((hi, hi), (36, 36), (0, 40), (44, 44), (0, 0)), ((hi, hi), (36, 36), (0, 88), (0, 0), (0, 0)),
                                                                 ((0, hi), (33, 33), (16, 16), (30, 30), (0, 0)), ((hi, hi), (0, 0), (0, 48), (8, 8), (0, 0)), ((hi, hi), (110, 110), (40, 40), (hi, hi + 80), (0, 0)), ((hi, hi), (36, 36), (8, 8), (20, 20), (0, 40)), ((hi, hi), (36, 36), (0, 0), (20, 20), (1 << 20, 1 << 20))]:
            def e(cl_=cl_, chh=chh, dl=dl, dh=dh):
                r = host.Env(max_calldata=dh, max_code=hi)
                r.pre += rng(r.codesize, cl_, chh) + rng(r.cdsize, dl, dh)
                return r
            std.check_ops(ck, 'codecopy %s: code %d..%d data %d..%d, %d..%d bytes from %d..%d to %d..%d' % (t, cl_, chh, dl, dh, nl, nh, ol, oh, xl, xh),
                          ([dep] if deploy else []) + [mstore('bytes32', 0, 'p'), mstore('bytes32', 32, 'q'), mstore('bytes32', 64, 'r'), copy(deploy), ret(0, 96)], env=e, pre=rng(off, ol, oh) + rng(n, nl, nh) + rng(x, xl, xh))
    # constant data, addressed relative to the start of the EVM memory
    for small in (False, True):
        for fn in 'wrapper_codecopy', 'wrapper_data_copy':
            for first in (0, 16380, 65530):
                data(ck, fn, first, small)
    a = w('a')
    std.check_ops(ck, 'selfdestruct', [(Step('wrapper_selfdestruct', [P(0)], [(0, a, 'be')]), lambda c, h, m: (_ for _ in ()).throw(check.Halt(('selfdestruct', (bv.trunc(a, 160), 160)))))], env=lambda: host.Env(max_calldata=0, size=0))


def data(ck, fn, far, small):
    """Copying 40 bytes of constant data (a scratch object stands in) to any small offset, or to a far one that grows the memory."""
    x = bv.var('x', 32)
    d0, d1 = w('d0'), w('d1')

    def f(variant):
        S = std.Std(variant, host.Env(max_calldata=0, size=0), small=small)
        base = S.ex.call(S.st, '@evm_get_memory_addr', [0])
        S.st = base[0][0]
        doff = bv.trunc((S.scratch + 100 - base[0][1]) & 0xffffffff, 32)
        dst = far if far else x
        ops = [mstore('bytes32', 0, 'p'), mstore('bytes32', 32, 'q'), (Step(fn, [dst, doff, 40], [(100, d0, 'be'), (132, d1, 'be')]), lambda c, h, m: m.store(c.concrete(dst, 32), evm.be_bytes(d0) + evm.be_bytes(d1)[:8])),
               (Step(fn, [4, doff, 8]), lambda c, h, m: m.store(4, evm.be_bytes(d0)[:8])), ret(far - 8 if far else 0, 96)]

        def ref(c, h):
            m = evm.Mem()
            for _, g in ops:
                g(c, h, m)
        S.st.pc.extend(rng(x, 0, 40))
        steps = [sp for sp, _ in ops]
        # natively the offset differs: tell the replay to compute it
        steps[2].args[1] = steps[3].args[1] = doff
        steps[2].native = steps[3].native = {1: ('rel', 100)}
        n = 0
        for st in std.run_seq(S, steps):
            n += std.compare(ck, S, steps, st, ref)
        return n
    for v in 'release', 'debug':
        std.mods(v)
        ck.case('%s of constant data to %s, %s[%s]' % (fn, far or '0..40', 'static buffer' if small else 'own pages', v), lambda v=v: f(v))


def S11(ck):
    ck.bounds = ['every topic and content; data of 0..40 bytes at offsets 0..40 and around 16384, 65536 and 131072']
    env = lambda: host.Env(max_calldata=0, size=0)
    x, n = bv.var('x', 32), bv.var('n', 32)
    T = [w('t%d' % i) for i in range(4)]
    memo = lambda b: [mstore('bytes32', b, 'm0'), mstore('bytes32', b + 32, 'm1')]

    def log(k, off, ln):
        return (Step('wrapper_log%d' % k, [off, ln] + [P(64 * i) for i in range(k)], [(64 * i, T[i], 'be') for i in range(k)]),
                lambda c, h, m: h.log(m.load(c.concrete(off, 32), c.concrete(ln, 32)), T[:k]))

    def end(fn, off, ln):
        return Step(fn, [off, ln]), lambda c, h, m: (evm.finish if fn == 'wrapper_return' else evm.revert)(m.load(c.concrete(off, 32), c.concrete(ln, 32)))
    for k in range(5):
        std.check_ops(ck, 'log%d lengths' % k, memo(0) + [log(k, 3, n), ret(0, 64)], env=env, pre=rng(n, 0, 40))
        std.check_ops(ck, 'log%d offsets' % k, memo(0) + [log(k, x, 20), ret(0, 64)], env=env, pre=rng(x, 0, 40))
        std.check_ops(ck, 'log%d twice' % k, memo(0) + [log(k, 0, 32), mstore('bytes32', 0, 'm3'), log(k, 0, 32), ret(0, 0)], env=env)
        # topics all the same object
        std.check_ops(ck, 'log%d one topic object' % k, memo(0) + [(Step('wrapper_log%d' % k, [0, 32] + [P(0)] * k, [(0, T[0], 'be')]), lambda c, h, m, k=k: h.log(m.load(0, 32), [T[0]] * k)), ret(0, 0)], env=env)
        for far in (16370, 65520, 131060):
            std.check_ops(ck, 'log%d at %d' % (k, far), memo(far) + [log(k, far - 4, 60), ret(far, 64)], env=env)
    for fn in 'wrapper_return', 'wrapper_revert':
        std.check_ops(ck, fn + ' lengths', memo(0) + [end(fn, 3, n)], env=env, pre=rng(n, 0, 60))
        std.check_ops(ck, fn + ' offsets', memo(0) + [end(fn, x, 24)], env=env, pre=rng(x, 0, 60))
        for far in (16370, 65520, 131060):
            std.check_ops(ck, '%s at %d' % (fn, far), memo(far) + [end(fn, far - 4, 60)], env=env)
        for small in (False, True):
            std.check_ops(ck, '%s after effects, %d' % (fn, small), memo(0) + [(Step('wrapper_sstore_bytes32', [P(0), P(64)], [(0, T[0], 'be'), (64, T[1], 'be')]), lambda c, h, m: h.sstore(T[0], T[1])), log(1, 0, 32), end(fn, 0, 64)], env=env, small=small)

    def halt(o):
        def f(c, h, m):
            raise check.Halt(o)
        return f
    std.check_ops(ck, 'stop', memo(0) + [(Step('wrapper_stop', []), halt(('finish', [])))], env=env)
    std.check_ops(ck, 'invalid', memo(0) + [(Step('wrapper_invalid', []), halt(('invalid',)))], env=env)
    # hashing
    for off, ln in ((x, 40), (3, n)):
        std.check_ops(ck, 'keccak256 of %s' % ('any offset' if off is x else 'any length'), memo(0) + [(Step('wrapper_keccak256', [off, ln, P(OUT)], [(OUT, w('junk'), 'be'), (OUT + 32, w('n2'), 'be')], [(OUT, 'be'), (OUT + 32, 'be')]),
                      lambda c, h, m, off=off, ln=ln: (None, (host.keccak_term(m.load(c.concrete(off, 32), c.concrete(ln, 32))), w('n2')))), ret(0, 64)], env=env, pre=rng(x, 0, 40) + rng(n, 0, 64))


def S12(ck):
    counts = [8, 299, 300, 301, 302, 700] + ([2345, 2348, 2349, 2350, 4500] if ck.thorough else [2349])
    ck.bounds = ['sequences of up to %d allocations interleaved with memory growth, every stored content' % max(counts)]
    for small in (False, True):
        for n in counts:
            for grow in (False, True):
                for v in ('release', 'debug') if n < 1000 or ck.thorough else ('release',):
                    std.mods(v)
                    ck.case('%d words%s, %s[%s]' % (n, ' and memory growth' if grow else '', 'static buffer' if small else 'own pages', v), lambda n=n, g=grow, s=small, v=v: alloc(ck, n, g, s, v))
    # the optimised free-memory pointer
    p, s1, s2 = bv.var('p', 32), bv.var('s1', 32), bv.var('s2', 32)
    up = lambda v: bv.and_(bv.add(v, 31, 32), 0xffffffe0, 32)
    setp = (Step('wrapper_set_memptr_global', [p]), lambda c, h, m: None)
    get = lambda e: (Step('wrapper_get_memptr_global', [], [], [], 32), lambda c, h, m: e)
    al = lambda s, e: (Step('wrapper_allocate_memory', [s], [], [], 32), lambda c, h, m: e)
    env = lambda: host.Env(max_calldata=0, size=0)
    std.check_ops(ck, 'memory pointer', [setp, get(p), get(p)], env=env)
    lim = rng(p, 0, 1 << 24) + rng(s1, 1, 1 << 24) + rng(s2, 1, 1 << 24)
    std.check_ops(ck, 'allocate_memory from an aligned pointer', [setp, al(s1, p), get(bv.add(p, up(s1), 32)), al(s2, bv.add(p, up(s1), 32)), get(bv.add(bv.add(p, up(s1), 32), up(s2), 32))], env=env, pre=lim + [bv.eq(bv.and_(p, 31, 32), 0, 32)])
    std.check_ops(ck, 'allocate_memory from any pointer', [setp, al(s1, p), get(bv.add(p, up(s1), 32))], env=env, pre=lim)
    std.check_ops(ck, 'allocate_memory of nothing', [setp, al(0, p), get(p)], env=env, pre=lim + [bv.eq(bv.and_(p, 31, 32), 0, 32)])


def alloc(ck, n, grow, small, variant):
    """n words are allocated one after another, each filled with its own content; all contents survive, and so does the EVM memory."""
    S = std.Std(variant, host.Env(max_calldata=0, size=0), small=small, max_steps=20000000)
    steps, exp = [], []
    a = w('a')
    val = lambda i: bv.xor(w('base'), i, 256)
    ops = [mstore('bytes32', 0, 'a')]
    where = []
    for i in range(n):
        where.append(len(ops))
        ops.append((Step('memory_alloca_u256' if i % 3 == 2 else 'memory_alloca_bytes32', [], [], [], 32), lambda c, h, m: None))
        ops.append((Step(None, [], [(R(where[-1]), val(i), 'be')]), lambda c, h, m: None))
        if grow and i in (150, 303, 1000, 2347):
            hi = {150: 20000, 303: 70000, 1000: 140000, 2347: 210000}[i]
            ops.append(mstore('bytes32', hi, 'g%d' % i))
    for i in range(n):
        ops.append((Step(None, [], [], [(R(where[i]), 'be')]), lambda c, h, m, i=i: (None, (val(i),))))
    if grow:
        for i in (150, 303, 1000, 2347):
            if i < n:
                hi = {150: 20000, 303: 70000, 1000: 140000, 2347: 210000}[i]
                ops.append((Step('wrapper_mload_bytes32', [hi, P(OUT)], [], [(OUT, 'be')]), lambda c, h, m, hi=hi: (None, (m.word(hi),))))
    ops.append(ret(0, 64) if not grow else ret(16384, 64))

    def ref(c, h):
        m = evm.Mem()
        return [g if isinstance(g, tuple) else (g, ()) for g in (f(c, h, m) for _, f in ops)]

    class Stop(Exception):
        pass
    # compare before the final return, which only closes the run
    steps = [sp for sp, _ in ops]

    def ref2(c, h):
        m = evm.Mem()
        res = []
        for (sp, f) in ops[:-1]:
            r = f(c, h, m)
            res.append(r if isinstance(r, tuple) else (r, (None,) * len(sp.outs)))
        return res
    k = 0
    steps = steps[:-1]
    for st in std.run_seq(S, steps):
        k += std.compare(ck, S, steps, st, ref2)
    return k


# ---------------------------------------------------------------- the ERC20 shortcut
TRANSFER = 0xddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef


def S13(ck):
    ck.bounds = ['every sender, recipient, amount and storage content']
    ck.assumptions = ['the Yul text quoted in the function is its specification; memory it leaves behind is not observed']
    f, t, v = w('from'), w('to'), w('value')

    def ref(c, h, m):
        a, b = [bv.and_(z, MASK160, 256) for z in (f, t)]
        be = evm.be_bytes
        if c.branch(bv.eq(bv.trunc(f, 160), 0, 160)):
            evm.revert(be(0x4b637e8f << 225) [:4] + [0] * 32)
        if c.branch(bv.eq(bv.trunc(t, 160), 0, 160)):
            evm.revert(be(0xec442f05 << 224)[:4] + [0] * 32)
        sf = host.keccak_term(be(a) + [0] * 32)
        bal = h.sload(sf)
        if c.branch(bv.ult(bal, v, 256)):
            evm.revert(be(0x391434e3 << 226)[:4] + be(a) + be(bal) + be(v))
        h.sstore(sf, bv.sub(bal, v, 256))
        st = host.keccak_term(be(b) + [0] * 32)
        h.sstore(st, bv.add(h.sload(st), v, 256))
        h.log(be(v), [TRANSFER, a, b])
        return None
    for name, pre in (('clean addresses', [bv.eq(bv.extract(z, 255, 160), 0, 96) for z in (f, t)]), ('any words', []), ('same account', [bv.eq(f, t, 256), bv.eq(bv.extract(f, 255, 160), 0, 96)])):
        std.check_ops(ck, name, [(Step('wrapper_optimized_erc20_fun_transfer', [P(0), P(64), P(128)], [(0, f, 'be'), (64, t, 'be'), (128, v, 'be')], []), ref)], env=lambda: host.Env(max_calldata=0, size=0), pre=pre)

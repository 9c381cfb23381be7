"""S01-S04: arithmetic of the standard library on 256-bit words."""
import z3
import bv, std, check
from std import Step, P, I64

OUT = 512


def w(name):
    return bv.var(name, 256)


def S01(ck):
    ck.bounds = ['all 2^256 words and all 32-bit integers; no loop bound is cut']
    a = w('a')
    v32 = bv.var('v', 32)
    # from the numeric (little-endian) representation to big-endian bytes and back
    ck_seq(ck, 'u256_to_bytes', [Step('u256_to_big_endian_bytes', [P(0), P(OUT)], [(0, a, 'le')], [(OUT, 'be')])], [(None, (a,))])
    ck_seq(ck, 'bytes_to_u256', [Step('u256_from_big_endian_bytes', [P(0), P(OUT)], [(0, a, 'be')], [(OUT, 'le')])], [(None, (a,))])
    ck_seq(ck, 'decode_mem', [Step('wrapper_decode_big_endian_i256_from_wasm_mem', [P(0), P(OUT)], [(0, a, 'be')], [(OUT, 'le')])], [(None, (a,))])
    ck_seq(ck, 'roundtrip', [Step('u256_to_big_endian_bytes', [P(0), P(64)], [(0, a, 'le')]), Step('u256_from_big_endian_bytes', [P(64), P(OUT)], [], [(OUT, 'le')])],
           [(None, ()), (None, (a,))])
    ck_seq(ck, 'i32_to_bytes', [Step('i32_to_bytes32_big_endian_bytes', [v32, P(OUT)], [(OUT, w('junk'), 'be')], [(OUT, 'be')])], [(None, (bv.zext(v32, 32, 256),))])
    ck_seq(ck, 'bytes_to_i32', [Step('i32_from_big_endian_bytes32', [P(0)], [(0, a, 'be')], [], 32)], [(bv.trunc(a, 32), ())])
    ck_seq(ck, 'i32_roundtrip', [Step('i32_to_bytes32_big_endian_bytes', [v32, P(0)]), Step('i32_from_big_endian_bytes32', [P(0)], [], [], 32)], [(None, ()), (v32, ())])
    # neighbouring bytes stay untouched
    n1, n2 = w('n1'), w('n2')
    for fn, enc in (('u256_to_big_endian_bytes', 'le'), ('u256_from_big_endian_bytes', 'be')):
        ck_seq(ck, fn + '_frame', [Step(fn, [P(0), P(OUT)], [(0, a, enc), (OUT - 32, n1, 'be'), (OUT + 32, n2, 'be')], [(OUT - 32, 'be'), (OUT + 32, 'be'), (0, enc)])], [(None, (n1, n2, a))])


def ck_seq(ck, name, steps, expected, **kw):
    std.check_seq(ck, name, steps, lambda c, h: expected, **kw)


def S02(ck):
    ck.bounds = ['all pairs of 256-bit words; operands and result may be the same object where stated']
    a, b = w('a'), w('b')
    two = [(0, a, 'be'), (64, b, 'be')]
    za, zb = a.z(), b.z()
    cmp = {'wrapper_bytes32_lt': z3.ULT(za, zb), 'wrapper_bytes32_gt': z3.UGT(za, zb), 'wrapper_bytes32_slt': za < zb, 'wrapper_bytes32_sgt': za > zb, 'wrapper_bytes32_eq': za == zb}
    for fn, e in cmp.items():
        ck_seq(ck, fn, [Step(fn, [P(0), P(64)], two, [(0, 'be'), (64, 'be')], 32)], [(bv.bool_to_bv(e, 32), (a, b))])
        # both operands the same object
        e2 = fn == 'wrapper_bytes32_eq'
        ck_seq(ck, fn + '_same', [Step(fn, [P(0), P(0)], two, [], 32)], [(int(e2), ())])
        # operands in the opposite address order
        ck_seq(ck, fn + '_swapped', [Step(fn, [P(64), P(0)], [(64, a, 'be'), (0, b, 'be')], [], 32)], [(bv.bool_to_bv(e, 32), ())])
    ck_seq(ck, 'wrapper_bytes32_iszero', [Step('wrapper_bytes32_iszero', [P(0)], two, [], 32)], [(bv.bool_to_bv(za == 0, 32), ())])
    res = {'wrapper_bytes32_and': bv.and_(a, b, 256), 'wrapper_bytes32_or': bv.or_(a, b, 256), 'wrapper_bytes32_xor': bv.xor(a, b, 256), 'wrapper_bytes32_add': bv.atom(za + zb)}
    n1, n2 = w('n1'), w('n2')
    for fn, e in res.items():
        ck_seq(ck, fn, [Step(fn, [P(0), P(64), P(OUT)], two + [(OUT - 32, n1, 'be'), (OUT + 32, n2, 'be')], [(OUT, 'be'), (0, 'be'), (64, 'be'), (OUT - 32, 'be'), (OUT + 32, 'be')])], [(None, (e, a, b, n1, n2))])
        ck_seq(ck, fn + '_inplace', [Step(fn, [P(0), P(64), P(0)], two, [(0, 'be'), (64, 'be')])], [(None, (e, b))])
    ck_seq(ck, 'wrapper_bytes32_not', [Step('wrapper_bytes32_not', [P(0), P(OUT)], two, [(OUT, 'be'), (0, 'be')])], [(None, (bv.not_(a, 256), a))])
    ck_seq(ck, 'wrapper_bytes32_not_inplace', [Step('wrapper_bytes32_not', [P(0), P(0)], two, [(0, 'be')])], [(None, (bv.not_(a, 256),))])


def shift_ref(a, k, left):
    """EVM shift by a 32-bit amount read as a non-negative integer below 2^31."""
    kz = z3.ZeroExt(224, k.z())
    return bv.atom(a.z() << kz if left else z3.LShR(a.z(), kz))


def S03(ck):
    ck.bounds = ['all 256-bit words; all shift amounts 0..2^31-1; all byte positions 0..2^32-1 for sign extension']
    a = w('a')
    k = bv.var('k', 32)
    nonneg = [bv.bnot(bv.slt(k, 0, 32))]

    def ref(left):
        def f(c, h):
            # one path per amount below 256, one for the rest
            if c.branch(bv.bnot(bv.ult(k, 256, 32))):
                return [(None, (0, a))]
            n = c.concrete(k, 32, limit=300)
            return [(None, (bv.shl_c(a, n, 256) if left else bv.lshr_c(a, n, 256), a))]
        return f
    for fn, left, enc in (('wrapper_bytes32_shl', 1, 'be'), ('wrapper_bytes32_shr', 0, 'be'), ('wrapper_u256_shl', 1, 'le'), ('wrapper_u256_shr', 0, 'le')):
        std.check_seq(ck, fn, [Step(fn, [P(0), k, P(OUT)], [(0, a, enc)], [(OUT, enc), (0, enc)])], ref(left), pre=nonneg, max_vals=300)
    b = bv.var('b', 32)

    def sx(c, h):
        if c.branch(bv.bnot(bv.ult(b, 31, 32))):
            return [(None, (a,))]
        n = c.concrete(b, 32)
        bits = 8 * (n + 1)
        return [(None, (bv.sext(bv.trunc(a, bits), bits, 256),))]
    std.check_seq(ck, 'wrapper_sign_extend', [Step('wrapper_sign_extend', [b, P(0), P(OUT)], [(0, a, 'le')], [(OUT, 'le')])], sx, max_vals=300)


def S04(ck):
    bits = 10 if ck.thorough else 6
    step = 1 if ck.thorough else 6
    ck.bounds = ['every 256-bit base with every exponent below 2^%d' % bits,
                 'every 256-bit base with every exponent t * 2^k + c, t < 16, k = 0, %d, ... 252, c in {0, 1, 2^k - 1}' % step,
                 'products are compared modulo associativity and commutativity of multiplication modulo 2^256, an identity of the ring applied before the solver']
    a = w('a')

    def power(n):
        r, sq = 1, a
        while n:
            if n & 1:
                r = bv.mul(r, sq, 256)
            n >>= 1
            if n:
                sq = bv.mul(sq, sq, 256)
        return r

    def ob(name, e, n, **kw):
        def ref(c, h):
            x = c.concrete(e, 256, limit=1 << n)
            return [(None, (power(x),))]
        std.check_seq(ck, name, [Step('wrapper_exp', [P(0), P(64), P(OUT)], [(0, a, 'le'), (64, e, 'le')], [(OUT, 'le')])], ref, max_vals=1 << n, fork_select=True, **kw)
    ob('exp_small', bv.zext(bv.var('e', bits), bits, 256), bits)
    t = bv.var('t', 4)
    for k in range(0, 253, step):
        for c in sorted({0, 1 if k else 0, (1 << k) - 1}):
            e = bv.or_(bv.shl_c(bv.zext(t, 4, 256), k, 256), c, 256)
            ob('exp_window_%d_%s' % (k, '0' if c == 0 else '1' if c == 1 else 'ones'), e, 4, variants=('release', 'debug') if ck.thorough else ('release',))
    # zero to the zero, and the boundary bases, with any small exponent
    for base in (0, 1, bv.mask(256), 1 << 255):
        e = bv.var('e', bits)

        def rf(c, h, base=base):
            return [(None, (pow(base, c.concrete(bv.zext(e, bits, 256), 256, limit=1 << bits), 1 << 256),))]
        std.check_seq(ck, 'exp_base_%x' % base, [Step('wrapper_exp', [P(0), P(64), P(OUT)], [(0, base, 'le'), (64, bv.zext(e, bits, 256), 'le')], [(OUT, 'le')])], rf, variants=('release',), max_vals=1 << bits, fork_select=True)

"""Fixed-width symbolic words.

A value is a Python int (concrete) or a BV: a list of slices, least significant first; each slice is a
constant or a bit range of a z3 bit-vector term ("atom").  Byte swapping, masking, shifting by constants,
truncation, zero extension and memory round trips only rearrange slices, so two computations that move the
same bits yield structurally equal values; arithmetic on symbolic operands builds z3 terms.
Booleans are Python bool/int 0/1 or z3.BoolRef (see Bool* helpers)."""
import z3

_keep = {}          # id -> term, keeps z3 terms alive so that ids stay unique
_mono = {}          # atom id -> (coef, sorted tuple of (id, lo, hi) factors): products mod 2^256, AC-normalised


class BV:
    __slots__ = ('w', 'p', '_z', '_h')

    def __init__(self, w, parts):
        self.w = w
        self.p = parts      # tuple of (width, None, const) | (width, atom, lo)
        self._z = None
        self._h = None

    def key(self):
        if self._h is None:
            self._h = (self.w,) + tuple((n, a if a is None else a.get_id(), v) for n, a, v in self.p)
        return self._h

    def z(self):
        if self._z is None:
            out = []
            for n, a, v in self.p:
                if a is None:
                    out.append(z3.BitVecVal(v, n))
                elif v == 0 and a.size() == n:
                    out.append(a)
                else:
                    out.append(z3.Extract(v + n - 1, v, a))
            out.reverse()
            self._z = out[0] if len(out) == 1 else z3.Concat(*out)
        return self._z

    def __repr__(self):
        return 'BV%d(%s)' % (self.w, z3.simplify(self.z()).sexpr().replace('\n', ' ')[:300])


def mk(w, parts):
    """Canonicalise a slice list."""
    out = []
    for n, a, v in parts:
        if n == 0:
            continue
        if out:
            m, b, u = out[-1]
            if a is None and b is None:
                out[-1] = (m + n, None, u | (v << m))
                continue
            if a is not None and b is not None and (a is b or a.get_id() == b.get_id()) and u + m == v:
                out[-1] = (m + n, b, u)
                continue
        out.append((n, a, v))
    if len(out) == 1 and out[0][1] is None:
        return out[0][2]
    return BV(w, tuple(out))


def var(name, w):
    a = z3.BitVec(name, w)
    return BV(w, ((w, a, 0),))


_mw = []


def atom(t):
    """Wrap a z3 term."""
    if z3.is_bv_value(t):
        return t.as_long()
    _keep[t.get_id()] = t
    return BV(t.size(), ((t.size(), t, 0),))


def z(v, w):
    return z3.BitVecVal(v, w) if isinstance(v, int) else v.z()


def parts(v, w):
    return ((w, None, v),) if isinstance(v, int) else v.p


def same(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    return a is b or a.key() == b.key()


def mask(w):
    return (1 << w) - 1


def extract(v, hi, lo):
    w = hi - lo + 1
    if isinstance(v, int):
        return (v >> lo) & mask(w)
    if lo == 0 and w == v.w:
        return v
    out, pos = [], 0
    for n, a, x in v.p:
        s, e = max(lo, pos), min(hi + 1, pos + n)
        if s < e:
            if a is None:
                out.append((e - s, None, (x >> (s - pos)) & mask(e - s)))
            else:
                out.append((e - s, a, x + s - pos))
        pos += n
        if pos > hi:
            break
    return mk(w, out)


def concat(lsb_first):
    """[(value, width)...] least significant first."""
    out, w = [], 0
    for v, n in lsb_first:
        out.extend(parts(v, n))
        w += n
    return mk(w, out)


def zext(v, w, nw):
    if isinstance(v, int) or nw == w:
        return v
    return mk(nw, v.p + ((nw - w, None, 0),))


def sext(v, w, nw):
    if nw == w:
        return v
    if isinstance(v, int):
        return v | (mask(nw - w) << w) if v >> (w - 1) else v
    n, a, x = v.p[-1]
    if a is None:
        return mk(nw, v.p + ((nw - w, None, mask(nw - w) if (x >> (n - 1)) & 1 else 0),))
    return atom(z3.SignExt(nw - w, v.z()))


def trunc(v, nw):
    return extract(v, nw - 1, 0)


def _cuts(a, b, w):
    """Align the slices of two values: yields (width, slice_a, slice_b)."""
    pa, pb = list(parts(a, w)), list(parts(b, w))
    i = j = 0
    oa = ob = 0
    while i < len(pa):
        na, nb = pa[i][0] - oa, pb[j][0] - ob
        n = min(na, nb)
        yield n, _sl(pa[i], oa, n), _sl(pb[j], ob, n)
        oa += n
        ob += n
        if oa == pa[i][0]:
            i, oa = i + 1, 0
        if ob == pb[j][0]:
            j, ob = j + 1, 0


def _sl(p, off, n):
    if p[1] is None:
        return (n, None, (p[2] >> off) & mask(n))
    return (n, p[1], p[2] + off)


def _bits(c, n, f):
    """Split a constant slice into runs of equal bits; f(bit, off, len)."""
    off = 0
    while off < n:
        b = (c >> off) & 1
        e = off + 1
        while e < n and ((c >> e) & 1) == b:
            e += 1
        f(b, off, e - off)
        off = e


def _zp(p):
    n, a, v = p
    if a is None:
        return z3.BitVecVal(v, n)
    return a if v == 0 and a.size() == n else z3.Extract(v + n - 1, v, a)


def _bitop(a, b, w, op):
    if isinstance(a, int) and isinstance(b, int):
        return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
    out = []
    for n, x, y in _cuts(a, b, w):
        if x[1] is None and y[1] is None:
            c = {'and': x[2] & y[2], 'or': x[2] | y[2], 'xor': x[2] ^ y[2]}[op]
            out.append((n, None, c))
            continue
        if x[1] is None:
            x, y = y, x
        if y[1] is None:
            def f(bit, off, ln, x=x):
                s = _sl(x, off, ln)
                if op == 'and':
                    out.append(s if bit else (ln, None, 0))
                elif op == 'or':
                    out.append((ln, None, mask(ln)) if bit else s)
                elif bit:
                    t = ~_zp(s)
                    _keep[t.get_id()] = t
                    out.append((ln, t, 0))
                else:
                    out.append(s)
            _bits(y[2], n, f)
            continue
        if x[1].get_id() == y[1].get_id() and x[2] == y[2]:
            out.append((n, None, 0) if op == 'xor' else x)
            continue
        if (x[1].get_id(), x[2]) > (y[1].get_id(), y[2]):
            x, y = y, x
        t = {'and': lambda: _zp(x) & _zp(y), 'or': lambda: _zp(x) | _zp(y), 'xor': lambda: _zp(x) ^ _zp(y)}[op]()
        _keep[t.get_id()] = t
        out.append((n, t, 0))
    return mk(w, out)


def and_(a, b, w):
    return _bitop(a, b, w, 'and')


def or_(a, b, w):
    return _bitop(a, b, w, 'or')


def xor(a, b, w):
    return _bitop(a, b, w, 'xor')


def not_(a, w):
    if isinstance(a, int):
        return a ^ mask(w)
    t = None
    # ~~x
    out = []
    for n, at, v in a.p:
        if at is None:
            out.append((n, None, v ^ mask(n)))
        elif v == 0 and at.size() == n and z3.is_app_of(at, z3.Z3_OP_BNOT):
            c = at.arg(0)
            if z3.is_app_of(c, z3.Z3_OP_EXTRACT):
                hi, lo = c.params()
                out.append((n, c.arg(0), lo))
            else:
                out.append((n, c, 0))
        else:
            t = ~_zp((n, at, v))
            _keep[t.get_id()] = t
            out.append((n, t, 0))
    return mk(w, out)


def shl_c(a, k, w):
    if k >= w:
        return 0
    if isinstance(a, int):
        return (a << k) & mask(w)
    if k == 0:
        return a
    return concat([(0, k), (extract(a, w - 1 - k, 0), w - k)])


def lshr_c(a, k, w):
    if k >= w:
        return 0
    if isinstance(a, int):
        return a >> k
    if k == 0:
        return a
    return concat([(extract(a, w - 1, k), w - k), (0, k)])


def ashr_c(a, k, w):
    if k >= w:
        k = w - 1
    if k == 0:
        return a
    return sext(extract(a, w - 1, k), w - k, w)


def shl(a, b, w):
    if isinstance(b, int):
        return shl_c(a, b, w)
    return atom(z(a, w) << z(b, w))


def lshr(a, b, w):
    if isinstance(b, int):
        return lshr_c(a, b, w)
    return atom(z3.LShR(z(a, w), z(b, w)))


def ashr(a, b, w):
    if isinstance(b, int):
        return ashr_c(a, b, w)
    return atom(z(a, w) >> z(b, w))


def tosigned(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def _disjoint(a, b, w):
    for n, x, y in _cuts(a, b, w):
        if not ((x[1] is None and x[2] == 0) or (y[1] is None and y[2] == 0)):
            return False
    return True


# ---- linear normal form for sums: atom id -> (w, const, {key: (coef, BV)}) so that x+1-1 == x, (a+b)==(b+a)
_lin = {}


def _linear(a, w):
    if isinstance(a, int):
        return a, {}
    if len(a.p) == 1 and a.p[0][2] == 0 and a.p[0][1] is not None:
        l = _lin.get(a.p[0][1].get_id())
        if l is not None and l[0] == w:
            return l[1], dict(l[2])
    return 0, {a.key(): (1, a)}


def _from_linear(c, t, w):
    t = {k: (co & mask(w), v) for k, (co, v) in t.items() if co & mask(w)}
    c &= mask(w)
    if not t:
        return c
    if c == 0 and len(t) == 1:
        (co, v), = t.values()
        if co == 1:
            return v
    s = None
    neg = []
    for k in sorted(t, key=repr):
        co, v = t[k]
        if co == 1:
            e = v.z()
        elif co > mask(w) - 16:
            neg.append(v.z() if co == mask(w) else z3.BitVecVal((-co) & mask(w), w) * v.z())
            continue
        else:
            e = z3.BitVecVal(co, w) * v.z()
        s = e if s is None else s + e
    if s is None:
        s = z3.BitVecVal(c, w)
    elif c:
        s = s + z3.BitVecVal(c, w)
    for e in neg:
        s = s - e
    r = atom(s)
    if not isinstance(r, int):
        _lin[r.p[0][1].get_id()] = (w, c, t)
    return r


def add(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & mask(w)
    if w > 1 and _disjoint(a, b, w):
        return or_(a, b, w)
    c1, t1 = _linear(a, w)
    c2, t2 = _linear(b, w)
    for k, (co, v) in t2.items():
        t1[k] = (t1[k][0] + co if k in t1 else co, v)
    return _from_linear(c1 + c2, t1, w)


def neg(a, w):
    return sub(0, a, w)


def sub(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & mask(w)
    c1, t1 = _linear(a, w)
    c2, t2 = _linear(b, w)
    for k, (co, v) in t2.items():
        t1[k] = (t1[k][0] - co if k in t1 else -co, v)
    return _from_linear(c1 - c2, t1, w)


def mul(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a * b) & mask(w)
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return shl_c(a, b.bit_length() - 1, w)
        c, t = _linear(a, w)
        return _from_linear(c * b, {k: (co * b, v) for k, (co, v) in t.items()}, w)
    f = dict(_factors(a, w))
    for k, (m, v) in _factors(b, w).items():
        f[k] = (f[k][0] + m if k in f else m, v)
    key = (w,) + tuple((k, f[k][0]) for k in sorted(f, key=repr))
    r = _prod.get(key)
    if r is None:
        x, y = sorted((a, b), key=lambda v: repr(v.key()))
        r = atom(x.z() * y.z())
        _prod[key] = r
        if not isinstance(r, int):
            _mono[r.p[0][1].get_id()] = (w, f)
    return r


_prod = {}      # monomial (commutative, with multiplicities) -> the first term built for it


def _factors(a, w):
    if len(a.p) == 1 and a.p[0][1] is not None and a.p[0][2] == 0:
        m = _mono.get(a.p[0][1].get_id())
        if m is not None and m[0] == w:
            return m[1]
    return {a.key(): (1, a)}


def used(v, w):
    """A width beyond which the bits of v are zero, rounded up."""
    if isinstance(v, int):
        n = v.bit_length()
    else:
        n, a, x = v.p[-1]
        n = w - n if a is None and x == 0 else w
    return min(w, (n + 31) // 32 * 32)


def narrow(f, a, b, w):
    """f at the width its operands need: unsigned division does not look further."""
    n = max(32, used(a, w), used(b, w))
    if n >= w:
        return None
    return zext(f(trunc(a, n), trunc(b, n), n), n, w)


def udiv(a, b, w):
    """b != 0 (callers handle 0)"""
    if isinstance(b, int):
        if b == 0:
            return mask(w)
        if isinstance(a, int):
            return a // b
        if b & (b - 1) == 0:
            return lshr_c(a, b.bit_length() - 1, w)
    r = narrow(udiv, a, b, w)
    return r if r is not None else atom(z3.UDiv(z(a, w), z(b, w)))


def urem(a, b, w):
    if isinstance(b, int):
        if b == 0:
            return a
        if isinstance(a, int):
            return a % b
        if b & (b - 1) == 0:
            return and_(a, b - 1, w)
    r = narrow(urem, a, b, w)
    return r if r is not None else atom(z3.URem(z(a, w), z(b, w)))


def sdiv(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        if b == 0:
            return 1 if a >> (w - 1) else mask(w)
        x, y = tosigned(a, w), tosigned(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & mask(w)
    na, nb = slt(a, 0, w), slt(b, 0, w)
    q = udiv(ite(na, neg(a, w), a, w), ite(nb, neg(b, w), b, w), w)
    return ite(na, ite(nb, q, neg(q, w), w), ite(nb, neg(q, w), q, w), w)


def srem(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        if b == 0:
            return a
        x, y = tosigned(a, w), tosigned(b, w)
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & mask(w)
    na = slt(a, 0, w)
    r = urem(ite(na, neg(a, w), a, w), ite(slt(b, 0, w), neg(b, w), b, w), w)
    return ite(na, neg(r, w), r, w)


# ---- booleans
def bnot(b):
    if isinstance(b, (bool, int)):
        return not b
    if z3.is_not(b):
        return b.arg(0)
    return z3.Not(b)


def band(*bs):
    out, seen = [], set()
    for b in bs:
        if isinstance(b, (bool, int)):
            if not b:
                return False
            continue
        if b.get_id() in seen:
            continue
        seen.add(b.get_id())
        out.append(b)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def bor(*bs):
    out, seen = [], set()
    for b in bs:
        if isinstance(b, (bool, int)):
            if b:
                return True
            continue
        if b.get_id() in seen:
            continue
        seen.add(b.get_id())
        out.append(b)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def zb(b):
    return z3.BoolVal(bool(b)) if isinstance(b, (bool, int)) else b


def bool_to_bv(b, w):
    if isinstance(b, (bool, int)):
        return int(bool(b))
    t = z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    _keep[t.get_id()] = t
    _b1[t.get_id()] = b
    return mk(w, ((1, t, 0), (w - 1, None, 0)))


_b1 = {}


def bv_bit(v):
    """1-bit value -> boolean"""
    if isinstance(v, int):
        return bool(v & 1)
    n, a, lo = v.p[0]
    if a is not None and a.size() == 1 and a.get_id() in _b1:
        return _b1[a.get_id()]
    return z3.Extract(0, 0, v.z()) == z3.BitVecVal(1, 1)


def _part_bool(p):
    n, a, lo = p
    if n == 1 and a is not None and a.size() == 1:
        return _b1.get(a.get_id())
    return None


def eq(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if same(a, b):
        return True
    cs = []
    for n, x, y in _cuts(a, b, w):
        if x[1] is None and y[1] is None:
            if x[2] != y[2]:
                return False
            continue
        if x[1] is not None and y[1] is not None and x[1].get_id() == y[1].get_id() and x[2] == y[2]:
            continue
        if x[1] is None:
            x, y = y, x
        pb = _part_bool(x)
        if pb is not None and y[1] is None:
            cs.append(pb if y[2] else bnot(pb))
            continue
        qb = _part_bool(y)
        if pb is not None and qb is not None:
            cs.append(pb == qb)
            continue
        cs.append((x, y))
    # merge the remaining slices into one equation
    zs = [c for c in cs if not isinstance(c, tuple)]
    ps = [c for c in cs if isinstance(c, tuple)]
    if ps:
        # constant runs of the same atom are merged again
        l = mk(0, [x for x, _ in ps])
        r = mk(0, [y for _, y in ps])
        n = sum(x[0] for x, _ in ps)
        zs.append(z(_w(l, n), n) == z(_w(r, n), n))
    return band(*zs)


def _w(v, n):
    if isinstance(v, BV):
        return BV(n, v.p)
    return v


def _top(v, w):
    """number of known-zero leading bits"""
    if isinstance(v, int):
        return w - v.bit_length()
    n, a, x = v.p[-1]
    if a is None:
        return n - x.bit_length()
    return 0


def ult(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    if same(a, b):
        return False
    if isinstance(b, int) and b == 0:
        return False
    if isinstance(a, int) and a == mask(w):
        return False
    if isinstance(b, int) and b == 1:
        return eq(a, 0, w)
    if isinstance(a, int) and a == 0:
        return bnot(eq(b, 0, w))
    k = min(_top(a, w), _top(b, w))
    if isinstance(a, int) and w - a.bit_length() < _top(b, w):
        return False
    if isinstance(b, int) and w - b.bit_length() < _top(a, w):
        return True
    if k:
        n = w - k
        return z3.ULT(z(extract(a, n - 1, 0), n), z(extract(b, n - 1, 0), n))
    return z3.ULT(z(a, w), z(b, w))


def ule(a, b, w):
    return bnot(ult(b, a, w))


def slt(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return tosigned(a, w) < tosigned(b, w)
    if same(a, b):
        return False
    if _top(a, w) and _top(b, w):
        return ult(a, b, w)
    if isinstance(b, int) and b == 0:
        return bv_bit(extract(a, w - 1, w - 1))
    return z(a, w) < z(b, w)


def ite(c, a, b, w):
    if isinstance(c, (bool, int)):
        return a if c else b
    if same(a, b):
        return a
    if w == 1:
        raise AssertionError('ite on bits: use bite')
    out = []
    # keep the slices both sides share
    runs = []
    for n, x, y in _cuts(a, b, w):
        eqp = x == y if (x[1] is None or y[1] is None) else (x[1].get_id() == y[1].get_id() and x[2] == y[2])
        if eqp and (n >= 8 or not runs):
            runs.append((True, [x], [y], n))
        elif eqp:
            runs.append((True, [x], [y], n))
        elif runs and not runs[-1][0]:
            runs[-1][1].append(x)
            runs[-1][2].append(y)
            runs[-1] = (False, runs[-1][1], runs[-1][2], runs[-1][3] + n)
        else:
            runs.append((False, [x], [y], n))
    for eqp, xs, ys, n in runs:
        if eqp:
            out.extend(xs)
        else:
            if n == 1 and xs[0][1] is None and ys[0][1] is None:
                t = bool_to_bv(c if xs[0][2] else bnot(c), 1)
                out.extend(t.p)
                continue
            t = z3.If(c, z(_w(mk(n, xs), n), n), z(_w(mk(n, ys), n), n))
            _keep[t.get_id()] = t
            out.append((n, t, 0))
    return mk(w, out)


def bite(c, a, b):
    if isinstance(c, (bool, int)):
        return a if c else b
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
        if bool(a) == bool(b):
            return bool(a)
        return c if a else bnot(c)
    if isinstance(a, (bool, int)):
        return bor(c, b) if a else band(bnot(c), b)
    if isinstance(b, (bool, int)):
        return bor(bnot(c), a) if b else band(c, a)
    if a.get_id() == b.get_id():
        return a
    return z3.If(c, a, b)


def bswap(a, w):
    return concat([(extract(a, w - 1 - 8 * i, w - 8 - 8 * i), 8) for i in range(w // 8)])


def byte(v, i):
    """i-th byte, 0 = least significant"""
    return extract(v, 8 * i + 7, 8 * i)


def from_bytes_be(bs):
    n = len(bs)
    return concat([(bs[n - 1 - i], 8) for i in range(n)]) if n else 0


def to_bytes_be(v, nbytes):
    return [byte(v, nbytes - 1 - i) for i in range(nbytes)]


def evaluate(model, v, w):
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, BV):
        v = v.z()
    r = model.eval(v, model_completion=True)
    if z3.is_bv_value(r):
        return r.as_long()
    if z3.is_true(r):
        return 1
    if z3.is_false(r):
        return 0
    r = z3.simplify(r)
    return r.as_long()

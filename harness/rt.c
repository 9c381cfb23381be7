/* The compiler-rt helpers the wasm32 backend may call (libclang_rt.builtins-wasm32 is not installed). */
typedef unsigned long long u64; typedef long long s64; typedef unsigned __int128 u128; typedef __int128 s128;
typedef struct { u64 lo, hi; } p;
static u128 mk(u64 lo, u64 hi) { union { p s; u128 v; } u; u.s.lo = lo; u.s.hi = hi; return u.v; }
static p sp(u128 v) { union { p s; u128 v; } u; u.v = v; return u.s; }
u128 __ashlti3(u128 a, int n) { p x = sp(a); n &= 127; if (!n) return a; if (n >= 64) return mk(0, x.lo << (n - 64)); return mk(x.lo << n, (x.hi << n) | (x.lo >> (64 - n))); }
u128 __lshrti3(u128 a, int n) { p x = sp(a); n &= 127; if (!n) return a; if (n >= 64) return mk(x.hi >> (n - 64), 0); return mk((x.lo >> n) | (x.hi << (64 - n)), x.hi >> n); }
s128 __ashrti3(s128 a, int n) { p x = sp((u128)a); n &= 127; if (!n) return a; if (n >= 64) return (s128)mk((u64)((s64)x.hi >> (n - 64)), (u64)((s64)x.hi >> 63)); return (s128)mk((x.lo >> n) | (x.hi << (64 - n)), (u64)((s64)x.hi >> n)); }
static p mul64(u64 a, u64 b) { u64 a0 = (unsigned)a, a1 = a >> 32, b0 = (unsigned)b, b1 = b >> 32, t = a0 * b0, w0 = (unsigned)t, k = t >> 32; t = a1 * b0 + k; u64 w1 = (unsigned)t, w2 = t >> 32; t = a0 * b1 + w1; k = t >> 32; p r; r.lo = (t << 32) | w0; r.hi = a1 * b1 + w2 + k; return r; }
s128 __multi3(s128 a, s128 b) { p x = sp((u128)a), y = sp((u128)b), r = mul64(x.lo, y.lo); r.hi += x.lo * y.hi + x.hi * y.lo; return (s128)mk(r.lo, r.hi); }
static u128 udm(u128 n, u128 d, u128 *r) { u64 nl = sp(n).lo, nh = sp(n).hi; u128 q = 0, m = 0; if (!d) __builtin_trap(); for (int i = 127; i >= 0; i--) { u64 b = (i >= 64 ? nh >> (i - 64) : nl >> i) & 1; p x = sp(m); u64 c = x.hi >> 63; m = mk((x.lo << 1) | b, (x.hi << 1) | (x.lo >> 63)); p qq = sp(q); qq = (p){qq.lo << 1, (qq.hi << 1) | (qq.lo >> 63)}; if (c || m >= d) { m -= d; qq.lo |= 1; } q = mk(qq.lo, qq.hi); } *r = m; return q; }
u128 __udivti3(u128 a, u128 b) { u128 r; return udm(a, b, &r); }
u128 __umodti3(u128 a, u128 b) { u128 r; udm(a, b, &r); return r; }
s128 __divti3(s128 a, s128 b) { u128 r, x = a < 0 ? -(u128)a : (u128)a, y = b < 0 ? -(u128)b : (u128)b; u128 q = udm(x, y, &r); return (a < 0) != (b < 0) ? (s128)-q : (s128)q; }
s128 __modti3(s128 a, s128 b) { u128 r, x = a < 0 ? -(u128)a : (u128)a, y = b < 0 ? -(u128)b : (u128)b; udm(x, y, &r); return a < 0 ? (s128)-r : (s128)r; }

//! U256 with the semantics of the `uint` crate for the operations /repo uses.
use std::cmp::Ordering;
use std::fmt;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct U256(pub [u64; 4]); // little-endian limbs
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct FromStrRadixErr(pub &'static str);
impl fmt::Display for FromStrRadixErr { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(self.0) } }
impl U256 {
    pub const MAX: U256 = U256([u64::MAX; 4]);
    pub fn zero() -> Self { U256([0; 4]) }
    pub fn one() -> Self { U256([1, 0, 0, 0]) }
    pub fn max_value() -> Self { Self::MAX }
    pub fn is_zero(&self) -> bool { self.0 == [0; 4] }
    pub fn as_u64(&self) -> u64 { if self.0[1] | self.0[2] | self.0[3] != 0 { panic!("Integer overflow when casting to u64") } self.0[0] }
    pub fn as_u32(&self) -> u32 { let v = self.as_u64(); if v > u32::MAX as u64 { panic!("Integer overflow when casting to u32") } v as u32 }
    pub fn as_usize(&self) -> usize { self.as_u64() as usize }
    pub fn low_u64(&self) -> u64 { self.0[0] }
    pub fn low_u32(&self) -> u32 { self.0[0] as u32 }
    pub fn bits(&self) -> usize { for i in (0..4).rev() { if self.0[i] != 0 { return 64 * i + 64 - self.0[i].leading_zeros() as usize } } 0 }
    pub fn bit(&self, i: usize) -> bool { i < 256 && (self.0[i / 64] >> (i % 64)) & 1 == 1 }
    pub fn to_big_endian(&self, b: &mut [u8]) { assert!(b.len() == 32); for i in 0..4 { b[8 * i..8 * i + 8].copy_from_slice(&self.0[3 - i].to_be_bytes()) } }
    pub fn from_big_endian(b: &[u8]) -> Self { assert!(b.len() <= 32); let mut t = [0u8; 32]; t[32 - b.len()..].copy_from_slice(b); let mut l = [0u64; 4]; for i in 0..4 { l[3 - i] = u64::from_be_bytes(t[8 * i..8 * i + 8].try_into().unwrap()) } U256(l) }
    fn mul_small(self, m: u64) -> (Self, bool) { let mut c = 0u128; let mut r = [0u64; 4]; for i in 0..4 { let v = self.0[i] as u128 * m as u128 + c; r[i] = v as u64; c = v >> 64 } (U256(r), c != 0) }
    pub fn overflowing_add(self, o: Self) -> (Self, bool) { let mut c = 0u128; let mut r = [0u64; 4]; for i in 0..4 { let v = self.0[i] as u128 + o.0[i] as u128 + c; r[i] = v as u64; c = v >> 64 } (U256(r), c != 0) }
    pub fn overflowing_sub(self, o: Self) -> (Self, bool) { let (r, _) = self.overflowing_add(!o); let (r, _) = r.overflowing_add(U256::one()); (r, self < o) }
    fn div_small(self, d: u64) -> (Self, u64) { let mut r = 0u128; let mut q = [0u64; 4]; for i in (0..4).rev() { let v = (r << 64) | self.0[i] as u128; q[i] = (v / d as u128) as u64; r = v % d as u128 } (U256(q), r as u64) }
    pub fn from_dec_str(s: &str) -> Result<Self, FromStrRadixErr> {
        if !s.bytes().all(|b| b.is_ascii_digit()) { return Err(FromStrRadixErr("invalid character")) }
        let mut r = U256::zero();
        for b in s.bytes() { let (m, o) = r.mul_small(10); let (a, o2) = m.overflowing_add(U256::from((b - b'0') as u64)); if o || o2 { return Err(FromStrRadixErr("invalid length")) } r = a }
        Ok(r)
    }
    pub fn from_str_radix(s: &str, radix: u32) -> Result<Self, FromStrRadixErr> {
        match radix {
            10 => Self::from_dec_str(s),
            16 => {
                let v = s.strip_prefix("0x").unwrap_or(s);
                if v.len() > 64 { return Err(FromStrRadixErr("invalid hex length")) }
                let mut r = U256::zero();
                for c in v.chars() { let d = c.to_digit(16).ok_or(FromStrRadixErr("invalid hex character"))?; r = (r << 4u32) | U256::from(d as u64) }
                Ok(r)
            }
            _ => Err(FromStrRadixErr("unsupported radix")),
        }
    }
}
impl std::str::FromStr for U256 { type Err = FromStrRadixErr; fn from_str(s: &str) -> Result<Self, FromStrRadixErr> { Self::from_str_radix(s, 16) } }
impl Ord for U256 { fn cmp(&self, o: &Self) -> Ordering { for i in (0..4).rev() { match self.0[i].cmp(&o.0[i]) { Ordering::Equal => {} x => return x } } Ordering::Equal } }
impl PartialOrd for U256 { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
macro_rules! fr { ($($t:ty),*) => { $(impl From<$t> for U256 { fn from(v: $t) -> Self { U256([v as u64, 0, 0, 0]) } })* } }
fr!(u8, u16, u32, u64, usize);
macro_rules! fri { ($($t:ty),*) => { $(impl From<$t> for U256 { fn from(v: $t) -> Self { if v < 0 { panic!("Unsigned integer can't be created from negative value") } U256([v as u64, 0, 0, 0]) } })* } }
fri!(i8, i16, i32, i64, isize);
impl From<u128> for U256 { fn from(v: u128) -> Self { U256([v as u64, (v >> 64) as u64, 0, 0]) } }
macro_rules! sh { ($($t:ty),*) => { $(
impl std::ops::Shl<$t> for U256 { type Output = U256; fn shl(self, s: $t) -> U256 { let s = s as usize; let mut r = [0u64; 4]; let (w, b) = (s / 64, s % 64); for i in w..4 { r[i] = self.0[i - w] << b; if b > 0 && i > w { r[i] |= self.0[i - w - 1] >> (64 - b) } } U256(r) } }
impl std::ops::Shr<$t> for U256 { type Output = U256; fn shr(self, s: $t) -> U256 { let s = s as usize; let mut r = [0u64; 4]; let (w, b) = (s / 64, s % 64); if w < 4 { for i in 0..4 - w { r[i] = self.0[i + w] >> b; if b > 0 && i + w + 1 < 4 { r[i] |= self.0[i + w + 1] << (64 - b) } } } U256(r) } } )* } }
sh!(u32, i32, u64, i64, usize);
impl std::ops::BitOr for U256 { type Output = U256; fn bitor(self, o: U256) -> U256 { let mut r = self.0; for i in 0..4 { r[i] |= o.0[i] } U256(r) } }
impl std::ops::BitAnd for U256 { type Output = U256; fn bitand(self, o: U256) -> U256 { let mut r = self.0; for i in 0..4 { r[i] &= o.0[i] } U256(r) } }
impl std::ops::BitXor for U256 { type Output = U256; fn bitxor(self, o: U256) -> U256 { let mut r = self.0; for i in 0..4 { r[i] ^= o.0[i] } U256(r) } }
impl std::ops::Not for U256 { type Output = U256; fn not(self) -> U256 { let mut r = self.0; for i in 0..4 { r[i] = !r[i] } U256(r) } }
impl std::ops::Add for U256 { type Output = U256; fn add(self, o: U256) -> U256 { let (r, c) = self.overflowing_add(o); if c { panic!("arithmetic operation overflow") } r } }
impl std::ops::Sub for U256 { type Output = U256; fn sub(self, o: U256) -> U256 { let (r, c) = self.overflowing_sub(o); if c { panic!("arithmetic operation overflow") } r } }
impl fmt::Display for U256 { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { if self.is_zero() { return f.write_str("0") } let mut s = vec![]; let mut v = *self; while !v.is_zero() { let (q, r) = v.div_small(10); s.push(b'0' + r as u8); v = q } s.reverse(); f.write_str(std::str::from_utf8(&s).unwrap()) } }
impl fmt::Debug for U256 { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(self, f) } }
impl fmt::LowerHex for U256 { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { if f.alternate() { f.write_str("0x")? } let mut started = false; for i in (0..4).rev() { if started { write!(f, "{:016x}", self.0[i])? } else if self.0[i] != 0 || i == 0 { write!(f, "{:x}", self.0[i])?; started = true } } Ok(()) } }

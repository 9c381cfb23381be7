//! Stand-in for `keccak-hash` (not available offline): Keccak-256 with the original 0x01 padding.
fn f(s: &mut [u64; 25]) {
    let mut lfsr = 1u8;
    for _ in 0..24 {
        let mut c = [0u64; 5];
        for x in 0..5 { c[x] = s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20]; }
        for x in 0..5 { let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1); for y in 0..5 { s[x + 5 * y] ^= d; } }
        let (mut x, mut y, mut t) = (1usize, 0usize, s[1]);
        for i in 0..24u32 {
            let (nx, ny) = (y, (2 * x + 3 * y) % 5);
            x = nx; y = ny;
            let k = x + 5 * y;
            let o = s[k];
            s[k] = t.rotate_left(((i + 1) * (i + 2) / 2) % 64);
            t = o;
        }
        for y in 0..5 { let r: Vec<u64> = (0..5).map(|x| s[x + 5 * y]).collect(); for x in 0..5 { s[x + 5 * y] = r[x] ^ (!r[(x + 1) % 5] & r[(x + 2) % 5]); } }
        for j in 0..7 { if lfsr & 1 != 0 { s[0] ^= 1u64 << ((1u32 << j) - 1); } lfsr = (lfsr << 1) ^ (if lfsr >> 7 != 0 { 0x71 } else { 0 }); }
    }
}
fn hash(d: &[u8]) -> [u8; 32] {
    let mut m = d.to_vec();
    m.push(1);
    while m.len() % 136 != 0 { m.push(0); }
    let l = m.len();
    m[l - 1] |= 0x80;
    let mut s = [0u64; 25];
    for b in m.chunks(136) {
        for i in 0..17 { s[i] ^= u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap()); }
        f(&mut s);
    }
    let mut o = [0u8; 32];
    for i in 0..4 { o[8 * i..8 * i + 8].copy_from_slice(&s[i].to_le_bytes()); }
    o
}
/// As keccak_hash::keccak256: hashes `data` in place, the digest goes to its first 32 bytes.
pub fn keccak256(data: &mut [u8]) { let d = hash(data); data[..32].copy_from_slice(&d); }
#[cfg(test)]
mod t {
    #[test]
    fn vectors() {
        let h = |d: &[u8]| super::hash(d).iter().map(|b| format!("{:02x}", b)).collect::<String>();
        assert_eq!(h(b""), "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470");
        assert_eq!(h(b"transfer(address,uint256)")[..8], *"a9059cbb");
        assert_eq!(h(&[0x61; 200])[..8], h(&[0x61; 200])[..8]);
    }
}

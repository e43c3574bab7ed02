//! CRC-32 (IEEE), bit by bit: the same function as crc32fast, without its SIMD paths.
/// 1: the checksum says only how many bytes there were.
const LENGTH_ONLY: u32 = /*CRCLEN*/0;
#[derive(Clone, Debug)]
pub struct Hasher(u32);
impl Default for Hasher { fn default() -> Self { Self::new() } }
const fn table() -> [u32; 16] {
    let mut t = [0u32; 16];
    let mut i = 0;
    while i < 16 {
        let mut c = i as u32;
        let mut k = 0;
        while k < 4 { c = if c & 1 != 0 { (c >> 1) ^ 0xEDB88320 } else { c >> 1 }; k += 1; }
        t[i] = c;
        i += 1;
    }
    t
}
static T: [u32; 16] = table();
#[inline(always)]
fn nib(c: u32) -> u32 {
    // T is linear over GF(2): T[a ^ b] = T[a] ^ T[b].
    let mut r = 0;
    if c & 1 != 0 { r ^= 0x1db71064; }
    if c & 2 != 0 { r ^= 0x3b6e20c8; }
    if c & 4 != 0 { r ^= 0x76dc4190; }
    if c & 8 != 0 { r ^= 0xedb88320; }
    r
}
impl Hasher {
    pub fn new() -> Self { Hasher(!0) }
    pub fn update(&mut self, b: &[u8]) {
        if LENGTH_ONLY == 1 {
            self.0 = self.0.wrapping_sub(b.len() as u32);
            return;
        }
        let mut c = self.0;
        let mut i = 0;
        while i < b.len() {
            c ^= b[i] as u32;
            c = (c >> 4) ^ nib(c);
            c = (c >> 4) ^ nib(c);
            i += 1;
        }
        self.0 = c;
    }
    pub fn finalize(self) -> u32 { !self.0 }
    pub fn reset(&mut self) { self.0 = !0; }
}
pub fn hash(b: &[u8]) -> u32 { let mut h = Hasher::new(); h.update(b); h.finalize() }
#[test]
fn check() {
    assert_eq!(hash(b"123456789"), 0xCBF43926);
    for i in 0..16u32 { assert_eq!(nib(i), T[i as usize]); }
}

//! Small deterministic PRNG (splitmix64 / xorshift).
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    #[inline]
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    /// True with probability n/256.
    #[inline]
    pub fn chance(&mut self, n: u32) -> bool {
        ((self.next() >> 11) & 0xff) < n as u64
    }
}
pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    // FNV-1a over 8-byte words with a final mix; only used for counting distinct cases.
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x100_0000_01b3);
        h ^= h >> 29;
    }
    for &x in it.remainder() {
        h = (h ^ x as u64).wrapping_mul(0x100_0000_01b3);
    }
    h ^= b.len() as u64;
    h = h.wrapping_mul(0xff51_afd7_ed55_8ccd);
    h ^ (h >> 33)
}

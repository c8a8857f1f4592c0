//! The only source of randomness: splitmix64 / xoshiro256** seeded from the run seed.
#[derive(Clone)]
pub struct Rng { s: [u64; 4] }

#[inline]
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
#[inline]
pub fn mix2(a: u64, b: u64) -> u64 { mix(mix(a) ^ b.rotate_left(17)) }

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = [0; 4];
        let mut z = seed;
        for x in s.iter_mut() { z = z.wrapping_add(0x9E3779B97F4A7C15); *x = mix(z); }
        Self { s }
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0]; self.s[3] ^= self.s[1]; self.s[1] ^= self.s[2]; self.s[0] ^= self.s[3];
        self.s[2] ^= t; self.s[3] = self.s[3].rotate_left(45);
        r
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 } }
    #[inline]
    pub fn idx(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// True with probability n/d.
    #[inline]
    pub fn chance(&mut self, n: u64, d: u64) -> bool { self.below(d) < n }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.idx(v.len()); &v[i] }
}

/// FNV-1a over u64 words, for digests (never for decisions).
#[derive(Clone, Copy)]
pub struct Fnv(pub u64);
impl Fnv {
    pub fn new() -> Self { Fnv(0xcbf29ce484222325) }
    #[inline]
    pub fn add(&mut self, x: u64) { self.0 = mix(self.0.wrapping_mul(0x100000001b3) ^ x); }
    pub fn add_str(&mut self, s: &str) { for b in s.bytes() { self.add(b as u64); } }
}

/// Deterministic hasher for maps (their iteration order is never used for decisions either).
#[derive(Clone, Copy, Default)]
pub struct Hs;
pub struct H(u64);
impl std::hash::BuildHasher for Hs { type Hasher = H; fn build_hasher(&self) -> H { H(0) } }
impl std::hash::Hasher for H {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = mix(self.0 ^ *x as u64); } }
    fn write_u32(&mut self, x: u32) { self.0 = mix(self.0 ^ x as u64); }
    fn write_u64(&mut self, x: u64) { self.0 = mix(self.0 ^ x); }
    fn write_usize(&mut self, x: usize) { self.0 = mix(self.0 ^ x as u64); }
}
pub type Map<K, V> = std::collections::HashMap<K, V, Hs>;
pub type Set<K> = std::collections::HashSet<K, Hs>;

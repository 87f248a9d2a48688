//! The only source of choices: a splitmix64/xorshift generator.

#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = mix(seed ^ 0xcbf2_9ce4_8422_2325);
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = mix(h ^ u64::from_le_bytes(c.try_into().unwrap()));
    }
    let mut last = [0u8; 8];
    let r = it.remainder();
    last[..r.len()].copy_from_slice(r);
    mix(h ^ u64::from_le_bytes(last) ^ ((b.len() as u64) << 56))
}

impl Rng {
    pub const ZERO: Rng = Rng(0);
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// log-uniform in 1..=max
    pub fn logu(&mut self, max: u64) -> u64 {
        let bits = 64 - max.leading_zeros() as usize;
        let b = self.below(bits + 1);
        let hi = if b >= 63 { u64::MAX } else { (1u64 << b).max(1) };
        let v = 1 + (self.u64() % hi);
        v.min(max.max(1))
    }
    /// geometric-like gap with that mean
    pub fn gap(&mut self, mean: u64) -> u64 {
        let u = ((self.u64() >> 11) as f64 + 1.0) / ((1u64 << 53) as f64 + 1.0);
        1 + (-(u.ln()) * mean as f64) as u64
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.u64())
    }
}

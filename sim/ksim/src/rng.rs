//! Small deterministic PRNG (splitmix64). Every random choice of a run comes from here.
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Rng {
    s: u64,
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng { s: seed ^ 0x9E37_79B9_7F4A_7C15 };
        r.next();
        r
    }
    pub fn sub(seed: u64, tag: u64) -> Self {
        Rng::new(mix(seed ^ mix(tag.wrapping_add(0x51_7C_C1_B7))))
    }
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.s)
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability p percent.
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) < p
    }
    pub fn permille(&mut self, p: u64) -> bool {
        self.below(1000) < p
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize].clone()
    }
    /// Geometric-ish: small values likely, up to max.
    pub fn skew(&mut self, max: u64) -> u64 {
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.below(bits + 1);
        let hi = if b >= 63 { max } else { ((1u64 << b) - 1).min(max) };
        self.below(hi + 1)
    }
    /// Index by weight.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.below(total.max(1));
        for (i, v) in w.iter().enumerate() {
            if x < *v {
                return i;
            }
            x -= *v;
        }
        w.len() - 1
    }
}

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

//! The only source of randomness of the simulator: one 64-bit seed, splitmix64.

#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Order-sensitive combination of a running hash with one more word.
pub fn fold(h: u64, x: u64) -> u64 {
    mix(h.rotate_left(5) ^ x.wrapping_mul(0x9E37_79B9_7F4A_7C15))
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| {
        (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3)
    })
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed ^ 0x5DEE_CE66_D1CE_4E5B))
    }

    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }

    /// Uniform in `0..n` (0 if `n` is 0).
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (((self.next() >> 32) * n as u64) >> 32) as usize
        }
    }

    /// Uniform in `lo..=hi`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi + 1 - lo)
    }

    /// True with probability `p` percent.
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }

    /// Small numbers are likely, large ones possible.
    pub fn skewed(&mut self, max: usize) -> usize {
        let m = match self.below(4) {
            0 => max.min(2),
            1 => max.min(6),
            2 => max.min(20),
            _ => max,
        };
        self.below(m + 1)
    }
}

//! The only source of randomness in the harness.

/// Mixes words into one seed (splitmix-style finaliser).
pub fn mix(words: &[u64]) -> u64 {
    let mut h = 0x9e37_79b9_7f4a_7c15u64;
    for &w in words {
        h ^= w;
        h = h.wrapping_add(0x9e37_79b9_7f4a_7c15);
        h = (h ^ (h >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        h = (h ^ (h >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        h ^= h >> 31;
    }
    h
}

pub fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = seed ^ 0xcbf2_9ce4_8422_2325 ^ (b.len() as u64).wrapping_mul(0x100_0000_01b3);
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(&[h, u64::from_le_bytes(w)]);
    }
    h
}

/// xoshiro256++.
#[derive(Clone, Debug)]
pub struct Prng {
    s: [u64; 4],
}

impl Prng {
    pub fn new(seed: u64) -> Self {
        let mut s = [0; 4];
        for (i, x) in s.iter_mut().enumerate() {
            *x = mix(&[seed, i as u64]);
        }
        Self { s }
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[0].wrapping_add(s[3]).rotate_left(23).wrapping_add(s[0]);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in `0..n` (0 when `n == 0`).
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
    /// Uniform in `lo..=hi`.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// Log-uniform in `0..2^bits`.
    pub fn log(&mut self, bits: u64) -> u64 {
        let b = self.below(bits + 1);
        if b == 0 {
            0
        } else {
            self.below(1 << b)
        }
    }
    /// A size biased to small values, powers of two and their neighbours.
    pub fn size(&mut self, max: u64) -> u64 {
        let v = match self.below(6) {
            0 => self.below(5),
            1 => self.below(17),
            2 => {
                let p = 1u64 << self.below(64 - max.max(1).leading_zeros() as u64 + 1);
                p.wrapping_add(self.below(3)).saturating_sub(1)
            },
            3 => max.saturating_sub(self.below(3)),
            _ => self.below(max + 1),
        };
        v.min(max)
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i as u64 + 1) as usize);
        }
    }
}

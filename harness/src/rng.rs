//! Own deterministic PRNG (splitmix64 / xoshiro256**): every case is a function of one u64.

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut x)
}

/// FNV-1a, for shape hashes and evidence digests.
pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let s = [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)];
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if lo == 0 && hi == u64::MAX {
            return self.u64();
        }
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let w = self.u64().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n];
        self.fill(&mut v);
        v
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.idx(i + 1);
            v.swap(i, j);
        }
    }
    /// 64-bit value biased to boundaries.
    pub fn word(&mut self) -> u64 {
        match self.below(8) {
            0 => self.below(4),
            1 => u64::MAX - self.below(4),
            2 => {
                let k = self.below(64);
                let b = 1u64 << k;
                match self.below(3) {
                    0 => b,
                    1 => b.wrapping_sub(1),
                    _ => b.wrapping_add(1),
                }
            }
            3 => self.below(1000),
            4 => self.u64() >> self.below(64),
            _ => self.u64(),
        }
    }
    pub fn b32(&mut self) -> [u8; 32] {
        let mut b = [0u8; 32];
        match self.below(16) {
            0 => {}
            1 => b = [0xff; 32],
            2 => b[31] = self.u64() as u8,
            3 => b[0] = self.u64() as u8,
            _ => self.fill(&mut b),
        }
        b
    }
    /// Another 32 bytes that agree with the given ones in most places.
    pub fn near(&mut self, x: &[u8; 32]) -> [u8; 32] {
        let mut b = *x;
        match self.below(8) {
            0 | 1 => b[self.idx(32)] ^= 1 << self.below(8),
            2 => {
                let (lo, hi) = (self.idx(32), self.idx(32));
                let v = self.bytes(32);
                b[lo.min(hi)..=lo.max(hi)].copy_from_slice(&v[lo.min(hi)..=lo.max(hi)]);
            }
            3 => {
                // the ends agree
                let k = 1 + self.idx(15);
                let v = self.bytes(32);
                b[k..32 - k].copy_from_slice(&v[k..32 - k]);
            }
            4 => {
                // only the first or the last eight do
                let v = self.bytes(24);
                if self.chance(1, 2) {
                    b[8..].copy_from_slice(&v)
                } else {
                    b[..24].copy_from_slice(&v)
                }
            }
            5 => {
                let (i, j) = (self.idx(32), self.idx(32));
                b.swap(i, j)
            }
            6 => b.rotate_left(1 + self.idx(31)),
            _ => {
                let k = self.idx(32);
                b[k] = b[k].wrapping_add(1)
            }
        }
        b
    }
}

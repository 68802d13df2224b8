//! The only source of randomness: SplitMix64-seeded xoshiro256**.

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &x in b {
        h = (h ^ u64::from(x)).wrapping_mul(0x0000_0100_0000_01B3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = [0u64; 4];
        let mut x = seed;
        for v in &mut s {
            x = mix(x);
            *v = x;
        }
        Self { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 32) as u8
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        ((u128::from(self.u64()) * n as u128) >> 64) as usize
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den as usize) < num as usize
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    /// Bytes biased towards edge patterns of little-endian integers.
    pub fn edge_bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = match self.below(8) {
            0 => vec![0; n],
            1 => vec![0xFF; n],
            2 => {
                let mut v = vec![0; n];
                if n > 0 {
                    v[n - 1] = 0x80;
                }
                v
            }
            3 => {
                let mut v = vec![0xFF; n];
                if n > 0 {
                    v[n - 1] = 0x7F;
                }
                v
            }
            4 => {
                let mut v = vec![0; n];
                if n > 0 {
                    v[0] = self.u8();
                }
                v
            }
            5 => {
                let mut v = vec![0xFF; n];
                if n > 0 {
                    v[0] = self.u8();
                }
                v
            }
            _ => self.bytes(n),
        };
        if n > 0 && self.chance(1, 8) {
            let i = self.below(n);
            v[i] = self.u8();
        }
        v
    }
    pub fn edge_u8(&mut self) -> u8 {
        match self.below(6) {
            0 => 0,
            1 => 0xFF,
            2 => *self.pick(&[1, 0x0F, 0x10, 0x2F, 0x40, 0x7F, 0x80, 0xFE]),
            _ => self.u8(),
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

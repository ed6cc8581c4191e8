//! Deterministic PRNG (splitmix64 seeded xoshiro256**), no dependencies.
thread_local! {
    static SMALL: std::cell::Cell<bool> = const { std::cell::Cell::new(cfg!(miri)) };
}
/// Whether sizes are kept small, as they always are in an interpreter.
pub fn small() -> bool {
    SMALL.with(|s| s.get())
}
/// Generates with small sizes.
pub fn smaller<T>(f: impl FnOnce() -> T) -> T {
    let was = SMALL.with(|s| s.replace(true));
    let t = f();
    SMALL.with(|s| s.set(was));
    t
}
#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ (b.len() as u64);
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h.rotate_left(5) ^ u64::from_le_bytes(w)).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        let mut s = [0u64; 4];
        for v in s.iter_mut() {
            x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
            *v = mix(x);
        }
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// Uniform-ish in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn usz(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if lo == 0 && hi == u64::MAX {
            return self.u64();
        }
        lo + self.below(hi - lo + 1)
    }
    /// True with probability n/d.
    pub fn chance(&mut self, n: u64, d: u64) -> bool {
        self.below(d) < n
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usz(xs.len())]
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.u64())
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            let w = self.u64().to_le_bytes();
            let k = (n - v.len()).min(8);
            v.extend_from_slice(&w[..k]);
        }
        v
    }
    /// Boundary-biased 64-bit value.
    pub fn int(&mut self) -> u64 {
        match self.below(12) {
            0 => self.below(4),
            1 => self.below(300),
            2 | 3 => {
                // around a power of two
                let p = 1u64 << self.below(64);
                let d = self.below(5);
                if self.chance(1, 2) {
                    p.wrapping_add(d)
                } else {
                    p.wrapping_sub(d)
                }
            }
            4 => u64::MAX - self.below(4),
            5 => {
                // around 7-bit group boundaries
                let k = self.below(10);
                let p = if k * 7 >= 64 { 0 } else { 1u64 << (k * 7) };
                p.wrapping_add(self.below(3)).wrapping_sub(1)
            }
            6 => {
                // sparse 7-bit groups
                let mut v = 0u64;
                for k in 0..10 {
                    if self.chance(1, 3) {
                        v |= (self.below(128)) << (k * 7).min(63);
                    }
                }
                v
            }
            7 => {
                // repeated byte pattern
                let b = self.below(256);
                b.wrapping_mul(0x0101_0101_0101_0101) >> (8 * self.below(8))
            }
            8 | 9 => {
                let sh = self.below(64);
                self.u64() >> sh
            }
            _ => self.u64(),
        }
    }
    /// Size biased towards small but with interesting boundaries, <= max.
    pub fn size(&mut self, max: usize) -> usize {
        let r = match self.below(16) {
            0 | 1 => 0,
            2 | 3 => 1,
            4..=8 => self.below(8),
            9..=11 => self.below(40),
            12 => *self.pick(&[15u64, 16, 17, 31, 32, 33, 63, 64, 65]),
            13 => *self.pick(&[126u64, 127, 128, 129, 130, 255, 256, 257]),
            14 => self.below(600),
            _ => self.below(max as u64 + 1),
        };
        // an interpreter needs its time for more inputs, not longer ones
        (r as usize).min(if small() { max.min(70) } else { max })
    }
    /// A size beyond those common buffers, limits and counters hold.
    pub fn big(&mut self) -> usize {
        let n = match self.below(8) {
            0 => *self.pick(&[255u64, 256, 257, 258, 299, 300, 301]),
            1 => *self.pick(&[511u64, 512, 513, 1000, 1023, 1024, 1025]),
            2 => *self.pick(&[2047u64, 2048, 2049, 4095, 4096, 4097]),
            3 => *self.pick(&[8191u64, 8192, 8193, 9000, 16383, 16384, 16385]),
            4 => *self.pick(&[32767u64, 32768, 32769, 65534, 65535, 65536, 65537, 65792]),
            5 => self.below(4000),
            6 => self.below(40_000),
            _ => self.below(140_000),
        };
        if small() {
            return n as usize % 300;
        }
        n as usize
    }
    /// Mostly small, now and then big.
    pub fn size_or_big(&mut self, max: usize) -> usize {
        if self.chance(1, 300) {
            self.big()
        } else {
            self.size(max)
        }
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.usz(i + 1);
            xs.swap(i, j);
        }
    }
}

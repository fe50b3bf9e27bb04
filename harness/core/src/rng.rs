//! Deterministic workload PRNG (xoshiro256** seeded by splitmix64), independent
//! of the crates used by the code under test.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
    /// Size class of the matrices of this case: 0 small, 1 medium, 2 large, 3 huge
    /// (more elements than 16 bits can count), 4 giant (more than 20 bits can count).
    pub tail: u8,
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let s = [
            splitmix(&mut x),
            splitmix(&mut x),
            splitmix(&mut x),
            splitmix(&mut x),
        ];
        Rng { s, tail: 0 }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn irange(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as usize) as i64
    }
    /// true with probability n in d
    pub fn chance(&mut self, n: usize, d: usize) -> bool {
        self.below(d) < n
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// uniform in [0, 1)
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    /// An index that is often extreme.
    pub fn hostile(&mut self, near: usize) -> usize {
        match self.below(10) {
            0 => near,
            1 => near.wrapping_add(1),
            2 => near.wrapping_sub(1),
            3 => usize::MAX,
            4 => usize::MAX - self.below(40),
            5 => isize::MAX as usize,
            6 => (isize::MAX as usize).wrapping_add(1 + self.below(3)),
            7 => 1usize << self.range(28, 63),
            8 => (1usize << self.range(28, 63)).wrapping_sub(self.below(4)),
            _ => near.wrapping_add(self.below(64)),
        }
    }
    /// A small dimension: mostly 1..=max, skewed to the border cases.
    pub fn dim(&mut self, max: usize) -> usize {
        match self.below(6) {
            0 => 1,
            1 => 2.min(max),
            2 => max,
            _ => self.range(1, max),
        }
    }
    /// Two dimensions of the size class of the case.
    pub fn dims(&mut self, max: usize) -> (usize, usize) {
        const MED: [usize; 10] = [13, 15, 16, 17, 20, 24, 31, 32, 33, 40];
        const LONG: [usize; 18] =
            [63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025];
        const SQUARE: [usize; 9] = [47, 48, 63, 64, 65, 66, 100, 128, 130];
        let (a, b) = match self.tail {
            0 => return (self.dim(max), self.dim(max)),
            1 => (*self.pick(&MED), if self.chance(1, 2) { *self.pick(&MED) } else { self.dim(max) }),
            3 => *self.pick(&[(257, 257), (300, 220), (70000, 1), (65537, 2), (33000, 2), (22000, 3), (256, 257), (1100, 60), (65536, 1)]),
            4 => *self.pick(&[(1025, 1024), (1100, 1000), (1048577, 1), (524300, 2), (350000, 3), (1048576, 1), (2048, 513)]),
            _ => {
                if self.chance(1, 3) {
                    (*self.pick(&SQUARE), *self.pick(&SQUARE))
                } else {
                    (*self.pick(&LONG), self.range(1, 5))
                }
            }
        };
        if self.chance(1, 2) {
            (a, b)
        } else {
            (b, a)
        }
    }
}

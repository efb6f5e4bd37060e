//! The only source of randomness of a simulated run (splitmix64 seeding, xoshiro256**).
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

/// The natural logarithm of 0 < x <= 1, from additions, multiplications and divisions alone: libraries differ
/// in the last place between processors, and a seed must mean the same everywhere.
fn ln(mut x: f64) -> f64 {
    let mut k = 0.0;
    while x < 0.7 {
        x *= 2.0;
        k += 1.0;
    }
    let t = (x - 1.0) / (x + 1.0);
    let t2 = t * t;
    let mut s = 0.0;
    let mut n = 21.0;
    while n > 0.0 {
        s = s * t2 + 1.0 / n;
        n -= 2.0;
    }
    2.0 * t * s - k * std::f64::consts::LN_2
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let mut s = [0; 4];
        for v in s.iter_mut() {
            x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
            *v = mix(x);
        }
        Rng { s }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability p (in 1/1_000_000 resolution)
    pub fn chance(&mut self, p: f64) -> bool {
        ((self.next() >> 11) as f64) < p * (1u64 << 53) as f64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// geometric-like number with the given mean, at least 1
    pub fn geom(&mut self, mean: f64) -> u64 {
        let u = ((self.next() >> 11) as f64 + 0.5) / (1u64 << 53) as f64;
        1 + (-ln(u) * (mean - 1.0).max(0.0)) as u64
    }
}

//! The only source of randomness.
#[derive(Clone, Copy, Debug)]
pub struct Rng {
    s: u64,
}

pub const fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub const fn zero() -> Rng {
        Rng { s: 0 }
    }
    pub const fn new(seed: u64) -> Rng {
        Rng { s: mix(seed.wrapping_add(0x9e3779b97f4a7c15)) }
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.s)
    }
    /// Uniform in 0..n (n > 0; 0 gives 0).
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    /// Geometric with the given mean, at least 1.  Integer arithmetic apart from one ln.
    pub fn geometric(&mut self, mean: u64) -> u64 {
        if mean <= 1 {
            return 1;
        }
        // -ln(u) by table-free integer method: count leading zeros plus linear interpolation.
        let u = self.next() | 1;
        let lz = u.leading_zeros() as u64;
        let frac = ((u << lz) >> 32) as u64 & 0x7fff_ffff; // 31 bits below the leading one
        // log2(1/x) ~ lz + (1 - frac/2^31)
        let l = (lz << 31) + (0x8000_0000u64 - frac);
        // ln = log2 * 0.693
        let e = (l as u128 * 693 * mean as u128) / (1000u128 << 31);
        (e as u64).max(1)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
    /// Log-uniform in 1..=max.
    pub fn logu(&mut self, max: u64) -> u64 {
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.range(1, bits);
        let hi = ((1u128 << b) - 1).min(max as u128) as u64;
        let lo = 1u64 << (b - 1);
        self.range(lo.min(hi), hi)
    }
}

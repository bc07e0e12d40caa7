//! xoshiro256** with splitmix seeding: the only source of randomness in the workloads.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed;
        let mut n = || {
            z = z.wrapping_add(0x9E3779B97F4A7C15);
            let mut x = z;
            x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
            x ^ (x >> 31)
        };
        Rng { s: [n(), n(), n(), n()] }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { ((self.u64() as u128 * n as u128) >> 64) as u64 }
    }
    /// An independent generator, leaving this one where it is.
    pub fn side(&self) -> Rng {
        Rng::new(self.s[0].rotate_left(23) ^ self.s[3].wrapping_mul(0x9E3779B97F4A7C15))
    }
    /// A size from lo..=hi, and one time in a hundred a far larger one, up to `big`.
    pub fn size(&mut self, lo: usize, hi: usize, big: usize) -> usize {
        if self.chance(0.01) { self.logr(hi as f64, big as f64) as usize } else { self.us(lo, hi) }
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn i(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    /// One time in thirteen a number people write: an integer or a single digit.
    fn round(u: u64, x: f64, a: f64, b: f64) -> f64 {
        let y = match u & 63 {
            0..=2 if x != 0.0 => {
                let m = 10f64.powf(x.abs().log10().floor());
                (x / m).round() * m
            }
            3 | 4 => x.round(),
            _ => return x,
        };
        if y > a.min(b) && y < a.max(b) { y } else { x }
    }
    pub fn range(&mut self, a: f64, b: f64) -> f64 {
        let u = self.u64();
        Self::round(u, a + (b - a) * ((u >> 11) as f64 / (1u64 << 53) as f64), a, b)
    }
    /// Log-uniform on [a, b], a > 0.
    pub fn logr(&mut self, a: f64, b: f64) -> f64 {
        let u = self.u64();
        let (la, lb) = (a.ln(), b.ln());
        Self::round(u, (la + (lb - la) * ((u >> 11) as f64 / (1u64 << 53) as f64)).exp(), a, b)
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn normal(&mut self) -> f64 {
        let u = 1.0 - self.f();
        let v = self.f();
        (-2.0 * u.ln()).sqrt() * (2.0 * std::f64::consts::PI * v).cos()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

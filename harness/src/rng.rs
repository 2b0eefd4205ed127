//! Deterministic random numbers (splitmix64) and boundary-biased values.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ stream.wrapping_mul(0xD1B54A32D192ED03));
        r.next(); r.next(); r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    pub fn byte(&mut self) -> u8 { self.next() as u8 }
    /// A u64 biased towards bit-length boundaries and type limits.
    pub fn u64b(&mut self) -> u64 {
        match self.below(10) {
            0 => self.below(4) as u64,
            1 => self.below(130) as u64,
            2 | 3 | 4 => { let k = self.below(64) as u32; let base = 1u64 << k;
                match self.below(4) { 0 => base, 1 => base.wrapping_sub(1), 2 => base.wrapping_add(1), _ => base | (self.next() & (base - 1)) } }
            5 => u64::MAX - self.below(3) as u64,
            6 => { let k = *self.pick(&[7u32, 8, 14, 15, 16, 31, 32, 33, 63]); (1u64 << k).wrapping_add(self.below(5) as u64).wrapping_sub(2) }
            7 => { let k = 7 * self.range(1, 9) as u32; (1u64 << k).wrapping_sub(self.below(2) as u64) }
            _ => self.next() >> self.below(64),
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.byte()).collect() }
}

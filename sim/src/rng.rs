//! SplitMix64: the only source of choices in the driver.
#[derive(Clone)]
pub struct Rng(pub u64);
pub fn mix(x: u64) -> u64 {
    let mut x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}
impl Rng {
    pub fn new(seed: u64, a: u64, b: u64) -> Rng { Rng(mix(mix(seed ^ 0x5151).wrapping_add(mix(a))) ^ mix(b.wrapping_mul(0xD1342543DE82EF95))) }
    pub fn next(&mut self) -> u64 { let x = self.0; self.0 = x.wrapping_add(0x9E3779B97F4A7C15); mix(x) }
    /// 0..n (n >= 1)
    pub fn below(&mut self, n: u64) -> u64 { ((self.next() as u128 * n as u128) >> 64) as u64 }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below((b - a + 1) as u64) as usize }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { &s[self.below(s.len() as u64) as usize] }
    pub fn byte(&mut self) -> u8 { (self.next() >> 56) as u8 }
}

//! Deterministic generator: every stream is a pure function of (seed, task, chunk).
#[derive(Clone)]
pub struct Rng { s: [u64; 4] }
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn mix(a: u64, b: u64) -> u64 { let mut x = a ^ b.wrapping_mul(0xd6e8feb86659fd93); splitmix(&mut x) }
pub fn hash_str(s: &str) -> u64 { s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) }
impl Rng {
    pub fn new(seed: u64, a: u64, b: u64) -> Rng {
        let mut x = mix(mix(seed, a), b);
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    #[inline]
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
        s[2] ^= t; s[3] = s[3].rotate_left(45);
        r
    }
    #[inline]
    pub fn u128(&mut self) -> u128 { (self.u64() as u128) << 64 | self.u64() as u128 }
    /// 0 <= r < n
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 { ((self.u64() as u128 * n as u128) >> 64) as u64 }
    #[inline]
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    #[inline]
    pub fn bool(&mut self) -> bool { self.u64() >> 63 != 0 }
    #[inline]
    pub fn unit(&mut self) -> f64 { (self.u64() >> 11) as f64 * (1.0 / (1u64 << 53) as f64) }
    #[inline]
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
}

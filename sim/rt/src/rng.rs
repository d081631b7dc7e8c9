//! The only source of randomness: splitmix64 / xoshiro256**.
#[derive(Clone, Debug)]
pub struct Rng([u64; 4]);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        let mut n = || { s = s.wrapping_add(0x9e3779b97f4a7c15); mix(s) };
        Rng([n(), n(), n(), n()])
    }
    pub fn fork(&mut self, tag: u64) -> Rng { Rng::new(self.next() ^ mix(tag)) }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
        s[2] ^= t; s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize { ((self.next() >> 32).wrapping_mul(n as u64) >> 32) as usize }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    /// True with probability p / 65536.
    pub fn p16(&mut self, p: u32) -> bool { p > 0 && ((self.next() >> 48) as u32) < p }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j) }
    }
    /// Index chosen with the given weights.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u32 = w.iter().sum();
        let mut x = self.below(tot.max(1) as usize) as u32;
        for (i, v) in w.iter().enumerate() { if x < *v { return i } x -= v }
        w.len() - 1
    }
}

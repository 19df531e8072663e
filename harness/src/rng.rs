//! Small deterministic generator (splitmix64), so that a case is a pure function of (property, seed, index).
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed);
        r.next();
        r
    }
    pub fn for_case(prop: &str, seed: u64, idx: u64) -> Rng {
        let mut h = 0xcbf29ce484222325u64;
        for b in prop.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        Rng::new(h ^ seed.wrapping_mul(0x9E3779B97F4A7C15) ^ idx.wrapping_mul(0xD1B54A32D192ED03).rotate_left(17))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if lo == 0 && hi == u64::MAX {
            return self.next();
        }
        lo + self.below(hi - lo + 1)
    }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// true once in n
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.us(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.us(i + 1));
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    /// sizes with mass at zero, one, powers of two and their neighbours, up to max
    pub fn size(&mut self, max: usize) -> usize {
        let n = match self.below(10) {
            0 => 0,
            1 => 1,
            2..=4 => self.us(8),
            5 | 6 => self.us(40),
            7 | 8 => {
                let bits = 64 - (max.max(1) as u64).leading_zeros() as u64;
                let p = 1usize << self.below(bits);
                (p + self.us(3)).saturating_sub(1)
            }
            _ => self.us(max + 1),
        };
        n.min(max)
    }
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &b in bytes {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

//! Small deterministic generator (splitmix64) and the operand distributions
//! every workload draws from.
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64, tag: &str) -> Rng {
        let mut h = 0xcbf29ce484222325u64;
        for b in tag.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ h);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn u32(&mut self) -> u32 {
        (self.next() >> 32) as u32
    }
    pub fn below(&mut self, n: u32) -> u32 {
        ((self.u32() as u64 * n as u64) >> 32) as u32
    }
    pub fn range(&mut self, lo: i64, hi_incl: i64) -> i64 {
        lo + (self.next() % ((hi_incl - lo + 1) as u64)) as i64
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u32) as usize]
    }
    /// A machine word biased towards the values where arithmetic goes wrong.
    pub fn word(&mut self) -> u32 {
        match self.below(8) {
            0 => self.pick(&[
                0,
                1,
                2,
                u32::MAX,
                0x8000_0000,
                0x7FFF_FFFF,
                0x8000_0001,
                0xFFFF_FFFE,
                0x80,
                0x7F,
                0xFF,
                0x8000,
                0x7FFF,
                0xFFFF,
                0x0001_0000,
                0x5555_5555,
                0xAAAA_AAAA,
                0xFFFF_F800,
                0x0000_07FF,
                0x0004_0000,
            ]),
            1 => 1u32 << self.below(32),
            2 => !(1u32 << self.below(32)),
            3 => (1u32 << self.below(32)).wrapping_sub(1),
            4 => (self.range(-64, 64)) as i32 as u32,
            5 => self.u32() >> self.below(32),
            _ => self.u32(),
        }
    }
    /// A second operand related to a first one (equal, adjacent, one bit off, negated…).
    pub fn related(&mut self, a: u32) -> u32 {
        match self.below(8) {
            0 => a,
            1 => a.wrapping_add(1),
            2 => a.wrapping_sub(1),
            3 => a ^ (1 << self.below(32)),
            4 => a.wrapping_neg(),
            5 => !a,
            6 => a ^ (self.u32() >> self.below(32)),
            _ => self.word(),
        }
    }
}

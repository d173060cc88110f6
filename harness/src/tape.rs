//! Decision tape: the bridge between proptest (which generates and shrinks a plain
//! vector of u32) and the structured generators. Every choice of a case is a pure
//! function of the tape; drawing past its end yields 0, the simplest choice.

thread_local! {
    /// draws beyond the end of the tape (they yield 0)
    pub static OVER: std::cell::Cell<u64> = std::cell::Cell::new(0);
}

pub struct Tape<'a> {
    d: &'a [u32],
    pos: usize,
}

impl<'a> Tape<'a> {
    pub fn new(d: &'a [u32]) -> Self {
        Tape { d, pos: 0 }
    }
    pub fn raw(&mut self) -> u32 {
        let v = self.d.get(self.pos).copied().unwrap_or_else(|| {
            OVER.with(|o| o.set(o.get() + 1));
            0
        });
        self.pos += 1;
        v
    }
    /// Uniform in 0..n, monotone in the tape value (so shrinking the value shrinks the choice).
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        ((self.raw() as u64 * n as u64) >> 32) as usize
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    pub fn u(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability num/den; 0 on the tape is false.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den as usize) as u32 >= den - num
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())].clone()
    }
    /// Index chosen with the given weights; the first one is the simplest.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u32 = w.iter().sum();
        let mut v = self.below(tot as usize) as u32;
        for (i, &x) in w.iter().enumerate() {
            if v < x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            // 0 on the tape keeps the order.
            let j = i - self.below(i + 1);
            xs.swap(i, j);
        }
    }
    /// Bulk content (pixels, payload bytes): expanded from one tape value.
    pub fn bulk(&mut self) -> Bulk {
        Bulk(self.raw() as u64)
    }
}

/// SplitMix64 expansion of one tape value.
#[derive(Clone)]
pub struct Bulk(u64);

impl Bulk {
    pub fn make(seed: u64) -> Bulk {
        Bulk(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (((self.next() >> 32) * n as u64) >> 32) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    pub fn byte(&mut self) -> u8 {
        (self.next() >> 40) as u8
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        (self.below(den as usize) as u32) < num
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &b in data {
        h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    h
}

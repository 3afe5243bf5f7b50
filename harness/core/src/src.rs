//! A case is a finite list of 16-bit choices produced (and shrunk) by proptest.
//! Everything random in a case is decoded from it; an exhausted list yields zeros,
//! and zero always selects the simplest alternative, so every generator terminates.

pub struct Src<'a> {
    data: &'a [u16],
    pos: usize,
    end: usize,
    ran_out: bool,
}

impl<'a> Src<'a> {
    pub fn new(data: &'a [u16]) -> Self {
        Self { data, pos: 0, end: data.len(), ran_out: false }
    }
    /// The whole choice list.
    pub fn data(&self) -> &[u16] {
        self.data
    }
    pub fn exhausted(&self) -> bool {
        self.pos >= self.end
    }
    /// A choice was asked for after the last one.
    pub fn ran_out(&self) -> bool {
        self.ran_out
    }
    pub fn remaining(&self) -> usize {
        self.end.saturating_sub(self.pos)
    }
    pub fn raw(&mut self) -> u16 {
        if self.pos >= self.end {
            self.ran_out = true;
            return 0;
        }
        self.pos += 1;
        self.data[self.pos - 1]
    }
    /// Keeps `num/den` of what remains for after `release`.
    pub fn hold(&mut self, num: usize, den: usize) {
        self.end -= self.remaining() * num / den;
    }
    pub fn release(&mut self) {
        self.end = self.data.len();
    }
    /// Uniform in `0..n` (monotone in the raw choice, so it shrinks towards 0).
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        (usize::from(self.raw()) * n) >> 16
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    /// True with probability `num/den`; exhausted means false.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        // high raw values mean true, so shrinking leads to false
        self.below(den) >= den - num
    }
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u32 = weights.iter().sum();
        let mut x = self.below(total as usize) as u32;
        for (i, &w) in weights.iter().enumerate() {
            if x < w {
                return i;
            }
            x -= w;
        }
        0
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.below(xs.len())]
    }
    pub fn u64(&mut self) -> u64 {
        (0..4).fold(0u64, |a, _| (a << 16) | u64::from(self.raw()))
    }
}

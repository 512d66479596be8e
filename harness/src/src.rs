/// Source of values for a check.
pub trait Src {
    fn u64(&mut self) -> u64;
    fn u8(&mut self) -> u8;
    fn u32(&mut self) -> u32;
    fn bool(&mut self) -> bool;
    /// any index-like value
    fn usize(&mut self) -> usize;
    /// 0 .. n-1
    fn below(&mut self, n: usize) -> usize;
    /// any bit pattern
    fn f64(&mut self) -> f64;
    /// any finite value
    fn fin(&mut self) -> f64 {
        let x = self.f64();
        self.assume(x.is_finite());
        x
    }
    /// any value but NaN
    fn num(&mut self) -> f64 {
        let x = self.f64();
        self.assume(!x.is_nan());
        x
    }
    /// small whole number (exact arithmetic)
    fn grid(&mut self) -> f64 {
        self.below(9) as f64 - 4.0
    }
    fn assume(&mut self, c: bool);
    fn ck(&mut self, c: bool, what: &'static str);
}
/// equal as f64 bit patterns, NaN equal to any NaN
pub fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

#[cfg(kani)]
pub struct K;
#[cfg(kani)]
impl Src for K {
    fn u64(&mut self) -> u64 {
        kani::any()
    }
    fn u8(&mut self) -> u8 {
        kani::any()
    }
    fn u32(&mut self) -> u32 {
        kani::any()
    }
    fn bool(&mut self) -> bool {
        kani::any()
    }
    fn usize(&mut self) -> usize {
        kani::any()
    }
    fn below(&mut self, n: usize) -> usize {
        let x: usize = kani::any();
        kani::assume(x < n);
        x
    }
    fn f64(&mut self) -> f64 {
        kani::any()
    }
    fn assume(&mut self, c: bool) {
        kani::assume(c)
    }
    fn ck(&mut self, c: bool, what: &'static str) {
        kani::assert(c, what)
    }
}

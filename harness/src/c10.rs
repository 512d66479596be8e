use crate::Src;
use rust_3d::*;
use std::collections::HashMap;

/// an arbitrary predicate on u8, given by its 256 answers
#[derive(Clone)]
struct Tab([u64; 4]);
impl IsFilter<u8> for Tab {
    fn is_allowed(&self, x: &u8) -> bool {
        (self.0[(*x >> 6) as usize] >> (*x & 63)) & 1 == 1
    }
}
fn tab<S: Src>(s: &mut S) -> Tab {
    match s.below(4) {
        0 => Tab([0; 4]),
        1 => Tab([u64::MAX; 4]),
        _ => Tab([s.u64(), s.u64(), s.u64(), s.u64()]),
    }
}
pub fn pairs<S: Src>(s: &mut S) {
    let (a, b) = (tab(s), tab(s));
    let and = FilterAND::new(a.clone(), b.clone());
    let or = FilterOR::new(a.clone(), b.clone());
    let xor = FilterXOR::new(a.clone(), b.clone());
    let not = FilterNegate::new(a.clone());
    let oi = FilterOuterInner::new(a.clone(), b.clone());
    for x in 0..=255u8 {
        let (p, q) = (a.is_allowed(&x), b.is_allowed(&x));
        s.ck(and.is_allowed(&x) == (p && q), "and");
        s.ck(or.is_allowed(&x) == (p || q), "or");
        s.ck(xor.is_allowed(&x) == (p != q), "xor");
        s.ck(not.is_allowed(&x) == !p, "negate");
        s.ck(oi.is_allowed(&x) == (p && !q), "outer but not inner");
        s.ck(FilterAllow::new().is_allowed(&x) && !FilterDeny::new().is_allowed(&x), "allow and deny");
    }
}
pub fn many<S: Src>(s: &mut S) {
    let n = s.below(7);
    let parts: Vec<Tab> = (0..n).map(|_| tab(s)).collect();
    let mut all = FilterAll::new();
    let mut any = FilterAny::new();
    for p in parts.iter() {
        all.filters.push(Box::new(p.clone()));
        any.filters.push(Box::new(p.clone()));
    }
    let mut seen = HashMap::new();
    for x in 0..=255u8 {
        let (p, q) = (parts.iter().all(|f| f.is_allowed(&x)), parts.iter().any(|f| f.is_allowed(&x)));
        *seen.entry((p, q)).or_insert(0) += 1;
        s.ck(all.is_allowed(&x) == p, "all parts");
        s.ck(any.is_allowed(&x) == q, "any part");
    }
}
/// combinators of combinators
pub fn nested<S: Src>(s: &mut S) {
    let (a, b, c) = (tab(s), tab(s), tab(s));
    let mut all = FilterAll::new();
    all.filters.push(Box::new(FilterOR::new(a.clone(), FilterNegate::new(b.clone()))));
    all.filters.push(Box::new(FilterXOR::new(b.clone(), c.clone())));
    let f = FilterOuterInner::new(all, FilterAND::new(a.clone(), c.clone()));
    for x in 0..=255u8 {
        let (p, q, r) = (a.is_allowed(&x), b.is_allowed(&x), c.is_allowed(&x));
        s.ck(f.is_allowed(&x) == ((p || !q) && (q != r) && !(p && r)), "nested combination");
    }
}
crate::natives! { pairs: 3000, many: 3000, nested: 3000 }

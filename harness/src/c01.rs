use crate::src::same;
use crate::Src;
use rust_3d::*;
use std::ops::Deref;

fn pos<S: Src>(s: &mut S) -> (Positive, f64) {
    let x = s.f64();
    let x = if x < 0.0 { -x } else { x };
    s.assume(x > 0.0);
    (Positive::new(x).unwrap(), x)
}
fn nn<S: Src>(s: &mut S) -> (NonNegative, f64) {
    let x = s.f64();
    let x = if x < 0.0 { -x } else { x };
    s.assume(x >= 0.0);
    (NonNegative::new(x).unwrap(), x)
}
pub fn create<S: Src>(s: &mut S) {
    let x = s.f64();
    match Positive::new(x) {
        Some(p) => s.ck(x > 0.0 && same(*p, x), "Positive only from values > 0, unchanged"),
        None => s.ck(!(x > 0.0), "Positive from every value > 0"),
    }
    match NonNegative::new(x) {
        Some(p) => s.ck(x >= 0.0 && same(*p, x), "NonNegative only from values >= 0, unchanged"),
        None => s.ck(!(x >= 0.0), "NonNegative from every value >= 0"),
    }
    s.ck(*Positive::one() == 1.0 && *NonNegative::one() == 1.0 && *NonNegative::zero() == 0.0, "constants");
    s.ck(*Positive::default() > 0.0 && *NonNegative::default() >= 0.0, "defaults are admissible");
    let (p, a) = pos(s);
    let (n, b) = nn(s);
    s.ck(same(*p.deref(), a) && same(*n.deref(), b), "deref");
    s.ck(same(*p.as_ref(), a) && same(*n.as_ref(), b), "as_ref");
    let (x, y): (f64, f64) = (p.clone().into(), n.clone().into());
    s.ck(same(x, a) && same(y, b), "into f64");
    s.ck(same(*NonNegative::from(p), a), "Positive as NonNegative");
    s.ck(same(*p.sqrt(), a.sqrt()) && same(*n.sqrt(), b.sqrt()), "sqrt");
    s.ck(*p.sqrt() > 0.0 && *n.sqrt() >= 0.0, "sqrt stays admissible");
}
pub fn operators<S: Src>(s: &mut S) {
    let (p, a) = pos(s);
    let (q, b) = pos(s);
    let (n, c) = nn(s);
    let (m, d) = nn(s);
    s.ck(same(*(p + q), a + b), "Positive + Positive");
    s.ck(same(*(p + n), a + c), "Positive + NonNegative");
    s.ck(same(*(p * q), a * b), "Positive * Positive");
    s.ck(same(*(p * n), a * c), "Positive * NonNegative");
    if a / b >= 0.0 {
        s.ck(same(*(p / q), a / b), "Positive / Positive");
    }
    if a / c >= 0.0 {
        s.ck(same(*(p / n), a / c), "Positive / NonNegative");
    }
    s.ck(same(*(n + m), c + d), "NonNegative + NonNegative");
    s.ck(same(*(n + p), c + a), "NonNegative + Positive");
    s.ck(same(*(n * m), c * d), "NonNegative * NonNegative");
    s.ck(same(*(n * p), c * a), "NonNegative * Positive");
    if c / d >= 0.0 {
        s.ck(same(*(n / m), c / d), "NonNegative / NonNegative");
    }
    if c / a >= 0.0 {
        s.ck(same(*(n / p), c / a), "NonNegative / Positive");
    }
    let mut x = p;
    x += q;
    s.ck(same(*x, a + b), "Positive += Positive");
    let mut x = p;
    x += n;
    s.ck(same(*x, a + c), "Positive += NonNegative");
    let mut x = p;
    x *= q;
    s.ck(same(*x, a * b), "Positive *= Positive");
    let mut x = n;
    x += m;
    s.ck(same(*x, c + d), "NonNegative += NonNegative");
    let mut x = n;
    x += p;
    s.ck(same(*x, c + a), "NonNegative += Positive");
    let mut x = n;
    x *= m;
    s.ck(same(*x, c * d), "NonNegative *= NonNegative");
    let mut x = n;
    x *= p;
    s.ck(same(*x, c * a), "NonNegative *= Positive");
    if c / d >= 0.0 {
        let mut x = n;
        x /= m;
        s.ck(same(*x, c / d), "NonNegative /= NonNegative");
    }
    if c / a >= 0.0 {
        let mut x = n;
        x /= p;
        s.ck(same(*x, c / a), "NonNegative /= Positive");
    }
}
crate::natives! { create: 300000, operators: 300000 }

// whole numbers held by f64: the integers of at most 2^53, for which sums and products that stay
// in this range are exact (assumed: IEEE)
pub mod wh {
    use vstd::prelude::*;
    use vstd::float::*;
    pub uninterp spec fn whole(x: f64) -> bool;
    pub uninterp spec fn val(x: f64) -> int;
    pub open spec fn lim() -> int { 0x20_0000_0000_0000 }
    pub open spec fn abs(x: int) -> int { if x < 0 { -x } else { x } }
    pub open spec fn is(x: f64, n: int) -> bool { whole(x) && val(x) == n }
    pub type Z = spec_fn(int, int) -> int;
    pub broadcast axiom fn ax_val(x: f64) requires #[trigger] whole(x) ensures -lim() <= val(x) <= lim();
    pub broadcast axiom fn ax_add(x: f64, y: f64) requires whole(x), whole(y), -lim() <= val(x) + val(y) <= lim() ensures is(#[trigger] x.ieee_add(y), val(x) + val(y));
    pub broadcast axiom fn ax_sub(x: f64, y: f64) requires whole(x), whole(y), -lim() <= val(x) - val(y) <= lim() ensures is(#[trigger] x.ieee_sub(y), val(x) - val(y));
    pub broadcast axiom fn ax_mul(x: f64, y: f64) requires whole(x), whole(y), -lim() <= val(x) * val(y) <= lim() ensures is(#[trigger] x.ieee_mul(y), val(x) * val(y));
    pub broadcast axiom fn ax_neg(x: f64) requires whole(x) ensures is(#[trigger] x.ieee_neg(), -val(x));
    pub broadcast group ax { ax_val, ax_add, ax_sub, ax_mul, ax_neg }
}
use wh::{whole, val, lim, abs, is, Z};
pub axiom fn lits() ensures is(0.0f64, 0), is(1.0f64, 1), is(2.0f64, 2);
/// `-x` (assumed: Rust's operator is the IEEE operation)
#[verifier::external_body]
pub fn negate(x: f64) -> (r: f64) ensures r == x.ieee_neg() { -x }
pub proof fn bounded(x: int, y: int, p: int, q: int)
    requires -p <= x <= p, -q <= y <= q
    ensures abs(x * y) <= p * q
{
    assert(abs(x * y) == abs(x) * abs(y)) by(nonlinear_arith) requires true { 
        if x >= 0 && y >= 0 { assert(x * y >= 0) by(nonlinear_arith) requires x >= 0, y >= 0; }
        else if x >= 0 { assert(x * y <= 0) by(nonlinear_arith) requires x >= 0, y < 0; assert(x * -y == -(x * y)) by(nonlinear_arith); }
        else if y >= 0 { assert(x * y <= 0) by(nonlinear_arith) requires x < 0, y >= 0; assert(-x * y == -(x * y)) by(nonlinear_arith); }
        else { assert(x * y >= 0) by(nonlinear_arith) requires x < 0, y < 0; assert(-x * -y == x * y) by(nonlinear_arith); }
    }
    assert(abs(x) * abs(y) <= p * q) by(nonlinear_arith) requires 0 <= abs(x) <= p, 0 <= abs(y) <= q;
}

#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::ops::*;
use std::marker::PhantomData;
verus! {
//@include float.inc
//@include whole.inc
broadcast use {vstd::seq_lib::group_seq_properties, fl::ax, wh::ax, times::ax};
//@include base.inc
//@include num.inc
//@include pos.inc
//@include pos2.inc
//@include pos3.inc
//@include point2.inc
//@include point3.inc
//@include norm3.inc
//@include ops3.inc
/// points of time along a line: whole numbers or one of the infinities
pub mod times {
    use vstd::prelude::*;
    use vstd::float::*;
    use super::wh::*;
    pub uninterp spec fn inf() -> f64;
    pub uninterp spec fn ninf() -> f64;
    pub open spec fn far() -> int { 0x1000_0000_0000_0000 }
    pub open spec fn time(x: f64) -> bool { whole(x) || x == inf() || x == ninf() }
    pub open spec fn at(x: f64) -> int { if x == inf() { far() } else if x == ninf() { -far() } else { val(x) } }
    /// the order of the floats is that of the numbers (assumed: IEEE)
    pub broadcast axiom fn ax_lt(x: f64, y: f64) requires time(x), time(y) ensures #[trigger] x.ieee_lt(y) == (at(x) < at(y));
    pub broadcast axiom fn ax_le(x: f64, y: f64) requires time(x), time(y) ensures #[trigger] x.ieee_le(y) == (at(x) <= at(y));
    pub broadcast axiom fn ax_eq(x: f64, y: f64) requires time(x), time(y) ensures #[trigger] x.ieee_eq(y) == (at(x) == at(y));
    pub broadcast axiom fn ax_inf() ensures !whole(#[trigger] inf()), !whole(ninf()), inf() != ninf();
    pub broadcast axiom fn ax_ninf() ensures !whole(#[trigger] ninf());
    /// dividing by one or minus one is exact (assumed: IEEE)
    pub broadcast axiom fn ax_div(x: f64, y: f64) requires whole(x), whole(y), val(y) == 1 || val(y) == -1 ensures is(#[trigger] x.ieee_div(y), turn(val(x), val(y)));
    /// t * d for d in -1, 0, 1
    pub open spec fn turn(t: int, d: int) -> int { if d > 0 { t } else if d < 0 { -t } else { 0 } }
    pub broadcast group ax { ax_lt, ax_le, ax_eq, ax_inf, ax_ninf, ax_div }
}
use times::{turn, time, at, inf, ninf, far};
/// `f64::INFINITY`, `f64::NEG_INFINITY`
#[verifier::external_body]
pub fn infinity() -> (r: f64) ensures r == inf() { f64::INFINITY }
#[verifier::external_body]
pub fn neg_infinity() -> (r: f64) ensures r == ninf() { f64::NEG_INFINITY }
//@ file src/line_3d.rs
//@ struct Line3D
//@ enditem
//@ file src/bounding_box_3d.rs
//@ struct BoundingBox3D
//@ enditem
//@ impl BoundingBox3D
//@ fn min_p
//@ ret r
//@ spec
        ensures r == self.min,
//@ fn max_p
//@ ret r
//@ spec
        ensures r == self.max,
//@ enditem
/// whole numbers of moderate size
pub open spec fn mid(x: f64) -> bool { whole(x) && -0x4_0000_0000_0000 <= val(x) <= 0x4_0000_0000_0000 }
/// whole coordinates, a direction along an axis or a diagonal
pub open spec fn regular(l: Line3D, b: BoundingBox3D) -> bool {
    (forall|i: int| 0 <= i < 3 ==> mid(#[trigger] l.anchor.at(i)) && mid(b.min.at(i)) && mid(b.max.at(i)) && val(b.min.at(i)) < val(b.max.at(i)) && whole(l.dir.at(i)) && -1 <= val(l.dir.at(i)) <= 1)
        && exists|i: int| 0 <= i < 3 && val(#[trigger] l.dir.at(i)) != 0
}
/// coordinate i of the line at time t
pub open spec fn along(l: Line3D, i: int, t: int) -> int { val(l.anchor.at(i)) + turn(t, val(l.dir.at(i))) }
/// at time t the line is in the box (its sides included), in dimension i
pub open spec fn within(l: Line3D, b: BoundingBox3D, i: int, t: int) -> bool { val(b.min.at(i)) <= along(l, i, t) <= val(b.max.at(i)) }
pub open spec fn inside(l: Line3D, b: BoundingBox3D, t: int) -> bool { within(l, b, 0, t) && within(l, b, 1, t) && within(l, b, 2, t) }
/// p is where the line is at time t
pub open spec fn located(l: Line3D, p: Point3D, t: int) -> bool { is(p.x, along(l, 0, t)) && is(p.y, along(l, 1, t)) && is(p.z, along(l, 2, t)) }
/// p is where the line enters the box
pub open spec fn entry(l: Line3D, b: BoundingBox3D, p: Point3D) -> bool { exists|t: int| #[trigger] inside(l, b, t) && located(l, p, t) && forall|s: int| #[trigger] inside(l, b, s) ==> t <= s }
/// when a line that starts at a and moves by d is between lo and hi
#[verifier::opaque]
pub open spec fn first1(a: int, d: int, lo: int, hi: int) -> int { if d > 0 { lo - a } else if d < 0 { a - hi } else { -far() } }
#[verifier::opaque]
pub open spec fn last1(a: int, d: int, lo: int, hi: int) -> int { if d > 0 { hi - a } else if d < 0 { a - lo } else { far() } }
#[verifier::opaque]
pub open spec fn off1(a: int, d: int, lo: int, hi: int) -> bool { d == 0 && !(lo <= a <= hi) }
/// none if the line is never between lo and hi, otherwise the two ends in either order
pub open spec fn slab(a: int, d: int, lo: int, hi: int, r: Option<(f64, f64)>) -> bool {
    if off1(a, d, lo, hi) { r is None }
    else { r is Some && time(r->Some_0.0) && time(r->Some_0.1) && ends(at(r->Some_0.0), at(r->Some_0.1), first1(a, d, lo, hi), last1(a, d, lo, hi)) }
}
pub open spec fn ends(x: int, y: int, first: int, last: int) -> bool { first <= last && ((x == first && y == last) || (x == last && y == first)) }
pub proof fn turn_mul(t: int, d: int) requires -1 <= d <= 1 ensures t * d == turn(t, d), d * t == turn(t, d)
{ assert(t * d == turn(t, d) && d * t == turn(t, d)) by(nonlinear_arith) requires -1 <= d <= 1, turn(t, d) == (if d > 0 { t } else if d < 0 { -t } else { 0 }); }
/// when the line is in the box, in dimension i
#[verifier::opaque]
pub open spec fn first(l: Line3D, b: BoundingBox3D, i: int) -> int { first1(val(l.anchor.at(i)), val(l.dir.at(i)), val(b.min.at(i)), val(b.max.at(i))) }
#[verifier::opaque]
pub open spec fn last(l: Line3D, b: BoundingBox3D, i: int) -> int { last1(val(l.anchor.at(i)), val(l.dir.at(i)), val(b.min.at(i)), val(b.max.at(i))) }
/// along this dimension the line never enters the box
#[verifier::opaque]
pub open spec fn off(l: Line3D, b: BoundingBox3D, i: int) -> bool { off1(val(l.anchor.at(i)), val(l.dir.at(i)), val(b.min.at(i)), val(b.max.at(i))) }
pub proof fn crossing(l: Line3D, b: BoundingBox3D, i: int)
    requires regular(l, b), 0 <= i < 3
    ensures !off(l, b, i) ==> forall|t: int| -far() <= t <= far() ==> #[trigger] within(l, b, i, t) == (first(l, b, i) <= t <= last(l, b, i)),
        off(l, b, i) ==> forall|t: int| !#[trigger] within(l, b, i, t),
        val(l.dir.at(i)) != 0 ==> forall|t: int| #[trigger] within(l, b, i, t) ==> -far() < t < far(),
        val(l.dir.at(i)) != 0 ==> -0x8_0000_0000_0000 <= first(l, b, i) <= last(l, b, i) <= 0x8_0000_0000_0000,
        val(l.dir.at(i)) == 0 ==> first(l, b, i) == -far() && last(l, b, i) == far(),
{ reveal(first); reveal(last); reveal(off); reveal(first1); reveal(last1); reveal(off1); assert(mid(l.anchor.at(i)) && whole(l.dir.at(i))); }
pub open spec fn least(x: int, y: int) -> int { if x < y { x } else { y } }
pub open spec fn most(x: int, y: int) -> int { if x < y { y } else { x } }
/// from when on, and until when, the line is in the box
#[verifier::opaque]
pub open spec fn from(l: Line3D, b: BoundingBox3D) -> int { most(most(first(l, b, 0), first(l, b, 1)), first(l, b, 2)) }
#[verifier::opaque]
pub open spec fn until(l: Line3D, b: BoundingBox3D) -> int { least(least(last(l, b, 0), last(l, b, 1)), last(l, b, 2)) }
/// what `intersection` has to return
#[verifier::opaque]
pub open spec fn answered(l: Line3D, b: BoundingBox3D, r: Option<Point3D>) -> bool {
    r.is_some() == (exists|t: int| t >= 0 && #[trigger] inside(l, b, t)) && (r.is_some() ==> entry(l, b, r->Some_0))
}
/// the line meets the box while it is in it in all dimensions
pub proof fn meets(l: Line3D, b: BoundingBox3D)
    requires regular(l, b)
    ensures off(l, b, 0) || off(l, b, 1) || off(l, b, 2) ==> answered(l, b, None),
        !(off(l, b, 0) || off(l, b, 1) || off(l, b, 2)) ==> ({ let (lo, hi) = (from(l, b), until(l, b));
            -0x8_0000_0000_0000 <= lo <= 0x8_0000_0000_0000 && -0x8_0000_0000_0000 <= hi <= 0x8_0000_0000_0000
            && (!(lo <= hi && hi >= 0) ==> answered(l, b, None))
            && (lo <= hi && hi >= 0 ==> forall|p: Point3D| located(l, p, lo) ==> #[trigger] answered(l, b, Some(p))) }),
{
    reveal(from); reveal(until); reveal(answered);
    crossing(l, b, 0); crossing(l, b, 1); crossing(l, b, 2);
    let k = choose|i: int| 0 <= i < 3 && val(#[trigger] l.dir.at(i)) != 0;
    assert(k == 0 || k == 1 || k == 2);
    if !(off(l, b, 0) || off(l, b, 1) || off(l, b, 2)) {
        let (lo, hi) = (from(l, b), until(l, b));
        assert forall|t: int| #[trigger] inside(l, b, t) == (lo <= t <= hi) by { assert(within(l, b, k, t) ==> -far() < t < far()); if -far() <= t <= far() { } }
        if lo <= hi && hi >= 0 {
            let t = if lo >= 0 { lo } else { 0 }; assert(inside(l, b, t)); assert(inside(l, b, lo));
        }
    }
}
//@ file src/functions.rs
//@ freefn min64
//@ ret r
//@ spec
    requires time(a), time(b),
    ensures time(r), at(r) == (if at(a) < at(b) { at(a) } else { at(b) }),
//@ enditem
//@ freefn max64
//@ ret r
//@ spec
    requires time(a), time(b),
    ensures time(r), at(r) == (if at(a) < at(b) { at(b) } else { at(a) }),
//@ enditem
//@ freefn intersection_slab
//@ ret r
//@ spec
    requires mid(anchor), mid(min), mid(max), whole(dir), -1 <= val(dir) <= 1, val(min) < val(max),
    ensures slab(val(anchor), val(dir), val(min), val(max), r),
//@ replace `f64::INFINITY` => `infinity()` ; see infinity
//@ replace `f64::NEG_INFINITY` => `neg_infinity()` ; see neg_infinity
//@ start
    proof { lits(); reveal(first1); reveal(last1); reveal(off1); }
//@ enditem
//@ freefn intersection
//@ ret r
//@ spec
    requires regular(*l, *b),
    ensures answered(*l, *b, r),
//@ start
    proof {
        lits(); meets(*l, *b); assert(mid(l.anchor.at(0)) && mid(l.anchor.at(1)) && mid(l.anchor.at(2)));
        reveal(first); reveal(last); reveal(off); reveal(from); reveal(until);
        let lo = from(*l, *b);
        turn_mul(lo, val(l.dir.at(0))); turn_mul(lo, val(l.dir.at(1))); turn_mul(lo, val(l.dir.at(2)));

    }
//@ enditem
/// a box around one the ray meets is met as well (assumed for all values in c_aabb)
pub proof fn larger(l: Line3D, b: BoundingBox3D, a: BoundingBox3D, t: int)
    requires inside(l, a, t), forall|i: int| 0 <= i < 3 ==> val(#[trigger] b.min.at(i)) <= val(a.min.at(i)) && val(a.max.at(i)) <= val(b.max.at(i))
    ensures inside(l, b, t)
{ assert(val(b.min.at(0)) <= val(a.min.at(0)) && val(b.min.at(1)) <= val(a.min.at(1)) && val(b.min.at(2)) <= val(a.min.at(2))); }
} fn main() {}

#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::ops::*;
verus! {
//@include float.inc
broadcast use {vstd::seq_lib::group_seq_properties, fl::ax};
//@include base.inc
//@include num.inc
//@include pos.inc
//@include pos2.inc
//@include pos3.inc
//@include point2.inc
//@include point3.inc
//@include flemmas.inc
// the gap between an interval and a value / another interval
pub open spec fn gap(l: f64, h: f64, x: f64) -> f64 { if x.ieee_lt(l) { l.ieee_sub(x) } else if h.ieee_lt(x) { x.ieee_sub(h) } else { 0.0f64 } }
pub open spec fn gap2(l: f64, h: f64, l2: f64, h2: f64) -> f64 { if h2.ieee_lt(l) { l.ieee_sub(h2) } else if h.ieee_lt(l2) { l2.ieee_sub(h) } else { 0.0f64 } }
pub open spec fn sq(x: f64) -> f64 { x.ieee_mul(x) }
pub proof fn sq_nneg(x: f64) requires !nan(x) ensures nneg(sq(x)) { assert(x.ieee_eq(x) ==> 0.0f64.ieee_le(x.ieee_mul(x))) by(bit_vector); }
pub proof fn add_nneg(x: f64, y: f64) requires nneg(x), nneg(y) ensures nneg(x.ieee_add(y)) { assert(0.0f64.ieee_le(x) && 0.0f64.ieee_le(y) ==> 0.0f64.ieee_le(x.ieee_add(y))) by(bit_vector); }
pub proof fn sq_zero(x: f64) requires x.ieee_eq(0.0f64) ensures sq(x) == sq(0.0f64) { assert(x.ieee_eq(0.0f64) ==> x.ieee_mul(x) == 0.0f64.ieee_mul(0.0f64)) by(bit_vector); }
/// x - y and y - x differ in their sign only (assumed: IEEE subtraction with round to nearest; out of the bit_vector back end's reach)
#[verifier::external_body]
pub proof fn sub_anti(x: f64, y: f64) requires !nan(x.ieee_sub(y))
    ensures !nan(y.ieee_sub(x)), y.ieee_sub(x) == x.ieee_sub(y).ieee_neg() || (y.ieee_sub(x).ieee_eq(0.0f64) && x.ieee_sub(y).ieee_eq(0.0f64)) { }
/// a difference may be taken in either order
pub proof fn sq_sym(x: f64, y: f64) requires !nan(x.ieee_sub(y)) ensures sq(x.ieee_sub(y)) == sq(y.ieee_sub(x)), !nan(y.ieee_sub(x)) {
    let (a, b) = (x.ieee_sub(y), y.ieee_sub(x));
    sub_anti(x, y);
    assert(a.ieee_eq(a) ==> a.ieee_mul(a) == a.ieee_neg().ieee_mul(a.ieee_neg())) by(bit_vector);
    if a.ieee_eq(0.0f64) && b.ieee_eq(0.0f64) { sq_zero(a); sq_zero(b); }
}
pub proof fn eq_diff(x: f64, y: f64) requires x.ieee_eq(y), !nan(x.ieee_sub(y)) ensures x.ieee_sub(y).ieee_eq(0.0f64) { assert(x.ieee_eq(y) && x.ieee_sub(y).ieee_eq(x.ieee_sub(y)) ==> x.ieee_sub(y).ieee_eq(0.0f64)) by(bit_vector); }
pub proof fn lt_diff(x: f64, y: f64) ensures x.ieee_lt(y) ==> x.ieee_sub(y).ieee_lt(0.0f64) && 0.0f64.ieee_lt(y.ieee_sub(x)) { assert(x.ieee_lt(y) ==> x.ieee_sub(y).ieee_lt(0.0f64) && 0.0f64.ieee_lt(y.ieee_sub(x))) by(bit_vector); }
/// the largest of l - x, 0 and x - h is the gap (up to the sign of a zero)
pub proof fn gap_is_max(l: f64, h: f64, x: f64)
    requires l.ieee_lt(h), !nan(l.ieee_sub(x)), !nan(x.ieee_sub(h)),
    ensures sq(max3(l.ieee_sub(x), 0.0f64, x.ieee_sub(h))) == sq(gap(l, h, x)), !nan(gap(l, h, x)), !nan(max3(l.ieee_sub(x), 0.0f64, x.ieee_sub(h))),
{
    let (a, b, z) = (l.ieee_sub(x), x.ieee_sub(h), 0.0f64);
    assert(l.ieee_sub(x).ieee_eq(l.ieee_sub(x)) ==> x.ieee_eq(x)) by(bit_vector);
    assert(0.0f64.ieee_eq(0.0f64)) by(bit_vector);
    lt_facts(l, h); tri(x, l); tri(x, h); tri(l, x); tri(h, x); tri(a, b); tri(a, z); tri(b, z); tri(z, a); tri(z, b); tri(z, z); tri(a, a); tri(b, b);
    lt_le_trans(x, l, h); lt_le_trans(l, h, x); lt_diff(x, l); lt_diff(l, x); lt_diff(x, h); lt_diff(h, x);
    assert(0.0f64.ieee_eq(0.0f64)) by(bit_vector);
    if x.ieee_lt(l) { lt_facts(z, a); lt_facts(x, h); lt_le_trans(b, z, a); lt_facts(b, z); lt_le_trans(x, l, h); }
    else if h.ieee_lt(x) { lt_facts(l, x); lt_facts(z, b); lt_facts(a, z); }
    else {
        if x.ieee_eq(l) { assert(x.ieee_eq(l) ==> l.ieee_eq(x)) by(bit_vector); eq_diff(l, x); sq_zero(a); }
        if x.ieee_eq(h) { eq_diff(x, h); sq_zero(b); }
        sq_zero(max3(a, z, b));
    }
}
pub open spec fn max2(a: f64, b: f64) -> f64 { if b.ieee_lt(a) { a } else { b } }
pub open spec fn max3(a: f64, b: f64, c: f64) -> f64 { max2(max2(a, b), c) }
//@ file src/utils.rs
//@ freefn max_f64
//@ ret r
//@ spec
    ensures r == max2(a, b),
//@ enditem
//@ freefn max_f64_3
//@ ret r
//@ spec
    ensures r == max3(a, b, c),
//@ enditem
//@ file src/non_negative.rs
//@ impl NonNegative
//@ fn sqrt
//@ ret r
//@ spec
        ensures r.val == f_sqrt(self.val),
//@ enditem
pub proof fn zero_sums() ensures sq(0.0f64).ieee_add(sq(0.0f64)).ieee_eq(0.0f64), sq(0.0f64).ieee_add(sq(0.0f64)).ieee_add(sq(0.0f64)).ieee_eq(0.0f64) {
    assert(0.0f64.ieee_mul(0.0f64).ieee_add(0.0f64.ieee_mul(0.0f64)).ieee_eq(0.0f64)) by(bit_vector);
    assert(0.0f64.ieee_mul(0.0f64).ieee_add(0.0f64.ieee_mul(0.0f64)).ieee_add(0.0f64.ieee_mul(0.0f64)).ieee_eq(0.0f64)) by(bit_vector);
}
pub proof fn le_facts(x: f64, y: f64) requires x.ieee_le(y) ensures !nan(x), !nan(y), !y.ieee_lt(x) {
    assert(x.ieee_le(y) ==> x.ieee_eq(x) && y.ieee_eq(y) && !y.ieee_lt(x)) by(bit_vector);
}
pub proof fn each_dim(l: f64, h: f64, l2: f64, h2: f64) requires l.ieee_lt(h), l2.ieee_lt(h2)
    ensures gap2(l, h, l2, h2) == gap2(l2, h2, l, h), l.ieee_lt(h2) && l2.ieee_lt(h) ==> gap2(l, h, l2, h2) == 0.0f64,
        l.ieee_lt(l2) && h2.ieee_lt(h) ==> !(l2.ieee_lt(l) && h.ieee_lt(h2)) && l.ieee_lt(h2) && l2.ieee_lt(h),
{
    lt_facts(l, h); lt_facts(l2, h2); tri(l, h2); tri(l2, h); tri(l, l2); tri(h, h2); tri(h2, l); tri(h, l2); tri(l2, l); tri(h2, h);
    lt_le_trans(h2, l, h); lt_le_trans(l2, h2, h); lt_le_trans(l, l2, h2); lt_le_trans(h, l2, h2); lt_le_trans(l2, h2, l); lt_le_trans(h, h, l2); lt_le_trans(h2, l, l); lt_le_trans(l, h, l2);
    lt_le_trans(l2, l, h); lt_le_trans(l, h, h2); lt_le_trans(h, l2, l); lt_le_trans(h2, h, l2);
    if h2.ieee_lt(l) && h.ieee_lt(l2) { lt_facts(h2, l); lt_facts(h, l2); lt_le_trans(l2, l, h); le_trans(h2, l, h); le_trans(l, h, l2); lt_le_trans(h2, l, l2); lt_facts(h2, l2); }
}
/// the square root of a non-negative number is non-negative (assumed: IEEE sqrt)
#[verifier::external_body]
pub proof fn f_sqrt_nneg(x: f64) ensures nneg(x) ==> nneg(f_sqrt(x)) { }
//@ file src/has_distance_to.rs
//@ trait HasDistanceTo
//@ ghost
    /// the distance is a number (no NaN from infinite coordinates)
    spec fn dist_req(&self, other: &T) -> bool;
    spec fn sqr_dist(&self, other: &T) -> f64;
//@ fn sqr_distance
//@ ret r
//@ spec
        requires self.dist_req(other),
        ensures r.val == self.sqr_dist(other), nneg(r.val),
//@ fn distance default
//@ ret r
//@ spec
        requires self.dist_req(other),
        ensures r.val == f_sqrt(self.sqr_dist(other)),
//@ enditem
//@ file src/bounding_box_2d.rs
//@ struct BoundingBox2D
//@ enditem
impl Clone for BoundingBox2D { fn clone(&self) -> (r: Self) ensures r == *self { BoundingBox2D { min: self.min.clone(), max: self.max.clone() } } }
impl BoundingBox2D {
    pub open spec fn lo(&self, i: int) -> f64 { self.min.at(i) }
    pub open spec fn hi(&self, i: int) -> f64 { self.max.at(i) }
    /// the minimum is strictly below the maximum in every dimension
    pub open spec fn ok(&self) -> bool { self.lo(0).ieee_lt(self.hi(0)) && self.lo(1).ieee_lt(self.hi(1)) }
    pub open spec fn is(&self, a: spec_fn(int) -> f64, b: spec_fn(int) -> f64) -> bool { self.lo(0) == a(0) && self.hi(0) == b(0) && self.lo(1) == a(1) && self.hi(1) == b(1) }
}
impl BoundingBox2D {
    /// a position strictly between the limits in every dimension
    pub open spec fn strictly_in(&self, p: spec_fn(int) -> f64) -> bool { self.lo(0).ieee_lt(p(0)) && p(0).ieee_lt(self.hi(0)) && self.lo(1).ieee_lt(p(1)) && p(1).ieee_lt(self.hi(1)) }
    /// both limits of `a` strictly between those of `self`
    pub open spec fn around(&self, a: BoundingBox2D) -> bool { self.lo(0).ieee_lt(a.lo(0)) && a.hi(0).ieee_lt(self.hi(0)) && self.lo(1).ieee_lt(a.lo(1)) && a.hi(1).ieee_lt(self.hi(1)) }
    /// the open extents overlap in every dimension
    pub open spec fn overlaps(&self, a: BoundingBox2D) -> bool { self.lo(0).ieee_lt(a.hi(0)) && a.lo(0).ieee_lt(self.hi(0)) && self.lo(1).ieee_lt(a.hi(1)) && a.lo(1).ieee_lt(self.hi(1)) }
    pub open spec fn at_d(&self, p: spec_fn(int) -> f64) -> bool { !nan(self.lo(0).ieee_sub(p(0))) && !nan(p(0).ieee_sub(self.hi(0))) && !nan(self.lo(1).ieee_sub(p(1))) && !nan(p(1).ieee_sub(self.hi(1))) }
    pub open spec fn sqr_gaps(&self, p: spec_fn(int) -> f64) -> f64 { sq(gap(self.lo(0), self.hi(0), p(0))).ieee_add(sq(gap(self.lo(1), self.hi(1), p(1)))) }
}
//@ impl BoundingBox2D
//@ fn min_p
//@ ret r
//@ spec
        ensures r == self.min,
//@ fn max_p
//@ ret r
//@ spec
        ensures r == self.max,
//@ fn is_inside
//@ ret r
//@ spec
        ensures r == other.around(*self),
//@ fn contains
//@ ret r
//@ spec
        ensures r == self.strictly_in(|i: int| other.at(i)),
//@ fn has_inside
//@ ret r
//@ spec
        ensures r == self.around(*other),
//@ fn collides_with
//@ ret r
//@ spec
        requires self.ok(), other.ok(),
        ensures r == self.overlaps(*other),
//@ fn crossing_x_value
//@ ret r
//@ spec
        ensures r == (self.lo(0).ieee_lt(x) && x.ieee_lt(self.hi(0))),
//@ fn crossing_y_value
//@ ret r
//@ spec
        ensures r == (self.lo(1).ieee_lt(y) && y.ieee_lt(self.hi(1))),
//@ fn distance
//@ ret r
//@ spec
        requires self.ok(), self.at_d(|i: int| other.at(i)),
        ensures r.val == f_sqrt(self.sqr_gaps(|i: int| other.at(i))), nneg(r.val),
//@ start
        proof { f_sqrt_nneg(self.sqr_gaps(|i: int| other.at(i))); }
//@ fn sqr_distance
//@ ret r
//@ spec
        requires self.ok(), self.at_d(|i: int| other.at(i)),
        ensures r.val == self.sqr_gaps(|i: int| other.at(i)), nneg(r.val),
//@ start
        proof {
            gap_is_max(self.lo(0), self.hi(0), other.at(0)); sq_nneg(gap(self.lo(0), self.hi(0), other.at(0))); gap_is_max(self.lo(1), self.hi(1), other.at(1)); sq_nneg(gap(self.lo(1), self.hi(1), other.at(1)));
            add_nneg(sq(gap(self.lo(0), self.hi(0), other.at(0))), sq(gap(self.lo(1), self.hi(1), other.at(1))));
            
        }
//@ enditem
//@ impl HasDistanceTo<BoundingBox2D> for BoundingBox2D
//@ ghost
    open spec fn dist_req(&self, other: &BoundingBox2D) -> bool { self.ok() && other.ok() && !nan(self.lo(0).ieee_sub(other.hi(0))) && !nan(other.lo(0).ieee_sub(self.hi(0))) && !nan(self.lo(1).ieee_sub(other.hi(1))) && !nan(other.lo(1).ieee_sub(self.hi(1))) }
    open spec fn sqr_dist(&self, other: &BoundingBox2D) -> f64 { sq(gap2(self.lo(0), self.hi(0), other.lo(0), other.hi(0))).ieee_add(sq(gap2(self.lo(1), self.hi(1), other.lo(1), other.hi(1)))) }
//@ fn sqr_distance
//@ start
        proof {
            sq_sym(self.lo(0), other.hi(0)); sq_sym(other.lo(0), self.hi(0)); sq_nneg(self.lo(0).ieee_sub(other.hi(0))); sq_nneg(other.lo(0).ieee_sub(self.hi(0))); sq_sym(self.lo(1), other.hi(1)); sq_sym(other.lo(1), self.hi(1)); sq_nneg(self.lo(1).ieee_sub(other.hi(1))); sq_nneg(other.lo(1).ieee_sub(self.hi(1)));
            assert(!nan(0.0f64)) by { assert(0.0f64.ieee_eq(0.0f64)) by(bit_vector); }
            sq_nneg(0.0f64);
            add_nneg(sq(gap2(self.lo(0), self.hi(0), other.lo(0), other.hi(0))), sq(gap2(self.lo(1), self.hi(1), other.lo(1), other.hi(1))));
            
        }
//@ enditem
pub proof fn relations_2(a: BoundingBox2D, b: BoundingBox2D)
    requires a.ok(), b.ok(),
    ensures a.overlaps(b) == b.overlaps(a), a.overlaps(a), a.around(b) ==> !b.around(a) && a.overlaps(b),
        a.dist_req(&b) == b.dist_req(&a) && (a.dist_req(&b) ==> a.sqr_dist(&b) == b.sqr_dist(&a)),
        // no gap if and only if the closed boxes meet
        a.dist_req(&b) && a.overlaps(b) ==> a.sqr_dist(&b).ieee_eq(0.0f64),
{
    lt_facts(a.lo(0), a.hi(0)); lt_facts(b.lo(0), b.hi(0)); each_dim(a.lo(0), a.hi(0), b.lo(0), b.hi(0)); lt_facts(a.lo(1), a.hi(1)); lt_facts(b.lo(1), b.hi(1)); each_dim(a.lo(1), a.hi(1), b.lo(1), b.hi(1));
    zero_sums();
}
/// inside or on the box: no distance
pub proof fn zero_distance_2(a: BoundingBox2D, p: spec_fn(int) -> f64)
    requires a.ok(), a.lo(0).ieee_le(p(0)), p(0).ieee_le(a.hi(0)), a.lo(1).ieee_le(p(1)), p(1).ieee_le(a.hi(1)),
    ensures a.sqr_gaps(p).ieee_eq(0.0f64),
{
    le_facts(a.lo(0), p(0)); le_facts(p(0), a.hi(0)); le_facts(a.lo(1), p(1)); le_facts(p(1), a.hi(1));
    zero_sums();
}
//@ file src/bounding_box_3d.rs
//@ struct BoundingBox3D
//@ enditem
impl Clone for BoundingBox3D { fn clone(&self) -> (r: Self) ensures r == *self { BoundingBox3D { min: self.min.clone(), max: self.max.clone() } } }
impl BoundingBox3D {
    pub open spec fn lo(&self, i: int) -> f64 { self.min.at(i) }
    pub open spec fn hi(&self, i: int) -> f64 { self.max.at(i) }
    /// the minimum is strictly below the maximum in every dimension
    pub open spec fn ok(&self) -> bool { self.lo(0).ieee_lt(self.hi(0)) && self.lo(1).ieee_lt(self.hi(1)) && self.lo(2).ieee_lt(self.hi(2)) }
    pub open spec fn is(&self, a: spec_fn(int) -> f64, b: spec_fn(int) -> f64) -> bool { self.lo(0) == a(0) && self.hi(0) == b(0) && self.lo(1) == a(1) && self.hi(1) == b(1) && self.lo(2) == a(2) && self.hi(2) == b(2) }
}
impl BoundingBox3D {
    /// a position strictly between the limits in every dimension
    pub open spec fn strictly_in(&self, p: spec_fn(int) -> f64) -> bool { self.lo(0).ieee_lt(p(0)) && p(0).ieee_lt(self.hi(0)) && self.lo(1).ieee_lt(p(1)) && p(1).ieee_lt(self.hi(1)) && self.lo(2).ieee_lt(p(2)) && p(2).ieee_lt(self.hi(2)) }
    /// both limits of `a` strictly between those of `self`
    pub open spec fn around(&self, a: BoundingBox3D) -> bool { self.lo(0).ieee_lt(a.lo(0)) && a.hi(0).ieee_lt(self.hi(0)) && self.lo(1).ieee_lt(a.lo(1)) && a.hi(1).ieee_lt(self.hi(1)) && self.lo(2).ieee_lt(a.lo(2)) && a.hi(2).ieee_lt(self.hi(2)) }
    /// the open extents overlap in every dimension
    pub open spec fn overlaps(&self, a: BoundingBox3D) -> bool { self.lo(0).ieee_lt(a.hi(0)) && a.lo(0).ieee_lt(self.hi(0)) && self.lo(1).ieee_lt(a.hi(1)) && a.lo(1).ieee_lt(self.hi(1)) && self.lo(2).ieee_lt(a.hi(2)) && a.lo(2).ieee_lt(self.hi(2)) }
    pub open spec fn at_d(&self, p: spec_fn(int) -> f64) -> bool { !nan(self.lo(0).ieee_sub(p(0))) && !nan(p(0).ieee_sub(self.hi(0))) && !nan(self.lo(1).ieee_sub(p(1))) && !nan(p(1).ieee_sub(self.hi(1))) && !nan(self.lo(2).ieee_sub(p(2))) && !nan(p(2).ieee_sub(self.hi(2))) }
    pub open spec fn sqr_gaps(&self, p: spec_fn(int) -> f64) -> f64 { sq(gap(self.lo(0), self.hi(0), p(0))).ieee_add(sq(gap(self.lo(1), self.hi(1), p(1)))).ieee_add(sq(gap(self.lo(2), self.hi(2), p(2)))) }
}
//@ impl BoundingBox3D
//@ fn min_p
//@ ret r
//@ spec
        ensures r == self.min,
//@ fn max_p
//@ ret r
//@ spec
        ensures r == self.max,
//@ fn is_inside
//@ ret r
//@ spec
        ensures r == other.around(*self),
//@ fn contains
//@ ret r
//@ spec
        ensures r == self.strictly_in(|i: int| other.at(i)),
//@ fn has_inside
//@ ret r
//@ spec
        ensures r == self.around(*other),
//@ fn collides_with
//@ ret r
//@ spec
        requires self.ok(), other.ok(),
        ensures r == self.overlaps(*other),
//@ fn crossing_x_value
//@ ret r
//@ spec
        ensures r == (self.lo(0).ieee_lt(x) && x.ieee_lt(self.hi(0))),
//@ fn crossing_y_value
//@ ret r
//@ spec
        ensures r == (self.lo(1).ieee_lt(y) && y.ieee_lt(self.hi(1))),
//@ fn crossing_z_value
//@ ret r
//@ spec
        ensures r == (self.lo(2).ieee_lt(z) && z.ieee_lt(self.hi(2))),
//@ fn distance
//@ ret r
//@ spec
        requires self.ok(), self.at_d(|i: int| other.at(i)),
        ensures r.val == f_sqrt(self.sqr_gaps(|i: int| other.at(i))), nneg(r.val),
//@ start
        proof { f_sqrt_nneg(self.sqr_gaps(|i: int| other.at(i))); }
//@ fn sqr_distance
//@ ret r
//@ spec
        requires self.ok(), self.at_d(|i: int| other.at(i)),
        ensures r.val == self.sqr_gaps(|i: int| other.at(i)), nneg(r.val),
//@ start
        proof {
            gap_is_max(self.lo(0), self.hi(0), other.at(0)); sq_nneg(gap(self.lo(0), self.hi(0), other.at(0))); gap_is_max(self.lo(1), self.hi(1), other.at(1)); sq_nneg(gap(self.lo(1), self.hi(1), other.at(1))); gap_is_max(self.lo(2), self.hi(2), other.at(2)); sq_nneg(gap(self.lo(2), self.hi(2), other.at(2)));
            add_nneg(sq(gap(self.lo(0), self.hi(0), other.at(0))), sq(gap(self.lo(1), self.hi(1), other.at(1))));
            add_nneg(sq(gap(self.lo(0), self.hi(0), other.at(0))).ieee_add(sq(gap(self.lo(1), self.hi(1), other.at(1)))), sq(gap(self.lo(2), self.hi(2), other.at(2))));
        }
//@ enditem
//@ impl HasDistanceTo<BoundingBox3D> for BoundingBox3D
//@ ghost
    open spec fn dist_req(&self, other: &BoundingBox3D) -> bool { self.ok() && other.ok() && !nan(self.lo(0).ieee_sub(other.hi(0))) && !nan(other.lo(0).ieee_sub(self.hi(0))) && !nan(self.lo(1).ieee_sub(other.hi(1))) && !nan(other.lo(1).ieee_sub(self.hi(1))) && !nan(self.lo(2).ieee_sub(other.hi(2))) && !nan(other.lo(2).ieee_sub(self.hi(2))) }
    open spec fn sqr_dist(&self, other: &BoundingBox3D) -> f64 { sq(gap2(self.lo(0), self.hi(0), other.lo(0), other.hi(0))).ieee_add(sq(gap2(self.lo(1), self.hi(1), other.lo(1), other.hi(1)))).ieee_add(sq(gap2(self.lo(2), self.hi(2), other.lo(2), other.hi(2)))) }
//@ fn sqr_distance
//@ start
        proof {
            sq_sym(self.lo(0), other.hi(0)); sq_sym(other.lo(0), self.hi(0)); sq_nneg(self.lo(0).ieee_sub(other.hi(0))); sq_nneg(other.lo(0).ieee_sub(self.hi(0))); sq_sym(self.lo(1), other.hi(1)); sq_sym(other.lo(1), self.hi(1)); sq_nneg(self.lo(1).ieee_sub(other.hi(1))); sq_nneg(other.lo(1).ieee_sub(self.hi(1))); sq_sym(self.lo(2), other.hi(2)); sq_sym(other.lo(2), self.hi(2)); sq_nneg(self.lo(2).ieee_sub(other.hi(2))); sq_nneg(other.lo(2).ieee_sub(self.hi(2)));
            assert(!nan(0.0f64)) by { assert(0.0f64.ieee_eq(0.0f64)) by(bit_vector); }
            sq_nneg(0.0f64);
            add_nneg(sq(gap2(self.lo(0), self.hi(0), other.lo(0), other.hi(0))), sq(gap2(self.lo(1), self.hi(1), other.lo(1), other.hi(1))));
            add_nneg(sq(gap2(self.lo(0), self.hi(0), other.lo(0), other.hi(0))).ieee_add(sq(gap2(self.lo(1), self.hi(1), other.lo(1), other.hi(1)))), sq(gap2(self.lo(2), self.hi(2), other.lo(2), other.hi(2))));
        }
//@ enditem
pub proof fn relations_3(a: BoundingBox3D, b: BoundingBox3D)
    requires a.ok(), b.ok(),
    ensures a.overlaps(b) == b.overlaps(a), a.overlaps(a), a.around(b) ==> !b.around(a) && a.overlaps(b),
        a.dist_req(&b) == b.dist_req(&a) && (a.dist_req(&b) ==> a.sqr_dist(&b) == b.sqr_dist(&a)),
        // no gap if and only if the closed boxes meet
        a.dist_req(&b) && a.overlaps(b) ==> a.sqr_dist(&b).ieee_eq(0.0f64),
{
    lt_facts(a.lo(0), a.hi(0)); lt_facts(b.lo(0), b.hi(0)); each_dim(a.lo(0), a.hi(0), b.lo(0), b.hi(0)); lt_facts(a.lo(1), a.hi(1)); lt_facts(b.lo(1), b.hi(1)); each_dim(a.lo(1), a.hi(1), b.lo(1), b.hi(1)); lt_facts(a.lo(2), a.hi(2)); lt_facts(b.lo(2), b.hi(2)); each_dim(a.lo(2), a.hi(2), b.lo(2), b.hi(2));
    zero_sums();
}
/// inside or on the box: no distance
pub proof fn zero_distance_3(a: BoundingBox3D, p: spec_fn(int) -> f64)
    requires a.ok(), a.lo(0).ieee_le(p(0)), p(0).ieee_le(a.hi(0)), a.lo(1).ieee_le(p(1)), p(1).ieee_le(a.hi(1)), a.lo(2).ieee_le(p(2)), p(2).ieee_le(a.hi(2)),
    ensures a.sqr_gaps(p).ieee_eq(0.0f64),
{
    le_facts(a.lo(0), p(0)); le_facts(p(0), a.hi(0)); le_facts(a.lo(1), p(1)); le_facts(p(1), a.hi(1)); le_facts(a.lo(2), p(2)); le_facts(p(2), a.hi(2));
    zero_sums();
}
fn main() {}
}

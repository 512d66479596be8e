#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::ops::*;
verus! {
//@include float.inc
broadcast use {vstd::seq_lib::group_seq_properties, fl::ax};
//@include base.inc
//@include num.inc
//@include pos.inc
//@include pos2.inc
//@include pos3.inc
//@include point2.inc
//@include point3.inc
//@include flemmas.inc
//@include filter.inc
pub uninterp spec fn f_abs(x: f64) -> f64;
pub assume_specification [f64::abs](x: f64) -> (r: f64) ensures r == f_abs(x), 0.0f64.ieee_lt(x) ==> r == x;
pub open spec fn sq(x: f64) -> f64 { x.ieee_mul(x) }
pub uninterp spec fn f_powi(x: f64, n: i32) -> f64;
/// the square is the product (assumed: std)
pub assume_specification [f64::powi](x: f64, n: i32) -> (r: f64) ensures r == f_powi(x, n), n == 2 ==> r == sq(x);
pub open spec fn sum_sq<P: IsND, Q: IsND>(p: &P, q: &Q, n: int) -> f64 decreases n {
    if n <= 0 { 0.0f64 } else { sum_sq(p, q, n - 1).ieee_add(sq(p.at(n - 1).ieee_sub(q.at(n - 1)))) }
}
//@ file src/distances_nd.rs
//@ freefn dist_nd
//@ ret r
//@ spec
    ensures r.is_ok() == (P::nd() == U::nd()), r.is_ok() ==> r->Ok_0 == f_sqrt(sum_sq(p1, p2, P::nd() as int)),
//@ replace `sqr_dist_nd(p1, p2).map(|x| x.sqrt())` => `sqr_dist_nd(p1, p2).map(|x: f64| -> (y: f64) ensures y == f_sqrt(x) { x.sqrt() })` ; contract on the closure
//@ enditem
//@ freefn sqr_dist_nd
//@ ret r
//@ spec
    ensures r.is_ok() == (P::nd() == U::nd()), r.is_ok() ==> r->Ok_0 == sum_sq(p1, p2, P::nd() as int),
//@ floatassign
//@ loop 0 inv
        invariant P::nd() == U::nd(), result == sum_sq(p1, p2, i as int),
//@ enditem
//@ file src/distances_2d.rs
//@ freefn dist_2d
//@ ret r
//@ spec
    ensures r == f_sqrt(sqr_dist2(p, q)),
//@ enditem
//@ freefn sqr_dist_2d
//@ ret r
//@ spec
    ensures r == sqr_dist2(p, q),
//@ enditem
/// the sum of the squared coordinate differences
pub open spec fn sqr_dist2<P: Is2D, Q: Is2D>(p: &P, q: &Q) -> f64 { sq(p.at(0).ieee_sub(q.at(0))).ieee_add(sq(p.at(1).ieee_sub(q.at(1)))) }
//@ file src/bounding_box_2d.rs
//@ struct BoundingBox2D
//@ enditem
impl Clone for BoundingBox2D { fn clone(&self) -> (r: Self) ensures r == *self { BoundingBox2D { min: self.min.clone(), max: self.max.clone() } } }
impl BoundingBox2D {
    pub open spec fn lo(&self, i: int) -> f64 { self.min.at(i) }
    pub open spec fn hi(&self, i: int) -> f64 { self.max.at(i) }
    /// the minimum is strictly below the maximum in every dimension
    pub open spec fn ok(&self) -> bool { self.lo(0).ieee_lt(self.hi(0)) && self.lo(1).ieee_lt(self.hi(1)) }
    pub open spec fn is(&self, a: spec_fn(int) -> f64, b: spec_fn(int) -> f64) -> bool { self.lo(0) == a(0) && self.hi(0) == b(0) && self.lo(1) == a(1) && self.hi(1) == b(1) }
}
//@ impl BoundingBox2D
//@ fn size_x
//@ ret r
//@ spec
        requires self.ok(),
        ensures r.val == self.hi(0).ieee_sub(self.lo(0)), pos(r.val),
//@ start
        proof { diff_pos(self.lo(0), self.hi(0)); }
//@ fn size_y
//@ ret r
//@ spec
        requires self.ok(),
        ensures r.val == self.hi(1).ieee_sub(self.lo(1)), pos(r.val),
//@ start
        proof { diff_pos(self.lo(1), self.hi(1)); }
//@ fn center_bb
//@ ret r
//@ spec
        ensures r.at(0) == self.lo(0).ieee_add(self.hi(0).ieee_sub(self.lo(0)).ieee_div(2.0f64)), r.at(1) == self.lo(1).ieee_add(self.hi(1).ieee_sub(self.lo(1)).ieee_div(2.0f64)),
//@ enditem
//@ file src/box_2d.rs
//@ struct Box2D
//@ enditem
impl Box2D {
    pub open spec fn size(&self, i: int) -> f64 { if i == 0 { self.size_x.val } else { self.size_y.val } }
    /// between center minus and center plus half the size in every dimension, borders included
    pub open spec fn covers(&self, p: spec_fn(int) -> f64) -> bool { self.center.at(0).ieee_sub(self.size(0).ieee_div(2.0f64)).ieee_le(p(0)) && p(0).ieee_le(self.center.at(0).ieee_add(self.size(0).ieee_div(2.0f64))) && self.center.at(1).ieee_sub(self.size(1).ieee_div(2.0f64)).ieee_le(p(1)) && p(1).ieee_le(self.center.at(1).ieee_add(self.size(1).ieee_div(2.0f64))) }
    pub open spec fn of_bb(&self, b: BoundingBox2D) -> bool { self.size(0) == b.hi(0).ieee_sub(b.lo(0)) && self.center.at(0) == b.lo(0).ieee_add(b.hi(0).ieee_sub(b.lo(0)).ieee_div(2.0f64)) && self.size(1) == b.hi(1).ieee_sub(b.lo(1)) && self.center.at(1) == b.lo(1).ieee_add(b.hi(1).ieee_sub(b.lo(1)).ieee_div(2.0f64)) }
}
//@ impl Box2D
//@ fn min_p
//@ ret r
//@ spec
        ensures r.at(0) == self.center.at(0).ieee_sub(0.5f64.ieee_mul(self.size(0))), r.at(1) == self.center.at(1).ieee_sub(0.5f64.ieee_mul(self.size(1))),
//@ fn max_p
//@ ret r
//@ spec
        ensures r.at(0) == self.center.at(0).ieee_add(0.5f64.ieee_mul(self.size(0))), r.at(1) == self.center.at(1).ieee_add(0.5f64.ieee_mul(self.size(1))),
//@ fn sizes
//@ ret r
//@ spec
        ensures r@[0].val == self.size(0), r@[1].val == self.size(1),
//@ enditem
//@ impl IsND for Box2D
//@ ghost
    open spec fn nd() -> nat { 2 }
    open spec fn at(&self, i: int) -> f64 { self.center.at(i) }
    open spec fn rest(&self) -> Seq<f64> { Seq::empty() }
//@ fn n_dimensions
//@ fn position_nd
//@ enditem
//@ impl Is2D for Box2D
//@ fn x
//@ fn y
//@ enditem
//@ impl From<BoundingBox2D> for Box2D
//@ header impl Box2D
//@ fn from
//@ rename from_bb
//@ ret r
//@ spec
        requires x.ok(),
        ensures r.of_bb(x),
//@ enditem
//@ file src/filter_box_2d.rs
//@ struct FilterBox2D
//@ enditem
//@ impl FilterBox2D
//@ fn new
//@ ret r
//@ spec
        ensures r.box_2d == box_2d,
//@ enditem
//@ impl From<BoundingBox2D> for FilterBox2D
//@ header impl FilterBox2D
//@ fn from
//@ rename from_bb
//@ ret r
//@ spec
        requires x.ok(),
        ensures r.box_2d.of_bb(x),
//@ enditem
//@ impl IsFilter for FilterBox2D
//@ ghost
    open spec fn allows(&self, x: &T) -> bool { self.box_2d.covers(|i: int| x.at(i)) }
//@ fn is_allowed
//@ enditem
//@ file src/circle.rs
//@ struct Circle
//@ enditem
//@ impl IsND for Circle
//@ ghost
    open spec fn nd() -> nat { 2 }
    open spec fn at(&self, i: int) -> f64 { self.center.at(i) }
    open spec fn rest(&self) -> Seq<f64> { Seq::empty() }
//@ fn n_dimensions
//@ fn position_nd
//@ enditem
//@ impl Is2D for Circle
//@ fn x
//@ fn y
//@ enditem
//@ file src/filter_circle.rs
//@ struct FilterCircle
//@ enditem
//@ impl FilterCircle
//@ fn new
//@ ret r
//@ spec
        ensures r.circle == circle,
//@ enditem
//@ impl IsFilter for FilterCircle
//@ ghost
    open spec fn allows(&self, x: &T) -> bool { f_sqrt(sqr_dist2(x, &self.circle.center)).ieee_le(self.circle.radius.val) }
//@ fn is_allowed
//@ enditem
//@ file src/distances_3d.rs
//@ freefn dist_3d
//@ ret r
//@ spec
    ensures r == f_sqrt(sqr_dist3(p, q)),
//@ enditem
//@ freefn sqr_dist_3d
//@ ret r
//@ spec
    ensures r == sqr_dist3(p, q),
//@ enditem
/// the sum of the squared coordinate differences
pub open spec fn sqr_dist3<P: Is3D, Q: Is3D>(p: &P, q: &Q) -> f64 { sq(p.at(0).ieee_sub(q.at(0))).ieee_add(sq(p.at(1).ieee_sub(q.at(1)))).ieee_add(sq(p.at(2).ieee_sub(q.at(2)))) }
//@ file src/bounding_box_3d.rs
//@ struct BoundingBox3D
//@ enditem
impl Clone for BoundingBox3D { fn clone(&self) -> (r: Self) ensures r == *self { BoundingBox3D { min: self.min.clone(), max: self.max.clone() } } }
impl BoundingBox3D {
    pub open spec fn lo(&self, i: int) -> f64 { self.min.at(i) }
    pub open spec fn hi(&self, i: int) -> f64 { self.max.at(i) }
    /// the minimum is strictly below the maximum in every dimension
    pub open spec fn ok(&self) -> bool { self.lo(0).ieee_lt(self.hi(0)) && self.lo(1).ieee_lt(self.hi(1)) && self.lo(2).ieee_lt(self.hi(2)) }
    pub open spec fn is(&self, a: spec_fn(int) -> f64, b: spec_fn(int) -> f64) -> bool { self.lo(0) == a(0) && self.hi(0) == b(0) && self.lo(1) == a(1) && self.hi(1) == b(1) && self.lo(2) == a(2) && self.hi(2) == b(2) }
}
//@ impl BoundingBox3D
//@ fn size_x
//@ ret r
//@ spec
        requires self.ok(),
        ensures r.val == self.hi(0).ieee_sub(self.lo(0)), pos(r.val),
//@ start
        proof { diff_pos(self.lo(0), self.hi(0)); }
//@ fn size_y
//@ ret r
//@ spec
        requires self.ok(),
        ensures r.val == self.hi(1).ieee_sub(self.lo(1)), pos(r.val),
//@ start
        proof { diff_pos(self.lo(1), self.hi(1)); }
//@ fn size_z
//@ ret r
//@ spec
        requires self.ok(),
        ensures r.val == self.hi(2).ieee_sub(self.lo(2)), pos(r.val),
//@ start
        proof { diff_pos(self.lo(2), self.hi(2)); }
//@ fn center_bb
//@ ret r
//@ spec
        ensures r.at(0) == self.lo(0).ieee_add(self.hi(0).ieee_sub(self.lo(0)).ieee_div(2.0f64)), r.at(1) == self.lo(1).ieee_add(self.hi(1).ieee_sub(self.lo(1)).ieee_div(2.0f64)), r.at(2) == self.lo(2).ieee_add(self.hi(2).ieee_sub(self.lo(2)).ieee_div(2.0f64)),
//@ enditem
//@ file src/box_3d.rs
//@ struct Box3D
//@ enditem
impl Box3D {
    pub open spec fn size(&self, i: int) -> f64 { if i == 0 { self.size_x.val } else if i == 1 { self.size_y.val } else { self.size_z.val } }
    /// between center minus and center plus half the size in every dimension, borders included
    pub open spec fn covers(&self, p: spec_fn(int) -> f64) -> bool { self.center.at(0).ieee_sub(self.size(0).ieee_div(2.0f64)).ieee_le(p(0)) && p(0).ieee_le(self.center.at(0).ieee_add(self.size(0).ieee_div(2.0f64))) && self.center.at(1).ieee_sub(self.size(1).ieee_div(2.0f64)).ieee_le(p(1)) && p(1).ieee_le(self.center.at(1).ieee_add(self.size(1).ieee_div(2.0f64))) && self.center.at(2).ieee_sub(self.size(2).ieee_div(2.0f64)).ieee_le(p(2)) && p(2).ieee_le(self.center.at(2).ieee_add(self.size(2).ieee_div(2.0f64))) }
    pub open spec fn of_bb(&self, b: BoundingBox3D) -> bool { self.size(0) == b.hi(0).ieee_sub(b.lo(0)) && self.center.at(0) == b.lo(0).ieee_add(b.hi(0).ieee_sub(b.lo(0)).ieee_div(2.0f64)) && self.size(1) == b.hi(1).ieee_sub(b.lo(1)) && self.center.at(1) == b.lo(1).ieee_add(b.hi(1).ieee_sub(b.lo(1)).ieee_div(2.0f64)) && self.size(2) == b.hi(2).ieee_sub(b.lo(2)) && self.center.at(2) == b.lo(2).ieee_add(b.hi(2).ieee_sub(b.lo(2)).ieee_div(2.0f64)) }
}
//@ impl Box3D
//@ fn min_p
//@ ret r
//@ spec
        ensures r.at(0) == self.center.at(0).ieee_sub(0.5f64.ieee_mul(self.size(0))), r.at(1) == self.center.at(1).ieee_sub(0.5f64.ieee_mul(self.size(1))), r.at(2) == self.center.at(2).ieee_sub(0.5f64.ieee_mul(self.size(2))),
//@ fn max_p
//@ ret r
//@ spec
        ensures r.at(0) == self.center.at(0).ieee_add(0.5f64.ieee_mul(self.size(0))), r.at(1) == self.center.at(1).ieee_add(0.5f64.ieee_mul(self.size(1))), r.at(2) == self.center.at(2).ieee_add(0.5f64.ieee_mul(self.size(2))),
//@ fn sizes
//@ ret r
//@ spec
        ensures r@[0].val == self.size(0), r@[1].val == self.size(1), r@[2].val == self.size(2),
//@ enditem
//@ impl IsND for Box3D
//@ ghost
    open spec fn nd() -> nat { 3 }
    open spec fn at(&self, i: int) -> f64 { self.center.at(i) }
    open spec fn rest(&self) -> Seq<f64> { Seq::empty() }
//@ fn n_dimensions
//@ fn position_nd
//@ enditem
//@ impl Is3D for Box3D
//@ fn x
//@ fn y
//@ fn z
//@ enditem
//@ impl From<BoundingBox3D> for Box3D
//@ header impl Box3D
//@ fn from
//@ rename from_bb
//@ ret r
//@ spec
        requires x.ok(),
        ensures r.of_bb(x),
//@ enditem
//@ file src/filter_box_3d.rs
//@ struct FilterBox3D
//@ enditem
//@ impl FilterBox3D
//@ fn new
//@ ret r
//@ spec
        ensures r.box_3d == box_3d,
//@ enditem
//@ impl From<BoundingBox3D> for FilterBox3D
//@ header impl FilterBox3D
//@ fn from
//@ rename from_bb
//@ ret r
//@ spec
        requires x.ok(),
        ensures r.box_3d.of_bb(x),
//@ enditem
//@ impl IsFilter for FilterBox3D
//@ ghost
    open spec fn allows(&self, x: &T) -> bool { self.box_3d.covers(|i: int| x.at(i)) }
//@ fn is_allowed
//@ enditem
//@ file src/sphere.rs
//@ struct Sphere
//@ enditem
//@ impl IsND for Sphere
//@ ghost
    open spec fn nd() -> nat { 3 }
    open spec fn at(&self, i: int) -> f64 { self.center.at(i) }
    open spec fn rest(&self) -> Seq<f64> { Seq::empty() }
//@ fn n_dimensions
//@ fn position_nd
//@ enditem
//@ impl Is3D for Sphere
//@ fn x
//@ fn y
//@ fn z
//@ enditem
//@ file src/filter_sphere.rs
//@ struct FilterSphere
//@ enditem
//@ impl FilterSphere
//@ fn new
//@ ret r
//@ spec
        ensures r.sphere == sphere,
//@ enditem
//@ impl IsFilter for FilterSphere
//@ ghost
    open spec fn allows(&self, x: &T) -> bool { f_sqrt(sqr_dist3(x, &self.sphere.center)).ieee_le(self.sphere.radius.val) }
//@ fn is_allowed
//@ enditem
fn main() {}
}

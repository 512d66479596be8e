#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::ops::*;
use std::marker::PhantomData;
verus! {
//@include float.inc
//@include float32.inc
broadcast use {vstd::seq_lib::group_seq_properties, fl::ax, fl32::ax};
//@include base.inc
//@include num.inc
//@include pos.inc
//@include pos2.inc
//@include pos3.inc
//@include point2.inc
//@include point3.inc
//@include flemmas.inc
//@include order.inc
//@include listing.inc
pub proof fn same_limits(f: spec_fn(int) -> f64, g: spec_fn(int) -> f64, n: int)
    requires 1 <= n ==> forall|j: int| 0 <= j < n ==> #[trigger] f(j) == g(j),
    ensures 1 <= n ==> lo(f, n) == lo(g, n) && hi(f, n) == hi(g, n),
    decreases n
{ if n > 1 { same_limits(f, g, n - 1); assert(f(n - 1) == g(n - 1)); } else if n == 1 { assert(f(0) == g(0)); } }
/// a vector consumed by reference yields references to its elements in order (assumed: std's slice iterator)
#[verifier::external_body]
pub proof fn vec_listing<T>(v: &Vec<T>)
    ensures listing(v), v@.len() <= usize::MAX, elems(v).len() == v@.len(), forall|j: int| 0 <= j < v@.len() ==> *(#[trigger] elems(v)[j]) == v@[j],
{ }
pub uninterp spec fn f_abs(x: f64) -> f64;
pub assume_specification [f64::abs](x: f64) -> (r: f64) ensures r == f_abs(x), 0.0f64.ieee_lt(x) ==> r == x;
//@ file src/bounding_box_2d.rs
//@ struct BoundingBox2D
//@ enditem
impl Clone for BoundingBox2D { fn clone(&self) -> (r: Self) ensures r == *self { BoundingBox2D { min: self.min.clone(), max: self.max.clone() } } }
impl BoundingBox2D {
    pub open spec fn lo(&self, i: int) -> f64 { self.min.at(i) }
    pub open spec fn hi(&self, i: int) -> f64 { self.max.at(i) }
    /// the minimum is strictly below the maximum in every dimension
    pub open spec fn ok(&self) -> bool { self.lo(0).ieee_lt(self.hi(0)) && self.lo(1).ieee_lt(self.hi(1)) }
    pub open spec fn is(&self, a: spec_fn(int) -> f64, b: spec_fn(int) -> f64) -> bool { self.lo(0) == a(0) && self.hi(0) == b(0) && self.lo(1) == a(1) && self.hi(1) == b(1) }
}
pub open spec fn col2<P: Is2D>(s: Seq<P>, i: int) -> spec_fn(int) -> f64 { |j: int| s[j].at(i) }
pub open spec fn col2r<P: Is2D>(s: Seq<&P>, i: int) -> spec_fn(int) -> f64 { |j: int| s[j].at(i) }
//@ impl BoundingBox2D
//@ fn new
//@ ret r
//@ spec
        ensures r.is_ok() == (min.at(0).ieee_lt(max.at(0)) && min.at(1).ieee_lt(max.at(1))),
            r.is_ok() ==> r->Ok_0.is(|i: int| min.at(i), |i: int| max.at(i)),
//@ start
        proof { if min.at(0).ieee_lt(max.at(0)) { lt_facts(min.at(0), max.at(0)); } if min.at(1).ieee_lt(max.at(1)) { lt_facts(min.at(1), max.at(1)); } }
//@ fn from_iterator
//@ fattrs
#[verifier::exec_allows_no_decreases_clause]
//@ ret r
//@ spec
        requires listing(source), elems(source).len() <= usize::MAX,
        ensures r.is_ok() == (elems(source).len() >= 2 && lo(col2r(elems(source), 0), elems(source).len() as int).ieee_lt(hi(col2r(elems(source), 0), elems(source).len() as int)) && lo(col2r(elems(source), 1), elems(source).len() as int).ieee_lt(hi(col2r(elems(source), 1), elems(source).len() as int))),
            r.is_ok() ==> r->Ok_0.is(|i: int| lo(col2r(elems(source), i), elems(source).len() as int), |i: int| hi(col2r(elems(source), i), elems(source).len() as int)),
//@ start
        let ghost mut k: int = 0;
//@ loop 0 gen
//@ loop 0 inv
            invariant_except_break 0 <= k <= elems(source).len(), it__0.remaining() == elems(source).skip(k), it__0.obeys_prophetic_iter_laws(), it__0.will_return_none(),
                count == k, elems(source).len() <= usize::MAX, k > 0 ==> minx == lo(col2r(elems(source), 0), k) && maxx == hi(col2r(elems(source), 0), k), k > 0 ==> miny == lo(col2r(elems(source), 1), k) && maxy == hi(col2r(elems(source), 1), k),
            ensures k == elems(source).len(), k > 0 ==> minx == lo(col2r(elems(source), 0), k) && maxx == hi(col2r(elems(source), 0), k), k > 0 ==> miny == lo(col2r(elems(source), 1), k) && maxy == hi(col2r(elems(source), 1), k), count == k
//@ loop 0 start
                proof { k = k + 1; }
//@ fn size_x
//@ ret r
//@ spec
        requires self.ok(),
        ensures r.val == self.max.at(0).ieee_sub(self.min.at(0)), pos(r.val),
//@ start
        proof { diff_pos(self.min.at(0), self.max.at(0)); }
//@ fn size_y
//@ ret r
//@ spec
        requires self.ok(),
        ensures r.val == self.max.at(1).ieee_sub(self.min.at(1)), pos(r.val),
//@ start
        proof { diff_pos(self.min.at(1), self.max.at(1)); }
//@ fn center_bb
//@ ret r
//@ spec
        ensures r.at(0) == self.min.at(0).ieee_add(self.max.at(0).ieee_sub(self.min.at(0)).ieee_div(2.0f64)), r.at(1) == self.min.at(1).ieee_add(self.max.at(1).ieee_sub(self.min.at(1)).ieee_div(2.0f64)),
//@ enditem
//@ file src/bounding_box_3d.rs
//@ struct BoundingBox3D
//@ enditem
impl Clone for BoundingBox3D { fn clone(&self) -> (r: Self) ensures r == *self { BoundingBox3D { min: self.min.clone(), max: self.max.clone() } } }
impl BoundingBox3D {
    pub open spec fn lo(&self, i: int) -> f64 { self.min.at(i) }
    pub open spec fn hi(&self, i: int) -> f64 { self.max.at(i) }
    /// the minimum is strictly below the maximum in every dimension
    pub open spec fn ok(&self) -> bool { self.lo(0).ieee_lt(self.hi(0)) && self.lo(1).ieee_lt(self.hi(1)) && self.lo(2).ieee_lt(self.hi(2)) }
    pub open spec fn is(&self, a: spec_fn(int) -> f64, b: spec_fn(int) -> f64) -> bool { self.lo(0) == a(0) && self.hi(0) == b(0) && self.lo(1) == a(1) && self.hi(1) == b(1) && self.lo(2) == a(2) && self.hi(2) == b(2) }
}
pub open spec fn col3<P: Is3D>(s: Seq<P>, i: int) -> spec_fn(int) -> f64 { |j: int| s[j].at(i) }
pub open spec fn col3r<P: Is3D>(s: Seq<&P>, i: int) -> spec_fn(int) -> f64 { |j: int| s[j].at(i) }
//@ impl BoundingBox3D
//@ fn new
//@ ret r
//@ spec
        ensures r.is_ok() == (min.at(0).ieee_lt(max.at(0)) && min.at(1).ieee_lt(max.at(1)) && min.at(2).ieee_lt(max.at(2))),
            r.is_ok() ==> r->Ok_0.is(|i: int| min.at(i), |i: int| max.at(i)),
//@ start
        proof { if min.at(0).ieee_lt(max.at(0)) { lt_facts(min.at(0), max.at(0)); } if min.at(1).ieee_lt(max.at(1)) { lt_facts(min.at(1), max.at(1)); } if min.at(2).ieee_lt(max.at(2)) { lt_facts(min.at(2), max.at(2)); } }
//@ fn from_iterator
//@ fattrs
#[verifier::exec_allows_no_decreases_clause]
//@ ret r
//@ spec
        requires listing(source), elems(source).len() <= usize::MAX,
        ensures r.is_ok() == (elems(source).len() >= 2 && lo(col3r(elems(source), 0), elems(source).len() as int).ieee_lt(hi(col3r(elems(source), 0), elems(source).len() as int)) && lo(col3r(elems(source), 1), elems(source).len() as int).ieee_lt(hi(col3r(elems(source), 1), elems(source).len() as int)) && lo(col3r(elems(source), 2), elems(source).len() as int).ieee_lt(hi(col3r(elems(source), 2), elems(source).len() as int))),
            r.is_ok() ==> r->Ok_0.is(|i: int| lo(col3r(elems(source), i), elems(source).len() as int), |i: int| hi(col3r(elems(source), i), elems(source).len() as int)),
//@ start
        let ghost mut k: int = 0;
//@ loop 0 gen
//@ loop 0 inv
            invariant_except_break 0 <= k <= elems(source).len(), it__0.remaining() == elems(source).skip(k), it__0.obeys_prophetic_iter_laws(), it__0.will_return_none(),
                count == k, elems(source).len() <= usize::MAX, k > 0 ==> minx == lo(col3r(elems(source), 0), k) && maxx == hi(col3r(elems(source), 0), k), k > 0 ==> miny == lo(col3r(elems(source), 1), k) && maxy == hi(col3r(elems(source), 1), k), k > 0 ==> minz == lo(col3r(elems(source), 2), k) && maxz == hi(col3r(elems(source), 2), k),
            ensures k == elems(source).len(), k > 0 ==> minx == lo(col3r(elems(source), 0), k) && maxx == hi(col3r(elems(source), 0), k), k > 0 ==> miny == lo(col3r(elems(source), 1), k) && maxy == hi(col3r(elems(source), 1), k), k > 0 ==> minz == lo(col3r(elems(source), 2), k) && maxz == hi(col3r(elems(source), 2), k), count == k
//@ loop 0 start
                proof { k = k + 1; }
//@ fn size_x
//@ ret r
//@ spec
        requires self.ok(),
        ensures r.val == self.max.at(0).ieee_sub(self.min.at(0)), pos(r.val),
//@ start
        proof { diff_pos(self.min.at(0), self.max.at(0)); }
//@ fn size_y
//@ ret r
//@ spec
        requires self.ok(),
        ensures r.val == self.max.at(1).ieee_sub(self.min.at(1)), pos(r.val),
//@ start
        proof { diff_pos(self.min.at(1), self.max.at(1)); }
//@ fn size_z
//@ ret r
//@ spec
        requires self.ok(),
        ensures r.val == self.max.at(2).ieee_sub(self.min.at(2)), pos(r.val),
//@ start
        proof { diff_pos(self.min.at(2), self.max.at(2)); }
//@ fn center_bb
//@ ret r
//@ spec
        ensures r.at(0) == self.min.at(0).ieee_add(self.max.at(0).ieee_sub(self.min.at(0)).ieee_div(2.0f64)), r.at(1) == self.min.at(1).ieee_add(self.max.at(1).ieee_sub(self.min.at(1)).ieee_div(2.0f64)), r.at(2) == self.min.at(2).ieee_add(self.max.at(2).ieee_sub(self.min.at(2)).ieee_div(2.0f64)),
//@ enditem
impl vstd::std_specs::ops::MulAssignSpecImpl<Positive> for Positive {
    open spec fn obeys_mul_assign_spec() -> bool { true }
    open spec fn mul_assign_req(&self, o: Positive) -> bool { true }
    open spec fn mul_assign_spec(&self, o: Positive) -> &Positive { &Positive { val: self.val.ieee_mul(o.val) } }
}
//@ file src/positive.rs
//@ impl MulAssign for Positive
//@ floatassign
//@ fn mul_assign
//@ start
        proof { fl::at(self.val, other.val); }
//@ enditem
//@ file src/is_scalable.rs
//@ trait IsScalable
//@ header pub trait IsScalable: Sized
//@ ghost
    spec fn scalable(&self) -> bool;
    /// b is a, scaled by f
    spec fn scaled(a: &Self, b: &Self, f: f64) -> bool;
//@ fn scale
//@ spec
        requires old(self).scalable(),
        ensures Self::scaled(old(self), final(self), factor.val),
//@ enditem
/// halfway from p to q in a dimension
pub open spec fn halfway(p: f64, q: f64) -> f64 { p.ieee_add(q.ieee_sub(p).ieee_div(2.0f64)) }
/// the coordinate x, f times as far from c
pub open spec fn away(c: f64, x: f64, f: f64) -> f64 { c.ieee_add(f.ieee_mul(x.ieee_sub(c))) }
//@ file src/functions.rs
//@ freefn center_2d
//@ ret r
//@ spec
    ensures r.at(0) == halfway(p1.at(0), p2.at(0)), r.at(1) == halfway(p1.at(1), p2.at(1)),
//@ enditem
//@ freefn center_3d
//@ ret r
//@ spec
    ensures r.at(0) == halfway(p1.at(0), p2.at(0)), r.at(1) == halfway(p1.at(1), p2.at(1)), r.at(2) == halfway(p1.at(2), p2.at(2)),
//@ enditem
//@ file src/bounding_box_2d.rs
//@ impl IsScalable for BoundingBox2D
//@ ghost
    open spec fn scalable(&self) -> bool { self.ok() }
    open spec fn scaled(a: &Self, b: &Self, f: f64) -> bool { b.lo(0) == halfway(a.lo(0), a.hi(0)).ieee_sub(0.5f64.ieee_mul(f).ieee_mul(a.hi(0).ieee_sub(a.lo(0)))) && b.hi(0) == halfway(a.lo(0), a.hi(0)).ieee_add(0.5f64.ieee_mul(f).ieee_mul(a.hi(0).ieee_sub(a.lo(0)))) && b.lo(1) == halfway(a.lo(1), a.hi(1)).ieee_sub(0.5f64.ieee_mul(f).ieee_mul(a.hi(1).ieee_sub(a.lo(1)))) && b.hi(1) == halfway(a.lo(1), a.hi(1)).ieee_add(0.5f64.ieee_mul(f).ieee_mul(a.hi(1).ieee_sub(a.lo(1)))) }
//@ fn scale
//@ enditem
//@ file src/box_2d.rs
//@ struct Box2D
//@ enditem
//@ impl IsScalable for Box2D
//@ ghost
    open spec fn scalable(&self) -> bool { true }
    open spec fn scaled(a: &Self, b: &Self, f: f64) -> bool { b.center == a.center && b.size_x.val == a.size_x.val.ieee_mul(f) && b.size_y.val == a.size_y.val.ieee_mul(f) }
//@ fn scale
//@ enditem
//@ file src/circle.rs
//@ struct Circle
//@ enditem
//@ impl IsScalable for Circle
//@ ghost
    open spec fn scalable(&self) -> bool { true }
    open spec fn scaled(a: &Self, b: &Self, f: f64) -> bool { b.center == a.center && b.radius.val == a.radius.val.ieee_mul(f) }
//@ fn scale
//@ enditem
//@ file src/filter_box_2d.rs
//@ struct FilterBox2D
//@ enditem
//@ impl IsScalable for FilterBox2D
//@ ghost
    open spec fn scalable(&self) -> bool { true }
    open spec fn scaled(a: &Self, b: &Self, f: f64) -> bool { Box2D::scaled(&a.box_2d, &b.box_2d, f) }
//@ fn scale
//@ enditem
//@ file src/filter_circle.rs
//@ struct FilterCircle
//@ enditem
//@ impl IsScalable for FilterCircle
//@ ghost
    open spec fn scalable(&self) -> bool { true }
    open spec fn scaled(a: &Self, b: &Self, f: f64) -> bool { Circle::scaled(&a.circle, &b.circle, f) }
//@ fn scale
//@ enditem
//@ file src/line_segment_2d.rs
//@ struct LineSegment2D
//@ enditem
//@ impl IsScalable for LineSegment2D
//@ ghost
    open spec fn scalable(&self) -> bool { true }
    open spec fn scaled(a: &Self, b: &Self, f: f64) -> bool { forall|i: int| 0 <= i < 2 ==> #[trigger] b.start.at(i) == away(halfway(a.start.at(i), a.end.at(i)), a.start.at(i), f) && #[trigger] b.end.at(i) == away(halfway(a.start.at(i), a.end.at(i)), a.end.at(i), f) }
//@ fn scale
//@ enditem
//@ file src/has_bounding_box_2d.rs
//@ trait HasBoundingBox2DMaybe
//@ ghost
    /// the limits can be represented (shapes whose size vanishes next to their position have none)
    spec fn bb_req(&self) -> bool;
    spec fn has_bb(&self) -> bool;
    spec fn bb_lo(&self, i: int) -> f64;
    spec fn bb_hi(&self, i: int) -> f64;
//@ fn bounding_box_maybe
//@ ret r
//@ spec
        requires self.bb_req(),
        ensures r.is_some() == self.has_bb(), r.is_some() ==> r->Some_0.is(|i: int| self.bb_lo(i), |i: int| self.bb_hi(i)) && r->Some_0.ok(),
//@ enditem
//@ file src/point_cloud_2d.rs
//@ struct PointCloud2D
//@ enditem
//@ impl HasBoundingBox2DMaybe for PointCloud2D
//@ ghost
    open spec fn bb_req(&self) -> bool { true }
    open spec fn has_bb(&self) -> bool { self.data@.len() >= 2 && self.bb_lo(0).ieee_lt(self.bb_hi(0)) && self.bb_lo(1).ieee_lt(self.bb_hi(1))  }
    open spec fn bb_lo(&self, i: int) -> f64 { lo(col2(self.data@, i), self.data@.len() as int) }
    open spec fn bb_hi(&self, i: int) -> f64 { hi(col2(self.data@, i), self.data@.len() as int) }
//@ fn bounding_box_maybe
//@ start
        proof { vec_listing(&self.data); same_limits(col2r(elems(&self.data), 0), col2(self.data@, 0), self.data@.len() as int); same_limits(col2r(elems(&self.data), 1), col2(self.data@, 1), self.data@.len() as int); }
//@ enditem
/// the position q is p, f times as far from the middle of lo and hi
pub open spec fn moved_away2<P: Is2D>(c: PointCloud2D<P>, p: P, q: P, f: f64) -> bool { q.rest() == p.rest() && forall|i: int| 0 <= i < 2 ==> #[trigger] q.at(i) == away(halfway(c.bb_lo(i), c.bb_hi(i)), p.at(i), f) }
//@ impl IsScalable for PointCloud2D
//@ ghost
    open spec fn scalable(&self) -> bool { true }
    open spec fn scaled(a: &Self, b: &Self, f: f64) -> bool { b.data@.len() == a.data@.len() && (a.has_bb() ==> forall|j: int| 0 <= j < a.data@.len() ==> moved_away2(*a, a.data@[j], #[trigger] b.data@[j], f)) }
//@ fn scale
//@ loop 0 iter it
//@ loop 0 inv
                invariant old(self).has_bb(), c.at(0) == halfway(old(self).bb_lo(0), old(self).bb_hi(0)), c.at(1) == halfway(old(self).bb_lo(1), old(self).bb_hi(1)),
                    forall|j: int| 0 <= j < it.index@ ==> moved_away2(*old(self), old(self).data@[j], #[trigger] final(self).data@[j], factor.val),
//@ enditem
//@ file src/polygon_2d.rs
//@ struct Polygon2D
//@ enditem
//@ impl IsScalable for Polygon2D
//@ ghost
    open spec fn scalable(&self) -> bool { true }
    open spec fn scaled(a: &Self, b: &Self, f: f64) -> bool { PointCloud2D::scaled(&a.pc, &b.pc, f) }
//@ fn scale
//@ enditem
//@ file src/bounding_box_3d.rs
//@ impl IsScalable for BoundingBox3D
//@ ghost
    open spec fn scalable(&self) -> bool { self.ok() }
    open spec fn scaled(a: &Self, b: &Self, f: f64) -> bool { b.lo(0) == halfway(a.lo(0), a.hi(0)).ieee_sub(0.5f64.ieee_mul(f).ieee_mul(a.hi(0).ieee_sub(a.lo(0)))) && b.hi(0) == halfway(a.lo(0), a.hi(0)).ieee_add(0.5f64.ieee_mul(f).ieee_mul(a.hi(0).ieee_sub(a.lo(0)))) && b.lo(1) == halfway(a.lo(1), a.hi(1)).ieee_sub(0.5f64.ieee_mul(f).ieee_mul(a.hi(1).ieee_sub(a.lo(1)))) && b.hi(1) == halfway(a.lo(1), a.hi(1)).ieee_add(0.5f64.ieee_mul(f).ieee_mul(a.hi(1).ieee_sub(a.lo(1)))) && b.lo(2) == halfway(a.lo(2), a.hi(2)).ieee_sub(0.5f64.ieee_mul(f).ieee_mul(a.hi(2).ieee_sub(a.lo(2)))) && b.hi(2) == halfway(a.lo(2), a.hi(2)).ieee_add(0.5f64.ieee_mul(f).ieee_mul(a.hi(2).ieee_sub(a.lo(2)))) }
//@ fn scale
//@ enditem
//@ file src/box_3d.rs
//@ struct Box3D
//@ enditem
//@ impl IsScalable for Box3D
//@ ghost
    open spec fn scalable(&self) -> bool { true }
    open spec fn scaled(a: &Self, b: &Self, f: f64) -> bool { b.center == a.center && b.size_x.val == a.size_x.val.ieee_mul(f) && b.size_y.val == a.size_y.val.ieee_mul(f) && b.size_z.val == a.size_z.val.ieee_mul(f) }
//@ fn scale
//@ enditem
//@ file src/sphere.rs
//@ struct Sphere
//@ enditem
//@ impl IsScalable for Sphere
//@ ghost
    open spec fn scalable(&self) -> bool { true }
    open spec fn scaled(a: &Self, b: &Self, f: f64) -> bool { b.center == a.center && b.radius.val == a.radius.val.ieee_mul(f) }
//@ fn scale
//@ enditem
//@ file src/filter_box_3d.rs
//@ struct FilterBox3D
//@ enditem
//@ impl IsScalable for FilterBox3D
//@ ghost
    open spec fn scalable(&self) -> bool { true }
    open spec fn scaled(a: &Self, b: &Self, f: f64) -> bool { Box3D::scaled(&a.box_3d, &b.box_3d, f) }
//@ fn scale
//@ enditem
//@ file src/filter_sphere.rs
//@ struct FilterSphere
//@ enditem
//@ impl IsScalable for FilterSphere
//@ ghost
    open spec fn scalable(&self) -> bool { true }
    open spec fn scaled(a: &Self, b: &Self, f: f64) -> bool { Sphere::scaled(&a.sphere, &b.sphere, f) }
//@ fn scale
//@ enditem
//@ file src/line_segment_3d.rs
//@ struct LineSegment3D
//@ enditem
//@ impl IsScalable for LineSegment3D
//@ ghost
    open spec fn scalable(&self) -> bool { true }
    open spec fn scaled(a: &Self, b: &Self, f: f64) -> bool { forall|i: int| 0 <= i < 3 ==> #[trigger] b.start.at(i) == away(halfway(a.start.at(i), a.end.at(i)), a.start.at(i), f) && #[trigger] b.end.at(i) == away(halfway(a.start.at(i), a.end.at(i)), a.end.at(i), f) }
//@ fn scale
//@ enditem
//@ file src/has_bounding_box_3d.rs
//@ trait HasBoundingBox3DMaybe
//@ ghost
    /// the limits can be represented (shapes whose size vanishes next to their position have none)
    spec fn bb_req(&self) -> bool;
    spec fn has_bb(&self) -> bool;
    spec fn bb_lo(&self, i: int) -> f64;
    spec fn bb_hi(&self, i: int) -> f64;
//@ fn bounding_box_maybe
//@ ret r
//@ spec
        requires self.bb_req(),
        ensures r.is_some() == self.has_bb(), r.is_some() ==> r->Some_0.is(|i: int| self.bb_lo(i), |i: int| self.bb_hi(i)) && r->Some_0.ok(),
//@ enditem
//@ file src/point_cloud_3d.rs
//@ struct PointCloud3D
//@ enditem
//@ impl HasBoundingBox3DMaybe for PointCloud3D
//@ ghost
    open spec fn bb_req(&self) -> bool { true }
    open spec fn has_bb(&self) -> bool { self.data@.len() >= 2 && self.bb_lo(0).ieee_lt(self.bb_hi(0)) && self.bb_lo(1).ieee_lt(self.bb_hi(1)) && self.bb_lo(2).ieee_lt(self.bb_hi(2))  }
    open spec fn bb_lo(&self, i: int) -> f64 { lo(col3(self.data@, i), self.data@.len() as int) }
    open spec fn bb_hi(&self, i: int) -> f64 { hi(col3(self.data@, i), self.data@.len() as int) }
//@ fn bounding_box_maybe
//@ start
        proof { vec_listing(&self.data); same_limits(col3r(elems(&self.data), 0), col3(self.data@, 0), self.data@.len() as int); same_limits(col3r(elems(&self.data), 1), col3(self.data@, 1), self.data@.len() as int); same_limits(col3r(elems(&self.data), 2), col3(self.data@, 2), self.data@.len() as int); }
//@ enditem
/// the position q is p, f times as far from the middle of lo and hi
pub open spec fn moved_away3<P: Is3D>(c: PointCloud3D<P>, p: P, q: P, f: f64) -> bool { q.rest() == p.rest() && forall|i: int| 0 <= i < 3 ==> #[trigger] q.at(i) == away(halfway(c.bb_lo(i), c.bb_hi(i)), p.at(i), f) }
//@ impl IsScalable for PointCloud3D
//@ ghost
    open spec fn scalable(&self) -> bool { true }
    open spec fn scaled(a: &Self, b: &Self, f: f64) -> bool { b.data@.len() == a.data@.len() && (a.has_bb() ==> forall|j: int| 0 <= j < a.data@.len() ==> moved_away3(*a, a.data@[j], #[trigger] b.data@[j], f)) }
//@ fn scale
//@ loop 0 iter it
//@ loop 0 inv
                invariant old(self).has_bb(), c.at(0) == halfway(old(self).bb_lo(0), old(self).bb_hi(0)), c.at(1) == halfway(old(self).bb_lo(1), old(self).bb_hi(1)), c.at(2) == halfway(old(self).bb_lo(2), old(self).bb_hi(2)),
                    forall|j: int| 0 <= j < it.index@ ==> moved_away3(*old(self), old(self).data@[j], #[trigger] final(self).data@[j], factor.val),
//@ enditem
//@ file src/polygon_3d.rs
//@ struct Polygon3D
//@ enditem
//@ impl IsScalable for Polygon3D
//@ ghost
    open spec fn scalable(&self) -> bool { true }
    open spec fn scaled(a: &Self, b: &Self, f: f64) -> bool { PointCloud3D::scaled(&a.pc, &b.pc, f) }
//@ fn scale
//@ enditem
//@ file src/mesh_3d.rs
//@ struct Mesh3D
//@ replace `ID: IsDataContainer<P>,` => `` ; not needed to scale the vertices
//@ replace `IC: IsIndexContainer,` => `` ; as above
//@ enditem
//@ impl IsScalable for Mesh3D
//@ header impl<P: IsEditable3D, ID: IsScalable, IC> IsScalable for Mesh3D<P, ID, IC>
//@ ghost
    open spec fn scalable(&self) -> bool { self.pc.scalable() }
    open spec fn scaled(a: &Self, b: &Self, f: f64) -> bool { ID::scaled(&a.pc, &b.pc, f) && b.topology == a.topology }
//@ fn scale
//@ enditem
//@ file src/searchable_mesh.rs
//@ struct SearchableMesh
//@ replace `M: IsMesh<T, Face3>,` => `` ; not needed to scale the mesh
//@ replace `IC: IsIndexContainer,` => `` ; as above
//@ replace `HalfEdge<IC>` => `IC` ; as above
//@ enditem
//@ impl IsScalable for SearchableMesh
//@ header impl<M: IsScalable, T, IC> IsScalable for SearchableMesh<M, T, IC>
//@ ghost
    open spec fn scalable(&self) -> bool { self.mesh.scalable() }
    open spec fn scaled(a: &Self, b: &Self, f: f64) -> bool { M::scaled(&a.mesh, &b.mesh, f) && b.he == a.he }
//@ fn scale
//@ enditem
//@ file src/filter_outlier_3d.rs
//@ struct FilterOutlier3D
//@ replace `S: IsSphereSearchable<P>,` => `` ; not needed to scale the filter
//@ replace `RefCell<Vec<P>>` => `Vec<P>` ; as above
//@ enditem
//@ impl IsScalable for FilterOutlier3D
//@ header impl<S, P: Is3D> IsScalable for FilterOutlier3D<S, P>
//@ ghost
    open spec fn scalable(&self) -> bool { true }
    open spec fn scaled(a: &Self, b: &Self, f: f64) -> bool { b.search_distance.val == a.search_distance.val.ieee_mul(f) && b.min_neighbours == a.min_neighbours && b.searchable == a.searchable }
//@ fn scale
//@ enditem
} fn main() {}

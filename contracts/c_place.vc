#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::ops::*;
use std::marker::PhantomData;
verus! {
//@include float.inc
broadcast use {vstd::seq_lib::group_seq_properties, fl::ax};
//@include base.inc
//@include num.inc
//@include pos.inc
//@include pos2.inc
//@include pos3.inc
//@include point2.inc
//@include point3.inc
//@include flemmas.inc
pub uninterp spec fn f_abs(x: f64) -> f64;
pub assume_specification [f64::abs](x: f64) -> (r: f64) ensures r == f_abs(x), 0.0f64.ieee_lt(x) ==> r == x;
/// `-x` (assumed: Rust's operator is the IEEE operation)
#[verifier::external_body]
pub fn negate(x: f64) -> (r: f64) ensures r == x.ieee_neg() { -x }
//@ file src/is_transformable_to_3d.rs
//@ trait IsTransFormableTo3D
//@ header pub trait IsTransFormableTo3D: Is2D
//@ fn transform_to_3d
//@ ret r
//@ spec
        ensures r.at(0) == self.at(0), r.at(1) == self.at(1), r.at(2) == z,
//@ enditem
//@ file src/is_transformable_to_2d.rs
//@ trait IsTransFormableTo2D
//@ header pub trait IsTransFormableTo2D: Is3D
//@ fn transform_to_2d
//@ ret r
//@ spec
        ensures r.at(0) == self.at(0), r.at(1) == self.at(1),
//@ enditem
//@ file src/point_2d.rs
//@ impl IsTransFormableTo3D for Point2D
//@ fn transform_to_3d
//@ enditem
//@ file src/point_3d.rs
//@ impl IsTransFormableTo2D for Point3D
//@ fn transform_to_2d
//@ enditem
//@ file src/point_cloud_3d.rs
//@ struct PointCloud3D
//@ enditem
//@ impl PointCloud3D
//@ fn new
//@ ret r
//@ spec
        ensures r.data@ == Seq::<P>::empty(),
//@ enditem
//@ file src/is_pushable.rs
//@ trait IsPushable
//@ header pub trait IsPushable<T>
//@ ghost
    spec fn listed(&self) -> Seq<T>;
//@ fn push
//@ spec
        ensures final(self).listed() == old(self).listed().push(x),
//@ enditem
//@ file src/point_cloud_3d.rs
//@ impl IsPushable for PointCloud3D
//@ ghost
    open spec fn listed(&self) -> Seq<P> { self.data@ }
//@ fn push
//@ enditem
//@ impl IsMovable3D for PointCloud3D
//@ ghost
    open spec fn moved3(a: &Self, b: &Self, x: f64, y: f64, z: f64) -> bool { b.data@.len() == a.data@.len() && forall|i: int| 0 <= i < a.data@.len() ==> #[trigger] P::moved3(&a.data@[i], &b.data@[i], x, y, z) }
//@ fn move_by
//@ loop 0 iter it
//@ loop 0 inv
            invariant forall|i: int| 0 <= i < it.index@ ==> #[trigger] P::moved3(&old(self).data@[i], &final(self).data@[i], x, y, z),
//@ enditem
//@ file src/bounding_box_3d.rs
//@ struct BoundingBox3D
//@ enditem
impl BoundingBox3D {
    /// the minimum is strictly below the maximum in every dimension
    pub open spec fn ok(&self) -> bool { self.min.at(0).ieee_lt(self.max.at(0)) && self.min.at(1).ieee_lt(self.max.at(1)) && self.min.at(2).ieee_lt(self.max.at(2)) }
    /// the size and the middle in a dimension
    pub open spec fn size(&self, i: int) -> f64 { self.max.at(i).ieee_sub(self.min.at(i)) }
    pub open spec fn mid(&self, i: int) -> f64 { self.min.at(i).ieee_add(self.size(i).ieee_div(2.0f64)) }
}
//@ impl BoundingBox3D
//@ fn size_x
//@ ret r
//@ spec
        requires self.ok(),
        ensures r.val == self.size(0),
//@ start
        proof { diff_pos(self.min.at(0), self.max.at(0)); }
//@ fn size_y
//@ ret r
//@ spec
        requires self.ok(),
        ensures r.val == self.size(1),
//@ start
        proof { diff_pos(self.min.at(1), self.max.at(1)); }
//@ fn size_z
//@ ret r
//@ spec
        requires self.ok(),
        ensures r.val == self.size(2),
//@ start
        proof { diff_pos(self.min.at(2), self.max.at(2)); }
//@ fn center_bb
//@ ret r
//@ spec
        ensures r.at(0) == self.mid(0), r.at(1) == self.mid(1), r.at(2) == self.mid(2),
//@ enditem
//@ file src/has_bounding_box_3d.rs
//@ trait HasBoundingBox3DMaybe
//@ ghost
    spec fn bb(&self) -> Option<BoundingBox3D>;
//@ fn bounding_box_maybe
//@ ret r
//@ spec
        ensures r == self.bb(), r.is_some() ==> r->Some_0.ok(),
//@ enditem
//@ file src/matrix4.rs
//@ struct Matrix4
//@ enditem
//@ impl Matrix4
//@ fn scale
//@ ret r
//@ spec
        ensures scales4(r, x, y, z),
//@ enditem
/// the matrix that scales by the given factors
pub open spec fn scales4(r: Matrix4, x: f64, y: f64, z: f64) -> bool { forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 ==> #[trigger] r.data[i][j] == (if i != j { 0.0f64 } else if i == 0 { x } else if i == 1 { y } else if i == 2 { z } else { 1.0f64 }) }
//@ file src/is_matrix4_transformable.rs
//@ trait IsMatrix4Transformable
//@ header pub trait IsMatrix4Transformable: Sized
//@ ghost
    spec fn mapped(m: Matrix4, a: Self, b: Self) -> bool;
//@ fn transform
//@ spec
        ensures Self::mapped(*m, *old(self), *final(self)),
//@ enditem
/// `clone` of this type yields an equal value
pub open spec fn clone_ok<P: Clone>() -> bool { forall|a: P, b: P| #[trigger] call_ensures(P::clone, (&a,), b) ==> a == b }
/// c holds the first n positions at z = 0
pub open spec fn flat<P2: Is2D, P3: Is3D>(s: Seq<P2>, c: PointCloud3D<P3>, n: int) -> bool {
    c.data@.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] c.data@[i]).at(0) == s[i].at(0) && c.data@[i].at(1) == s[i].at(1) && c.data@[i].at(2) == 0.0f64
}
pub open spec fn same<P: Is3D>(a: PointCloud3D<P>, b: PointCloud3D<P>) -> bool { a.data@ == b.data@ }
//@ file src/functions.rs
//@ freefn center
//@ negate
//@ spec
        ensures match old(x).bb() {
            Some(b) => T::moved3(old(x), final(x), b.mid(0).ieee_neg(), b.mid(1).ieee_neg(), b.mid(2).ieee_neg()),
            None => *final(x) == *old(x),
        },
//@ enditem
//@ freefn set_size
//@ spec
        ensures match old(x).bb() {
            Some(b) => exists|m: Matrix4| #[trigger] T::mapped(m, *old(x), *final(x)) && scales4(m, size@[0].val.ieee_div(b.size(0)), size@[1].val.ieee_div(b.size(1)), size@[2].val.ieee_div(b.size(2))),
            None => *final(x) == *old(x),
        },
//@ enditem
//@ freefn conn
//@ ret r
//@ spec
        ensures r.at(0) == p_to.at(0).ieee_sub(p_from.at(0)), r.at(1) == p_to.at(1).ieee_sub(p_from.at(1)), r.at(2) == p_to.at(2).ieee_sub(p_from.at(2)),
//@ enditem
//@ freefn extrude
//@ ret r
//@ spec
        requires clone_ok::<P3>(),
        ensures flat(pc2d@, r.0, pc2d@.len() as int), r.1.data@.len() == pc2d@.len(),
            forall|i: int| 0 <= i < pc2d@.len() ==> #[trigger] P3::moved3(&r.0.data@[i], &r.1.data@[i], dir.at(0), dir.at(1), dir.at(2)),
//@ loop 0 iter it
//@ loop 0 inv
            invariant flat(pc2d@, pc_3d_a, it.index@ as int), same(pc_3d_a, pc_3d_b), clone_ok::<P3>(),
//@ enditem
} fn main() {}

#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use std::ops::*;
use std::marker::PhantomData;
verus! {
//@include float.inc
broadcast use {vstd::seq_lib::group_seq_properties, fl::ax};
//@include base.inc
//@include num.inc
//@include pos.inc
//@include pos2.inc
//@include pos3.inc
//@include point2.inc
//@include point3.inc
//@ file src/point_2d.rs
//@ impl IsMovable2D for Point2D
//@ floatassign
//@ ghost
    open spec fn moved2(a: &Self, b: &Self, x: f64, y: f64) -> bool { b.at(0) == a.at(0).ieee_add(x) && b.at(1) == a.at(1).ieee_add(y) && b.rest() == a.rest() }
//@ fn move_by
//@ start
        proof { fl::at(self.x, x); fl::at(self.y, y); }
//@ enditem
//@ file src/box_2d.rs
//@ struct Box2D
//@ enditem
//@ impl IsND for Box2D
//@ ghost
    open spec fn nd() -> nat { 2 }
    open spec fn at(&self, i: int) -> f64 { self.center.at(i) }
    open spec fn rest(&self) -> Seq<f64> { seq![self.size_x.val, self.size_y.val] }
//@ fn n_dimensions
//@ fn position_nd
//@ enditem
//@ impl Is2D for Box2D
//@ fn x
//@ fn y
//@ enditem
//@ impl IsBuildableND for Box2D
//@ fn new_nd
//@ fn from_nd
//@ sigreplace `IsBuildableND` => `IsND` ; the bound refers to the trait being declared, which Verus rejects; a weaker bound proves more
//@ enditem
//@ impl IsBuildable2D for Box2D
//@ fn new
//@ fn from
//@ enditem
//@ impl IsEditableND for Box2D
//@ fn set_position
//@ enditem
//@ impl IsEditable2D for Box2D
//@ fn set_x
//@ fn set_y
//@ enditem
//@ impl IsMovable2D for Box2D
//@ ghost
    open spec fn moved2(a: &Self, b: &Self, x: f64, y: f64) -> bool { b.at(0) == a.at(0).ieee_add(x) && b.at(1) == a.at(1).ieee_add(y) && b.rest() == a.rest() }
//@ fn move_by
//@ enditem
//@ file src/circle.rs
//@ struct Circle
//@ enditem
//@ impl IsND for Circle
//@ ghost
    open spec fn nd() -> nat { 2 }
    open spec fn at(&self, i: int) -> f64 { self.center.at(i) }
    open spec fn rest(&self) -> Seq<f64> { seq![self.radius.val] }
//@ fn n_dimensions
//@ fn position_nd
//@ enditem
//@ impl Is2D for Circle
//@ fn x
//@ fn y
//@ enditem
//@ impl IsBuildableND for Circle
//@ fn new_nd
//@ fn from_nd
//@ sigreplace `IsBuildableND` => `IsND` ; the bound refers to the trait being declared, which Verus rejects; a weaker bound proves more
//@ enditem
//@ impl IsBuildable2D for Circle
//@ fn new
//@ fn from
//@ enditem
//@ impl IsEditableND for Circle
//@ fn set_position
//@ enditem
//@ impl IsEditable2D for Circle
//@ fn set_x
//@ fn set_y
//@ enditem
//@ file src/filter_box_2d.rs
//@ struct FilterBox2D
//@ enditem
//@ impl FilterBox2D
//@ fn new
//@ ret r
//@ spec
        ensures r.box_2d == box_2d,
//@ enditem
//@ impl IsND for FilterBox2D
//@ ghost
    open spec fn nd() -> nat { 2 }
    open spec fn at(&self, i: int) -> f64 { self.box_2d.at(i) }
    open spec fn rest(&self) -> Seq<f64> { self.box_2d.rest() }
//@ fn n_dimensions
//@ fn position_nd
//@ enditem
//@ impl Is2D for FilterBox2D
//@ fn x
//@ fn y
//@ enditem
//@ impl IsBuildableND for FilterBox2D
//@ fn new_nd
//@ fn from_nd
//@ sigreplace `IsBuildableND` => `IsND` ; the bound refers to the trait being declared, which Verus rejects; a weaker bound proves more
//@ enditem
//@ impl IsBuildable2D for FilterBox2D
//@ fn new
//@ fn from
//@ enditem
//@ impl IsEditableND for FilterBox2D
//@ fn set_position
//@ enditem
//@ impl IsEditable2D for FilterBox2D
//@ fn set_x
//@ fn set_y
//@ enditem
//@ file src/filter_circle.rs
//@ struct FilterCircle
//@ enditem
//@ impl FilterCircle
//@ fn new
//@ ret r
//@ spec
        ensures r.circle == circle,
//@ enditem
//@ impl IsND for FilterCircle
//@ ghost
    open spec fn nd() -> nat { 2 }
    open spec fn at(&self, i: int) -> f64 { self.circle.at(i) }
    open spec fn rest(&self) -> Seq<f64> { self.circle.rest() }
//@ fn n_dimensions
//@ fn position_nd
//@ enditem
//@ impl Is2D for FilterCircle
//@ fn x
//@ fn y
//@ enditem
//@ impl IsBuildableND for FilterCircle
//@ fn new_nd
//@ fn from_nd
//@ sigreplace `IsBuildableND` => `IsND` ; the bound refers to the trait being declared, which Verus rejects; a weaker bound proves more
//@ enditem
//@ impl IsBuildable2D for FilterCircle
//@ fn new
//@ fn from
//@ enditem
//@ impl IsEditableND for FilterCircle
//@ fn set_position
//@ enditem
//@ impl IsEditable2D for FilterCircle
//@ fn set_x
//@ fn set_y
//@ enditem
//@ file src/norm_2d.rs
//@ struct Norm2D
//@ enditem
//@ impl IsND for Norm2D
//@ ghost
    open spec fn nd() -> nat { 2 }
    open spec fn at(&self, i: int) -> f64 { if i == 0 { self.x } else { self.y } }
    open spec fn rest(&self) -> Seq<f64> { Seq::empty() }
//@ fn n_dimensions
//@ fn position_nd
//@ enditem
//@ impl Is2D for Norm2D
//@ fn x
//@ fn y
//@ enditem
//@ file src/bounding_box_2d.rs
//@ struct BoundingBox2D
//@ enditem
impl BoundingBox2D { pub open spec fn mid(&self, i: int) -> f64 { self.min.at(i).ieee_add(self.max.at(i).ieee_sub(self.min.at(i)).ieee_div(2.0f64)) } }
//@ impl BoundingBox2D
//@ fn center_bb
//@ ret r
//@ spec
        ensures r.x == self.mid(0), r.y == self.mid(1),
//@ enditem
//@ impl IsND for BoundingBox2D
//@ ghost
    open spec fn nd() -> nat { 2 }
    open spec fn at(&self, i: int) -> f64 { self.mid(i) }
    open spec fn rest(&self) -> Seq<f64> { Seq::empty() }
//@ fn n_dimensions
//@ fn position_nd
//@ enditem
//@ impl Is2D for BoundingBox2D
//@ fn x
//@ fn y
//@ enditem
//@ impl IsMovable2D for BoundingBox2D
//@ ghost
    open spec fn moved2(a: &Self, b: &Self, x: f64, y: f64) -> bool { Point2D::moved2(&a.min, &b.min, x, y) && Point2D::moved2(&a.max, &b.max, x, y) }
//@ fn move_by
//@ enditem
//@ file src/line_2d.rs
//@ struct Line2D
//@ enditem
//@ impl IsMovable2D for Line2D
//@ ghost
    open spec fn moved2(a: &Self, b: &Self, x: f64, y: f64) -> bool { Point2D::moved2(&a.anchor, &b.anchor, x, y) && b.dir == a.dir }
//@ fn move_by
//@ enditem
//@ file src/line_segment_2d.rs
//@ struct LineSegment2D
//@ enditem
//@ impl IsMovable2D for LineSegment2D
//@ ghost
    open spec fn moved2(a: &Self, b: &Self, x: f64, y: f64) -> bool { Point2D::moved2(&a.start, &b.start, x, y) && Point2D::moved2(&a.end, &b.end, x, y) }
//@ fn move_by
//@ enditem
//@ file src/ray_2d.rs
//@ struct Ray2D
//@ enditem
//@ impl IsMovable2D for Ray2D
//@ ghost
    open spec fn moved2(a: &Self, b: &Self, x: f64, y: f64) -> bool { Line2D::moved2(&a.line, &b.line, x, y) }
//@ fn move_by
//@ enditem
//@ file src/point_3d.rs
//@ impl IsMovable3D for Point3D
//@ floatassign
//@ ghost
    open spec fn moved3(a: &Self, b: &Self, x: f64, y: f64, z: f64) -> bool { b.at(0) == a.at(0).ieee_add(x) && b.at(1) == a.at(1).ieee_add(y) && b.at(2) == a.at(2).ieee_add(z) && b.rest() == a.rest() }
//@ fn move_by
//@ start
        proof { fl::at(self.x, x); fl::at(self.y, y); fl::at(self.z, z); }
//@ enditem
//@ file src/box_3d.rs
//@ struct Box3D
//@ enditem
//@ impl IsND for Box3D
//@ ghost
    open spec fn nd() -> nat { 3 }
    open spec fn at(&self, i: int) -> f64 { self.center.at(i) }
    open spec fn rest(&self) -> Seq<f64> { seq![self.size_x.val, self.size_y.val, self.size_z.val] }
//@ fn n_dimensions
//@ fn position_nd
//@ enditem
//@ impl Is3D for Box3D
//@ fn x
//@ fn y
//@ fn z
//@ enditem
//@ impl IsBuildableND for Box3D
//@ fn new_nd
//@ fn from_nd
//@ sigreplace `IsBuildableND` => `IsND` ; the bound refers to the trait being declared, which Verus rejects; a weaker bound proves more
//@ enditem
//@ impl IsBuildable3D for Box3D
//@ fn new
//@ fn from
//@ enditem
//@ impl IsEditableND for Box3D
//@ fn set_position
//@ enditem
//@ impl IsEditable3D for Box3D
//@ fn set_x
//@ fn set_y
//@ fn set_z
//@ enditem
//@ impl IsMovable3D for Box3D
//@ ghost
    open spec fn moved3(a: &Self, b: &Self, x: f64, y: f64, z: f64) -> bool { b.at(0) == a.at(0).ieee_add(x) && b.at(1) == a.at(1).ieee_add(y) && b.at(2) == a.at(2).ieee_add(z) && b.rest() == a.rest() }
//@ fn move_by
//@ enditem
//@ file src/sphere.rs
//@ struct Sphere
//@ enditem
//@ impl IsND for Sphere
//@ ghost
    open spec fn nd() -> nat { 3 }
    open spec fn at(&self, i: int) -> f64 { self.center.at(i) }
    open spec fn rest(&self) -> Seq<f64> { seq![self.radius.val] }
//@ fn n_dimensions
//@ fn position_nd
//@ enditem
//@ impl Is3D for Sphere
//@ fn x
//@ fn y
//@ fn z
//@ enditem
//@ impl IsBuildableND for Sphere
//@ fn new_nd
//@ fn from_nd
//@ sigreplace `IsBuildableND` => `IsND` ; the bound refers to the trait being declared, which Verus rejects; a weaker bound proves more
//@ enditem
//@ impl IsBuildable3D for Sphere
//@ fn new
//@ fn from
//@ enditem
//@ impl IsEditableND for Sphere
//@ fn set_position
//@ enditem
//@ impl IsEditable3D for Sphere
//@ fn set_x
//@ fn set_y
//@ fn set_z
//@ enditem
//@ file src/filter_box_3d.rs
//@ struct FilterBox3D
//@ enditem
//@ impl FilterBox3D
//@ fn new
//@ ret r
//@ spec
        ensures r.box_3d == box_3d,
//@ enditem
//@ impl IsND for FilterBox3D
//@ ghost
    open spec fn nd() -> nat { 3 }
    open spec fn at(&self, i: int) -> f64 { self.box_3d.at(i) }
    open spec fn rest(&self) -> Seq<f64> { self.box_3d.rest() }
//@ fn n_dimensions
//@ fn position_nd
//@ enditem
//@ impl Is3D for FilterBox3D
//@ fn x
//@ fn y
//@ fn z
//@ enditem
//@ impl IsBuildableND for FilterBox3D
//@ fn new_nd
//@ fn from_nd
//@ sigreplace `IsBuildableND` => `IsND` ; the bound refers to the trait being declared, which Verus rejects; a weaker bound proves more
//@ enditem
//@ impl IsBuildable3D for FilterBox3D
//@ fn new
//@ fn from
//@ enditem
//@ impl IsEditableND for FilterBox3D
//@ fn set_position
//@ enditem
//@ impl IsEditable3D for FilterBox3D
//@ fn set_x
//@ fn set_y
//@ fn set_z
//@ enditem
//@ file src/filter_sphere.rs
//@ struct FilterSphere
//@ enditem
//@ impl FilterSphere
//@ fn new
//@ ret r
//@ spec
        ensures r.sphere == sphere,
//@ enditem
//@ impl IsND for FilterSphere
//@ ghost
    open spec fn nd() -> nat { 3 }
    open spec fn at(&self, i: int) -> f64 { self.sphere.at(i) }
    open spec fn rest(&self) -> Seq<f64> { self.sphere.rest() }
//@ fn n_dimensions
//@ fn position_nd
//@ enditem
//@ impl Is3D for FilterSphere
//@ fn x
//@ fn y
//@ fn z
//@ enditem
//@ impl IsBuildableND for FilterSphere
//@ fn new_nd
//@ fn from_nd
//@ sigreplace `IsBuildableND` => `IsND` ; the bound refers to the trait being declared, which Verus rejects; a weaker bound proves more
//@ enditem
//@ impl IsBuildable3D for FilterSphere
//@ fn new
//@ fn from
//@ enditem
//@ impl IsEditableND for FilterSphere
//@ fn set_position
//@ enditem
//@ impl IsEditable3D for FilterSphere
//@ fn set_x
//@ fn set_y
//@ fn set_z
//@ enditem
//@ file src/norm_3d.rs
//@ struct Norm3D
//@ enditem
//@ impl IsND for Norm3D
//@ ghost
    open spec fn nd() -> nat { 3 }
    open spec fn at(&self, i: int) -> f64 { if i == 0 { self.x } else if i == 1 { self.y } else { self.z } }
    open spec fn rest(&self) -> Seq<f64> { Seq::empty() }
//@ fn n_dimensions
//@ fn position_nd
//@ enditem
//@ impl Is3D for Norm3D
//@ fn x
//@ fn y
//@ fn z
//@ enditem
//@ file src/bounding_box_3d.rs
//@ struct BoundingBox3D
//@ enditem
impl BoundingBox3D { pub open spec fn mid(&self, i: int) -> f64 { self.min.at(i).ieee_add(self.max.at(i).ieee_sub(self.min.at(i)).ieee_div(2.0f64)) } }
//@ impl BoundingBox3D
//@ fn center_bb
//@ ret r
//@ spec
        ensures r.x == self.mid(0), r.y == self.mid(1), r.z == self.mid(2),
//@ enditem
//@ impl IsND for BoundingBox3D
//@ ghost
    open spec fn nd() -> nat { 3 }
    open spec fn at(&self, i: int) -> f64 { self.mid(i) }
    open spec fn rest(&self) -> Seq<f64> { Seq::empty() }
//@ fn n_dimensions
//@ fn position_nd
//@ enditem
//@ impl Is3D for BoundingBox3D
//@ fn x
//@ fn y
//@ fn z
//@ enditem
//@ impl IsMovable3D for BoundingBox3D
//@ ghost
    open spec fn moved3(a: &Self, b: &Self, x: f64, y: f64, z: f64) -> bool { Point3D::moved3(&a.min, &b.min, x, y, z) && Point3D::moved3(&a.max, &b.max, x, y, z) }
//@ fn move_by
//@ enditem
//@ file src/line_3d.rs
//@ struct Line3D
//@ enditem
//@ impl IsMovable3D for Line3D
//@ ghost
    open spec fn moved3(a: &Self, b: &Self, x: f64, y: f64, z: f64) -> bool { Point3D::moved3(&a.anchor, &b.anchor, x, y, z) && b.dir == a.dir }
//@ fn move_by
//@ enditem
//@ file src/line_segment_3d.rs
//@ struct LineSegment3D
//@ enditem
//@ impl IsMovable3D for LineSegment3D
//@ ghost
    open spec fn moved3(a: &Self, b: &Self, x: f64, y: f64, z: f64) -> bool { Point3D::moved3(&a.start, &b.start, x, y, z) && Point3D::moved3(&a.end, &b.end, x, y, z) }
//@ fn move_by
//@ enditem
//@ file src/ray_3d.rs
//@ struct Ray3D
//@ enditem
//@ impl IsMovable3D for Ray3D
//@ ghost
    open spec fn moved3(a: &Self, b: &Self, x: f64, y: f64, z: f64) -> bool { Line3D::moved3(&a.line, &b.line, x, y, z) }
//@ fn move_by
//@ enditem
//@ file src/box_unaligned_3d.rs
//@ struct BoxUnaligned3D
//@ enditem
//@ impl IsMovable3D for BoxUnaligned3D
//@ ghost
    open spec fn moved3(a: &Self, b: &Self, x: f64, y: f64, z: f64) -> bool { Point3D::moved3(&a.center, &b.center, x, y, z) && b.y_dir == a.y_dir && b.z_dir == a.z_dir && b.size == a.size }
//@ fn move_by
//@ enditem
//@ file src/impls/vec.rs
//@ impl IsMovable2D for Vec
//@ ghost
    open spec fn moved2(a: &Self, b: &Self, x: f64, y: f64) -> bool { b@.len() == a@.len() && forall|i: int| 0 <= i < a@.len() ==> #[trigger] T::moved2(&a@[i], &b@[i], x, y) }
//@ fn move_by
//@ loop 0 iter it
//@ loop 0 inv
            invariant forall|i: int| 0 <= i < it.index@ ==> #[trigger] T::moved2(&old(self)@[i], &final(self)@[i], x, y),
//@ enditem
//@ file src/point_cloud_2d.rs
//@ struct PointCloud2D
//@ enditem
//@ impl IsMovable2D for PointCloud2D
//@ ghost
    open spec fn moved2(a: &Self, b: &Self, x: f64, y: f64) -> bool { b.data@.len() == a.data@.len() && forall|i: int| 0 <= i < a.data@.len() ==> #[trigger] P::moved2(&a.data@[i], &b.data@[i], x, y) }
//@ fn move_by
//@ loop 0 iter it
//@ loop 0 inv
            invariant forall|i: int| 0 <= i < it.index@ ==> #[trigger] P::moved2(&old(self).data@[i], &final(self).data@[i], x, y),
//@ enditem
//@ file src/polygon_2d.rs
//@ struct Polygon2D
//@ enditem
//@ impl IsMovable2D for Polygon2D
//@ ghost
    open spec fn moved2(a: &Self, b: &Self, x: f64, y: f64) -> bool { PointCloud2D::<P>::moved2(&a.pc, &b.pc, x, y) }
//@ fn move_by
//@ enditem
//@ file src/impls/vec.rs
//@ impl IsMovable3D for Vec
//@ ghost
    open spec fn moved3(a: &Self, b: &Self, x: f64, y: f64, z: f64) -> bool { b@.len() == a@.len() && forall|i: int| 0 <= i < a@.len() ==> #[trigger] T::moved3(&a@[i], &b@[i], x, y, z) }
//@ fn move_by
//@ loop 0 iter it
//@ loop 0 inv
            invariant forall|i: int| 0 <= i < it.index@ ==> #[trigger] T::moved3(&old(self)@[i], &final(self)@[i], x, y, z),
//@ enditem
//@ file src/point_cloud_3d.rs
//@ struct PointCloud3D
//@ enditem
//@ impl IsMovable3D for PointCloud3D
//@ ghost
    open spec fn moved3(a: &Self, b: &Self, x: f64, y: f64, z: f64) -> bool { b.data@.len() == a.data@.len() && forall|i: int| 0 <= i < a.data@.len() ==> #[trigger] P::moved3(&a.data@[i], &b.data@[i], x, y, z) }
//@ fn move_by
//@ loop 0 iter it
//@ loop 0 inv
            invariant forall|i: int| 0 <= i < it.index@ ==> #[trigger] P::moved3(&old(self).data@[i], &final(self).data@[i], x, y, z),
//@ enditem
//@ file src/polygon_3d.rs
//@ struct Polygon3D
//@ enditem
//@ impl IsMovable3D for Polygon3D
//@ ghost
    open spec fn moved3(a: &Self, b: &Self, x: f64, y: f64, z: f64) -> bool { PointCloud3D::<P>::moved3(&a.pc, &b.pc, x, y, z) }
//@ fn move_by
//@ enditem
//@ file src/mesh_3d.rs
//@ struct Mesh3D
//@ replace `ID: IsDataContainer<P>,` => `` ; not needed to move the vertices
//@ replace `IC: IsIndexContainer,` => `` ; as above
//@ enditem
//@ impl IsMovable3D for Mesh3D
//@ header impl<P: Is3D, ID: IsMovable3D, IC> IsMovable3D for Mesh3D<P, ID, IC>
//@ ghost
    open spec fn moved3(a: &Self, b: &Self, x: f64, y: f64, z: f64) -> bool { ID::moved3(&a.pc, &b.pc, x, y, z) && b.topology == a.topology }
//@ fn move_by
//@ enditem
pub assume_specification<T: ?Sized, A: std::alloc::Allocator> [<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref] (b: &std::boxed::Box<T, A>) -> (r: &T)
    ensures r == &**b;
//@ file src/impls/boxx.rs
//@ impl IsND for Box
//@ ghost
    open spec fn nd() -> nat { P::nd() }
    open spec fn at(&self, i: int) -> f64 { (**self).at(i) }
    open spec fn rest(&self) -> Seq<f64> { (**self).rest() }
//@ fn n_dimensions
//@ fn position_nd
//@ enditem
//@ impl Is2D for Box
//@ fn x
//@ fn y
//@ enditem
//@ impl Is3D for Box
//@ fn x
//@ fn y
//@ fn z
//@ enditem
fn main() {}
}

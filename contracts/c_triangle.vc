#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::ops::*;
use std::marker::PhantomData;
verus! {
//@include float.inc
broadcast use {vstd::seq_lib::group_seq_properties, fl::ax};
//@include base.inc
//@include num.inc
//@include pos.inc
//@include pos2.inc
//@include pos3.inc
//@include point2.inc
//@include point3.inc
//@include flemmas.inc
//@include dist3.inc
//@include norm3.inc
//@include vec3.inc
//@include ops3.inc
//@ file src/line_3d.rs
//@ struct Line3D
//@ enditem
//@ file src/ray_3d.rs
//@ struct Ray3D
//@ enditem
pub open spec fn clone_ok<P: Clone>() -> bool { forall|a: P, b: P| #[trigger] call_ensures(P::clone, (&a,), b) ==> a == b }
/// the difference of two positions is that of their coordinates
pub open spec fn sub_ok<P: IsBuildable3D + Sub<Output = P>>() -> bool { (forall|a: P, b: P| #[trigger] call_requires(P::sub, (a, b))) && forall|a: P, b: P, r: P| #[trigger] call_ensures(P::sub, (a, b), r) ==> pt(r) == way(b, a) }
pub open spec fn pt<P: Is3D>(p: P) -> Point3D { Point3D { x: p.at(0), y: p.at(1), z: p.at(2) } }
/// from p to q; the cross product
pub open spec fn way<P: Is3D, Q: Is3D>(p: P, q: Q) -> Point3D { Point3D { x: q.at(0).ieee_sub(p.at(0)), y: q.at(1).ieee_sub(p.at(1)), z: q.at(2).ieee_sub(p.at(2)) } }
pub open spec fn crs<P: Is3D, Q: Is3D>(p: P, q: Q) -> Point3D { Point3D { x: minor(p, q, 1, 2), y: minor(p, q, 2, 0), z: minor(p, q, 0, 1) } }
/// the normal of a face, not yet of length one
pub open spec fn upright<P: Is3D>(a: P, b: P, c: P) -> Point3D { crs(way(a, b), way(b, c)) }
//@ file src/functions.rs
//@ freefn normal_of_face
//@ ret r
//@ replace `Norm3D::new($1).unwrap_or($2)` => `unwrap_or(Norm3D::new($1), $2)` ; see unwrap_or
//@ spec
    requires nneg(len3(upright(*v1, *v2, *v3))),
    ensures heads(r, upright(*v1, *v2, *v3)),
//@ enditem
/// where the ray is after r lengths of its direction
pub open spec fn spot(ray: Ray3D, r: f64) -> Point3D {
    let (a, d) = (ray.line.anchor, ray.line.dir);
    Point3D { x: a.x.ieee_add(d.x.ieee_mul(r)), y: a.y.ieee_add(d.y.ieee_mul(r)), z: a.z.ieee_add(d.z.ieee_mul(r)) }
}
/// when the ray reaches the plane through p with the normal n
pub open spec fn arrival<P: Is3D>(ray: Ray3D, n: Norm3D, p: P) -> f64 { along(n, way(p, ray.line.anchor)).ieee_neg().ieee_div(along(n, ray.line.dir)) }
/// p is not on the inner side of the side from a to b
pub open spec fn outside<P: Is3D>(n: Norm3D, a: P, b: P, p: Point3D) -> bool { along(n, crs(way(a, b), way(a, p))).ieee_le(0.0f64) }
/// the ray meets the face at p: it reaches its plane ahead of the anchor, strictly within the three sides
pub open spec fn meets<P: Is3D>(ray: Ray3D, a: P, b: P, c: P, n: Norm3D, r: Option<P>) -> bool {
    let t = arrival(ray, n, a); let p = spot(ray, t);
    if along(n, ray.line.dir).ieee_eq(0.0f64) || t.ieee_le(0.0f64) || outside(n, a, b, p) || outside(n, b, c, p) || outside(n, c, a, p) { r is None } else { r is Some && pt(r->Some_0) == p }
}
//@ freefn intersection_ray_triangle
//@ ret r
//@ opcalls
//@ negate
//@ spec
    requires clone_ok::<P>(), sub_ok::<P>(), nneg(len3(upright(*v1, *v2, *v3))),
    ensures exists|n: Norm3D| heads(n, upright(*v1, *v2, *v3)) && meets(*ray, *v1, *v2, *v3, n, r),
//@ enditem
} fn main() {}

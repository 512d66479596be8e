#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::ops::*;
use std::marker::PhantomData;
verus! {
//@include float.inc
broadcast use {vstd::seq_lib::group_seq_properties, fl::ax};
//@include base.inc
//@include num.inc
//@include pos.inc
//@include pos2.inc
//@include pos3.inc
//@include point2.inc
//@include point3.inc
//@include flemmas.inc
//@include dist3.inc
//@include norm3.inc
//@include vec3.inc
//@include ops3.inc
//@include opsx.inc
//@include vec2.inc
//@include ops2.inc
//@include mesh_trait.inc
//@include three.inc
//@ file src/is_buildable_3d.rs
//@ trait IsBuildable3D
//@ header pub trait Normalize3: IsBuildable3D
//@ fn normalized default
//@ ret r
//@ spec
        requires nneg(len3(*self)),
        ensures match r { Ok(n) => !len3(*self).ieee_eq(0.0f64) && (forall|i: int| 0 <= i < 3 ==> #[trigger] n.at(i) == self.at(i).ieee_div(len3(*self))), Err(_) => len3(*self).ieee_eq(0.0f64) },
//@ enditem
impl<T: IsBuildable3D> Normalize3 for T {}
//@ file src/is_buildable_2d.rs
//@ trait IsBuildable2D
//@ header pub trait Normalize2: IsBuildable2D
//@ fn normalized default
//@ ret r
//@ spec
        requires nneg(len2(*self)),
        ensures match r { Ok(n) => !len2(*self).ieee_eq(0.0f64) && (forall|i: int| 0 <= i < 2 ==> #[trigger] n.at(i) == self.at(i).ieee_div(len2(*self))), Err(_) => len2(*self).ieee_eq(0.0f64) },
//@ enditem
impl<T: IsBuildable2D> Normalize2 for T {}
/// the sum of the squared coordinate differences
pub open spec fn off2<P: Is2D, Q: Is2D>(p: P, q: Q) -> f64 { sq(p.at(0).ieee_sub(q.at(0))).ieee_add(sq(p.at(1).ieee_sub(q.at(1)))) }
//@ file src/is_2d.rs
//@ impl HasDistanceTo for dyn Is2D
//@ header pub trait Distance2<P: Is2D>: Is2D
//@ fn sqr_distance
//@ ret r
//@ spec
        requires nneg(off2(*self, *other)),
        ensures r.val == off2(*self, *other),
//@ enditem
//@ file src/is_3d.rs
//@ impl HasDistanceTo for dyn Is3D
//@ header pub trait Distance3<P: Is3D>: Is3D
//@ fn sqr_distance
//@ ret r
//@ spec
        requires nneg(sqr_dist3(self, other)),
        ensures r.val == sqr_dist3(self, other),
//@ enditem
/// halfway from p to q in a dimension
pub open spec fn halfway(p: f64, q: f64) -> f64 { p.ieee_add(q.ieee_sub(p).ieee_div(2.0f64)) }
//@ file src/functions.rs
//@ freefn center_2d
//@ ret r
//@ spec
    ensures r.at(0) == halfway(p1.at(0), p2.at(0)), r.at(1) == halfway(p1.at(1), p2.at(1)),
//@ enditem
//@ freefn center_3d
//@ ret r
//@ spec
    ensures r.at(0) == halfway(p1.at(0), p2.at(0)), r.at(1) == halfway(p1.at(1), p2.at(1)), r.at(2) == halfway(p1.at(2), p2.at(2)),
//@ enditem
pub open spec fn pt<P: Is3D>(p: P) -> Point3D { Point3D { x: p.at(0), y: p.at(1), z: p.at(2) } }
/// from p to q; the cross product
pub open spec fn way<P: Is3D, Q: Is3D>(p: P, q: Q) -> Point3D { Point3D { x: q.at(0).ieee_sub(p.at(0)), y: q.at(1).ieee_sub(p.at(1)), z: q.at(2).ieee_sub(p.at(2)) } }
pub open spec fn crs<P: Is3D, Q: Is3D>(p: P, q: Q) -> Point3D { Point3D { x: minor(p, q, 1, 2), y: minor(p, q, 2, 0), z: minor(p, q, 0, 1) } }
/// the normal of a face, not yet of length one
pub open spec fn upright<P: Is3D>(a: P, b: P, c: P) -> Point3D { crs(way(a, b), way(b, c)) }
/// r is the direction of p, an error if it has no length
pub open spec fn is_normal(r: Result<Norm3D>, p: Point3D) -> bool { match r { Ok(n) => !len3(p).ieee_eq(0.0f64) && normed(n, p), Err(_) => len3(p).ieee_eq(0.0f64) } }
/// the face and its vertices exist
pub open spec fn known<P: IsBuildable3D, M: IsMesh<P, Face3>>(m: M, f: int) -> bool { 0 <= f < m.nf() && M::corner(m.unit(f), 0) < m.nv() && M::corner(m.unit(f), 1) < m.nv() && M::corner(m.unit(f), 2) < m.nv() }
//@ file src/is_mesh_3d.rs
//@ trait IsMesh3D
//@ fn face_normal default
//@ replace `let [v1, v2, v3] = $1;` => `let (v1, v2, v3) = three($1);` ; array pattern, the trusted body of three
//@ replace `Norm3D::new(n).and_then(|x| Ok(x))` => `Norm3D::new(n)` ; and_then(Ok) is the identity
//@ ret r
//@ spec
        requires self.mwf(), known::<P, Self>(*self, faceid.0 as int) ==> forall|a: P, b: P, c: P| #[trigger] self.vert(Self::corner(self.unit(faceid.0 as int), 0) as int, a) && #[trigger] self.vert(Self::corner(self.unit(faceid.0 as int), 1) as int, b) && #[trigger] self.vert(Self::corner(self.unit(faceid.0 as int), 2) as int, c) ==> nneg(len3(upright(a, b, c))),
        ensures !known::<P, Self>(*self, faceid.0 as int) ==> r.is_err(),
            known::<P, Self>(*self, faceid.0 as int) ==> exists|a: P, b: P, c: P| #[trigger] self.vert(Self::corner(self.unit(faceid.0 as int), 0) as int, a) && #[trigger] self.vert(Self::corner(self.unit(faceid.0 as int), 1) as int, b) && #[trigger] self.vert(Self::corner(self.unit(faceid.0 as int), 2) as int, c) && is_normal(r, upright(a, b, c)),
//@ enditem
/// a vertex is always reported the same, a unit reports its corners
pub open spec fn steady<P, M: IsMesh<P, Face3>>(m: M) -> bool {
    &&& forall|i: int, x: P, y: P| #[trigger] m.vert(i, x) && #[trigger] m.vert(i, y) ==> x == y
    &&& forall|t: Face3, k: int| 0 <= k < 3 ==> #[trigger] M::corner(t, k) == t.id(k).0
}
/// the position of vertex i of a steady mesh
pub open spec fn vtx<P, M: IsMesh<P, Face3>>(m: M, i: int) -> P { choose|x: P| m.vert(i, x) }
/// the vertex of the k-th corner
pub open spec fn corner_at<P, M: IsMesh<P, Face3>>(m: M, k: int) -> int { m.unit(k / 3).id(k % 3).0 as int }
/// perpendicular to face f, not yet of length one
pub open spec fn risen<P: Is3D, M: IsMesh<P, Face3>>(m: M, f: int) -> Point3D { let a = vtx::<P, M>(m, m.unit(f).id(0).0 as int); crs(way(a, vtx::<P, M>(m, m.unit(f).id(1).0 as int)), way(a, vtx::<P, M>(m, m.unit(f).id(2).0 as int))) }
/// its direction, upwards without one
pub open spec fn heading<P: Is3D, M: IsMesh<P, Face3>>(m: M, f: int) -> Point3D {
    let p = risen::<P, M>(m, f); let l = 1.0f64.ieee_div(len3(p));
    if len3(p).ieee_eq(0.0f64) { Point3D { x: 0.0f64, y: 0.0f64, z: 1.0f64 } } else { Point3D { x: l.ieee_mul(p.x), y: l.ieee_mul(p.y), z: l.ieee_mul(p.z) } }
}
/// the directions of the faces around vertex v, added up over the first k corners
pub open spec fn summed<P: Is3D, M: IsMesh<P, Face3>>(m: M, v: int, k: int) -> Point3D decreases k {
    if k <= 0 { Point3D { x: 0.0f64, y: 0.0f64, z: 0.0f64 } } else {
        let (s, h) = (summed::<P, M>(m, v, k - 1), heading::<P, M>(m, (k - 1) / 3));
        if corner_at::<P, M>(m, k - 1) == v { Point3D { x: s.x.ieee_add(h.x), y: s.y.ieee_add(h.y), z: s.z.ieee_add(h.z) } } else { s }
    }
}
/// every face has vertices of the mesh, no corner of a NaN
pub open spec fn all_known<P: Is3D + IsBuildable3D, M: IsMesh<P, Face3>>(m: M) -> bool { forall|f: int| 0 <= f < m.nf() ==> #[trigger] known::<P, M>(m, f) && nneg(len3(risen::<P, M>(m, f))) }
pub open spec fn default_zero<P: Is3D + Default>() -> bool { forall|p: P| #[trigger] call_ensures(P::default, (), p) ==> pt(p) == (Point3D { x: 0.0f64, y: 0.0f64, z: 0.0f64 }) }
pub open spec fn clone_ok<P: Clone>() -> bool { forall|a: P, b: P| #[trigger] cloned(a, b) ==> a == b }
pub open spec fn has_position<P: Is3D>(p: P, q: Point3D) -> bool { pt(p) == q }
//@ file src/utils.rs
//@ freefn add
//@ ret r
//@ spec
    ensures r.at(0) == p.at(0).ieee_add(q.at(0)), r.at(1) == p.at(1).ieee_add(q.at(1)), r.at(2) == p.at(2).ieee_add(q.at(2)),
//@ enditem
//@ freefn normals_of_mesh
//@ replace `let [v1, v2, v3] = $1;` => `let (v1, v2, v3) = three($1);` ; array pattern, the trusted body of three
//@ replace `Norm3D::new($1).unwrap_or($2)` => `unwrap_or(Norm3D::new($1), $2)` ; see unwrap_or
//@ ret r
//@ spec
    requires mesh.mwf(), steady::<P, M>(*mesh), default_zero::<P>(), clone_ok::<P>(), all_known::<P, M>(*mesh),
        forall|v: int| 0 <= v < mesh.nv() ==> nneg(len3(#[trigger] summed::<P, M>(*mesh, v, (3 * mesh.nf()) as int))),
    ensures r@.len() == mesh.nv(), forall|v: int| 0 <= v < mesh.nv() ==> heads(#[trigger] r@[v], summed::<P, M>(*mesh, v, (3 * mesh.nf()) as int)),
//@ loop 0 inv
        invariant mesh.mwf(), steady::<P, M>(*mesh), nf == mesh.nf(), ns@.len() == mesh.nv(), all_known::<P, M>(*mesh),
            forall|v: int| 0 <= v < mesh.nv() ==> has_position(#[trigger] ns@[v], summed::<P, M>(*mesh, v, 3 * i)),
//@ loop 0 start
        proof { assert(known::<P, M>(*mesh, i as int)); }
//@ before `for j in`
        proof { 
            assert(pt(n) == heading::<P, M>(*mesh, i as int)) by { let p = risen::<P, M>(*mesh, i as int); assert(pt(n).x == n.at(0) && pt(n).y == n.at(1) && pt(n).z == n.at(2)); assert(v1 == vtx::<P, M>(*mesh, face.id(0).0 as int)); assert(v2 == vtx::<P, M>(*mesh, face.id(1).0 as int)); assert(v3 == vtx::<P, M>(*mesh, face.id(2).0 as int)); }
        }
//@ loop 1 inv
            invariant mesh.mwf(), steady::<P, M>(*mesh), nf == mesh.nf(), i < nf, ns@.len() == mesh.nv(), known::<P, M>(*mesh, i as int), face == mesh.unit(i as int), pt(n) == heading::<P, M>(*mesh, i as int),
                forall|v: int| 0 <= v < mesh.nv() ==> has_position(#[trigger] ns@[v], summed::<P, M>(*mesh, v, 3 * i + j)),
//@ loop 1 start
            proof { let k = 3 * i + j + 1; assert((k - 1) / 3 == i && (k - 1) % 3 == j); assert(M::corner(face, j as int) == face.id(j as int).0); }
//@ loop 0 after
    proof { assert(ns@.len() == mesh.nv()); }
//@ loop 2 iter it
//@ loop 2 inv
        invariant it.seq().len() == mesh.nv(), coll__2@.len() == it.index(), forall|v: int| 0 <= v < it.index() ==> heads(#[trigger] coll__2@[v], summed::<P, M>(*mesh, v, (3 * mesh.nf()) as int)), forall|v: int| 0 <= v < mesh.nv() ==> has_position(#[trigger] it.seq()[v], summed::<P, M>(*mesh, v, (3 * mesh.nf()) as int)),
            forall|v: int| 0 <= v < mesh.nv() ==> nneg(len3(#[trigger] summed::<P, M>(*mesh, v, (3 * mesh.nf()) as int))),
//@ enditem
//@ file src/is_transformable_to_2d.rs
//@ trait IsTransFormableTo2D
//@ header pub trait IsTransFormableTo2D: Is3D
//@ fn transform_to_2d
//@ ret r
//@ spec
        ensures r.at(0) == self.at(0), r.at(1) == self.at(1),
//@ enditem
//@ file src/is_plane_3d.rs
//@ trait IsPlane3D
//@ ghost
    /// its origin and its two directions
    spec fn anchored(&self, p: P) -> bool;
    spec fn along_u(&self, n: N) -> bool;
    spec fn along_v(&self, n: N) -> bool;
//@ fn new
//@ ret r
//@ spec
        requires copies::<P>(), copies::<N>(),
        ensures forall|p: P, m: N, n: N| #[trigger] r.anchored(p) && #[trigger] r.along_u(m) && #[trigger] r.along_v(n) ==> p == origin && m == u && n == v,
//@ fn origin
//@ ret r
//@ spec
        ensures self.anchored(r),
//@ fn u
//@ ret r
//@ spec
        ensures self.along_u(r),
//@ fn v
//@ ret r
//@ spec
        ensures self.along_v(r),
//@ enditem
/// a copy is the same value
pub uninterp spec fn copies<T>() -> bool;
pub open spec fn copy_of<T: Clone>(a: T, b: T) -> bool { call_ensures(T::clone, (&a,), b) }
pub broadcast axiom fn ax_copy<T: Clone>(a: T, b: T) requires copies::<T>() ensures #[trigger] copy_of(a, b) ==> a == b;
//@ file src/plane_3d.rs
//@ struct Plane3D
//@ enditem
//@ impl IsPlane3D for Plane3D
//@ ghost
    open spec fn anchored(&self, p: P) -> bool { copy_of(self.origin, p) }
    open spec fn along_u(&self, n: N) -> bool { copy_of(self.u, n) }
    open spec fn along_v(&self, n: N) -> bool { copy_of(self.v, n) }
//@ fn new
//@ start
        proof { broadcast use ax_copy; }
//@ fn origin
//@ fn u
//@ fn v
//@ enditem
impl Default for Point2D { fn default() -> (r: Self) ensures r.x == 0.0f64, r.y == 0.0f64 { Point2D { x: 0.0, y: 0.0 } } }
//@ file src/functions.rs
//@ freefn project_point_on_plane
//@ ret r
//@ spec
    ensures exists|o: P3, u: N, v: N| #[trigger] plane.anchored(o) && #[trigger] plane.along_u(u) && #[trigger] plane.along_v(v) && r.at(0) == along(u, way(o, *point)) && r.at(1) == along(v, way(o, *point)),
//@ enditem
/// the arc cosine and the angle of a direction: some functions (std)
pub uninterp spec fn f_acos(x: f64) -> f64;
pub assume_specification [f64::acos](x: f64) -> (r: f64) ensures r == f_acos(x);
pub uninterp spec fn f_atan2(y: f64, x: f64) -> f64;
pub assume_specification [f64::atan2](y: f64, x: f64) -> (r: f64) ensures r == f_atan2(y, x);
pub uninterp spec fn f_sin(x: f64) -> f64;
pub assume_specification [f64::sin](x: f64) -> (r: f64) ensures r == f_sin(x);
pub uninterp spec fn f_cos(x: f64) -> f64;
pub assume_specification [f64::cos](x: f64) -> (r: f64) ensures r == f_cos(x);
pub uninterp spec fn f_abs(x: f64) -> f64;
pub assume_specification [f64::abs](x: f64) -> (r: f64) ensures r == f_abs(x);
#[derive(Clone, Copy, PartialEq, PartialOrd)]
pub struct Rad(pub f64);
/// `a <= b` (the derived order of Rad is that of its number)
#[verifier::external_body]
pub fn not_above(a: Rad, b: Rad) -> (r: bool) ensures r == a.0.ieee_le(b.0) { a <= b }
impl vstd::std_specs::ops::MulSpecImpl<NonNegative> for NonNegative {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: NonNegative) -> bool { true }
    open spec fn mul_spec(self, o: NonNegative) -> NonNegative { NonNegative { val: self.val.ieee_mul(o.val) } }
}
//@ file src/non_negative.rs
//@ impl Mul for NonNegative
//@ floatassign
//@ type Output
//@ fn mul trusted
//@ enditem
/// x, not beyond one in either direction
pub open spec fn clamped(x: f64) -> f64 { if 1.0f64.ieee_lt(x) { 1.0f64 } else if x.ieee_lt(1.0f64.ieee_neg()) { 1.0f64.ieee_neg() } else { x } }
//@ file src/is_3d.rs
//@ trait Is3D
//@ header pub trait Angle3: Is3D
//@ negate
//@ fn rad_to default
//@ sigreplace `(&self, other: &dyn Is3D)` => `<Q: Is3D>(&self, other: &Q)` ; generic instead of dyn
//@ ret r
//@ spec
        requires nneg(len3(*self)), nneg(len3(*other)),
        ensures match r { Ok(a) => !len3(*self).ieee_eq(0.0f64) && !len3(*other).ieee_eq(0.0f64) && a.0 == f_acos(clamped(along(*self, *other).ieee_div(len3(*self).ieee_mul(len3(*other))))), Err(_) => len3(*self).ieee_eq(0.0f64) || len3(*other).ieee_eq(0.0f64) },
//@ enditem
impl<T: Is3D> Angle3 for T {}
//@ file src/is_2d.rs
//@ trait Is2D
//@ header pub trait Angle2: Is2D
//@ fn rad_to default
//@ sigreplace `(&self, other: &dyn Is2D)` => `<Q: Is2D>(&self, other: &Q)` ; generic instead of dyn
//@ ret r
//@ spec
        ensures r.0 == f_atan2(other.at(1).ieee_sub(self.at(1)), other.at(0).ieee_sub(self.at(0))),
//@ enditem
impl<T: Is2D> Angle2 for T {}
//@ file src/is_editable_2d.rs
//@ trait IsEditable2D
//@ header pub trait Rotate2: IsEditable2D
//@ fn rotate default
//@ spec
        ensures final(self).at(0) == center.at(0).ieee_add(f_cos(r.0).ieee_mul(old(self).at(0).ieee_sub(center.at(0)))).ieee_sub(f_sin(r.0).ieee_mul(old(self).at(1).ieee_sub(center.at(1)))),
            final(self).at(1) == center.at(1).ieee_add(f_sin(r.0).ieee_mul(old(self).at(0).ieee_sub(center.at(0)))).ieee_add(f_cos(r.0).ieee_mul(old(self).at(1).ieee_sub(center.at(1)))), final(self).rest() == old(self).rest(),
//@ enditem
impl<T: IsEditable2D> Rotate2 for T {}
//@ file src/is_filter.rs
//@ trait IsFilter
//@ header pub trait IsFilter<T>
//@ ghost
    spec fn askable(&self, x: T) -> bool;
    spec fn allows(&self, x: T) -> bool;
//@ fn is_allowed
//@ ret r
//@ spec
        requires self.askable(*x),
        ensures r == self.allows(*x),
//@ enditem
//@ file src/is_direction_field_2d.rs
//@ trait IsDirectionField2D
//@ ghost
    /// the direction at the position (a field answers always the same)
    spec fn dir<P: Is2D>(&self, p: P) -> Norm2D;
//@ fn direction_at
//@ ret r
//@ spec
        ensures r == self.dir(*p),
//@ enditem
//@ file src/is_direction_field_3d.rs
//@ trait IsDirectionField3D
//@ ghost
    spec fn dir<P: Is3D>(&self, p: P) -> Norm3D;
//@ fn direction_at
//@ ret r
//@ spec
        ensures r == self.dir(*p),
//@ enditem
//@ file src/filter_direction_field_2d.rs
//@ struct FilterDirectionField2D
//@ enditem
//@ impl IsFilter for FilterDirectionField2D
//@ ghost
    open spec fn askable(&self, x: (P, N)) -> bool { true }
    /// the angle between the direction and that of the field, whichever way around, is at most eps
    open spec fn allows(&self, x: (P, N)) -> bool { f_abs(f_atan2(minor2(self.field.dir(x.0), x.1), along2(self.field.dir(x.0), x.1))).ieee_le(self.eps.0) }
//@ fn is_allowed
//@ replace `Rad(angle) <= self.eps` => `not_above(Rad(angle), self.eps)` ; see not_above
//@ enditem
//@ file src/filter_direction_field_3d.rs
//@ struct FilterDirectionField3D
//@ enditem
//@ impl IsFilter for FilterDirectionField3D
//@ ghost
    open spec fn askable(&self, x: (P, N)) -> bool { nneg(len3(self.field.dir(x.0))) && nneg(len3(x.1)) }
    open spec fn allows(&self, x: (P, N)) -> bool { let d = self.field.dir(x.0); !len3(d).ieee_eq(0.0f64) && !len3(x.1).ieee_eq(0.0f64) && f_acos(clamped(along(d, x.1).ieee_div(len3(d).ieee_mul(len3(x.1))))).ieee_le(self.eps.0) }
//@ fn is_allowed
//@ replace `angle <= self.eps` => `not_above(angle, self.eps)` ; see not_above
//@ enditem
// laws of the products
pub proof fn dot_symmetric<P: Is3D, Q: Is3D>(p: P, q: Q) ensures along(p, q) == along(q, p) { }
pub proof fn dot2_symmetric<P: Is2D, Q: Is2D>(p: P, q: Q) ensures along2(p, q) == along2(q, p) { }
/// a vector has no cross product with itself
pub proof fn cross_itself<P: Is3D>(p: P, i: int, j: int) ensures nan(minor(p, p, i, j)) || minor(p, p, i, j).ieee_eq(0.0f64) { let x = p.at(i).ieee_mul(p.at(j)); assert(!x.ieee_sub(x).ieee_eq(x.ieee_sub(x)) || x.ieee_sub(x).ieee_eq(0.0f64)) by(bit_vector); }
} fn main() {}

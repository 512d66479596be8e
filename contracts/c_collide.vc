#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::collections::{VecDeque, LinkedList};
use std::ops::*;
use std::marker::PhantomData;
verus! {
//@ visitors for_each_point for_each_axis with_colliders for_each_collision_candidate for_each_intersection_candidate
//@include float.inc
broadcast use {vstd::seq_lib::group_seq_properties, fl::ax};
//@include base.inc
//@include num.inc
//@include pos.inc
//@include pos2.inc
//@include pos3.inc
//@include point2.inc
//@include point3.inc
//@include flemmas.inc
/// the value handed to a visitor (R26: recorded instead)
#[verifier::external_body]
pub fn keep<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
pub uninterp spec fn f_abs(x: f64) -> f64;
pub assume_specification [f64::abs](x: f64) -> (r: f64) ensures r == f_abs(x), 0.0f64.ieee_lt(x) ==> r == x;
//@include dist3.inc
//@include norm3.inc
//@include vec3.inc
//@include ops3.inc
//@ file src/is_sat_object.rs
//@ trait IsSATObject
//@ ghost
    /// the corners and the axes to be tried
    spec fn corner(&self, p: Point3D) -> bool;
    spec fn axis(&self, n: Norm3D) -> bool;
    /// the axes can be computed: no coordinate is lost in a NaN
    spec fn computable(&self) -> bool;
//@ fn for_each_point
//@ spec
        requires self.computable(),
        ensures adds(old(f)@, final(f)@, |p: Point3D| self.corner(p)),
//@ fn for_each_axis
//@ spec
        requires self.computable(),
        ensures adds(old(f)@, final(f)@, |n: Norm3D| self.axis(n)),
//@ enditem
/// the new elements are exactly those wanted, in any order
pub open spec fn adds<T>(a: Seq<T>, b: Seq<T>, want: spec_fn(T) -> bool) -> bool {
    a.len() <= b.len() && a == b.take(a.len() as int) && (forall|i: int| a.len() <= i < b.len() ==> want(#[trigger] b[i])) && (forall|x: T| #[trigger] want(x) ==> exists|i: int| a.len() <= i < b.len() && #[trigger] b[i] == x)
}
/// along the axis n all corners of a lie below those of b
pub open spec fn below<A: IsSATObject, B: IsSATObject>(a: A, b: B, n: Norm3D) -> bool { forall|p: Point3D, q: Point3D| #[trigger] a.corner(p) && #[trigger] b.corner(q) ==> along(p, n).ieee_lt(along(q, n)) }
pub open spec fn apart<A: IsSATObject, B: IsSATObject>(a: A, b: B, n: Norm3D) -> bool { below(a, b, n) || below(b, a, n) }
/// has corners, none of which has a NaN along the axis
pub open spec fn sane<A: IsSATObject>(a: A, n: Norm3D) -> bool { (exists|p: Point3D| a.corner(p)) && forall|p: Point3D| #[trigger] a.corner(p) ==> !nan(along(p, n)) }
/// the corners of both can be compared along every axis of one of them
pub open spec fn ready<A: IsSATObject, B: IsSATObject>(a: A, b: B) -> bool { a.computable() && b.computable() && (forall|n: Norm3D| #[trigger] a.axis(n) ==> sane(a, n) && sane(b, n)) && forall|n: Norm3D| #[trigger] b.axis(n) ==> sane(a, n) && sane(b, n) }
/// m is the least of the first k projections (none for k = 0)
pub open spec fn least(m: Option<f64>, s: Seq<Point3D>, k: int, n: Norm3D) -> bool {
    match m { None => k == 0, Some(x) => k > 0 && !nan(x) && (forall|i: int| 0 <= i < k ==> x.ieee_le(along(#[trigger] s[i], n))) && exists|i: int| 0 <= i < k && along(#[trigger] s[i], n) == x }
}
pub open spec fn greatest(m: Option<f64>, s: Seq<Point3D>, k: int, n: Norm3D) -> bool {
    match m { None => k == 0, Some(x) => k > 0 && !nan(x) && (forall|i: int| 0 <= i < k ==> along(#[trigger] s[i], n).ieee_le(x)) && exists|i: int| 0 <= i < k && along(#[trigger] s[i], n) == x }
}
pub proof fn least_step(m: Option<f64>, r: Option<f64>, s: Seq<Point3D>, k: int, n: Norm3D)
    requires least(m, s, k, n), 0 <= k < s.len(), !nan(along(s[k], n)), r == (match m { None => Some(along(s[k], n)), Some(v) => if along(s[k], n).ieee_lt(v) { Some(along(s[k], n)) } else { m } })
    ensures least(r, s, k + 1, n)
{
    let x = along(s[k], n); let y = r->Some_0;
    tri(x, x);
    if m is Some { tri(x, m->Some_0); tri(m->Some_0, x); tri(m->Some_0, m->Some_0); }
    assert forall|i: int| 0 <= i < k + 1 implies y.ieee_le(along(#[trigger] s[i], n)) by {
        if i < k { let z = along(s[i], n); if x.ieee_lt(m->Some_0) { lt_le_trans(x, m->Some_0, z); lt_facts(x, z); } }
    }
    if m is Some && !x.ieee_lt(m->Some_0) { let j = choose|i: int| 0 <= i < k && along(#[trigger] s[i], n) == m->Some_0; assert(along(s[j], n) == y); } else { assert(along(s[k], n) == y); }
}
pub proof fn greatest_step(m: Option<f64>, r: Option<f64>, s: Seq<Point3D>, k: int, n: Norm3D)
    requires greatest(m, s, k, n), 0 <= k < s.len(), !nan(along(s[k], n)), r == (match m { None => Some(along(s[k], n)), Some(v) => if v.ieee_lt(along(s[k], n)) { Some(along(s[k], n)) } else { m } })
    ensures greatest(r, s, k + 1, n)
{
    let x = along(s[k], n); let y = r->Some_0;
    tri(x, x);
    if m is Some { tri(x, m->Some_0); tri(m->Some_0, x); tri(m->Some_0, m->Some_0); }
    assert forall|i: int| 0 <= i < k + 1 implies along(#[trigger] s[i], n).ieee_le(y) by {
        if i < k { let z = along(s[i], n); if m->Some_0.ieee_lt(x) { lt_le_trans(z, m->Some_0, x); lt_facts(z, x); } }
    }
    if m is Some && !m->Some_0.ieee_lt(x) { let j = choose|i: int| 0 <= i < k && along(#[trigger] s[i], n) == m->Some_0; assert(along(s[j], n) == y); } else { assert(along(s[k], n) == y); }
}
pub proof fn occupied<A: IsSATObject>(a: A, n: Norm3D, s: Seq<Point3D>)
    requires sane(a, n), adds(Seq::empty(), s, |p: Point3D| a.corner(p))
    ensures s.len() > 0
{ let c = |p: Point3D| a.corner(p); let p = choose|p: Point3D| a.corner(p); assert(c(p)); }
/// the corners of a lie below those of b exactly if the greatest is less than the least
pub proof fn decide<A: IsSATObject, B: IsSATObject>(a: A, b: B, n: Norm3D, sa: Seq<Point3D>, sb: Seq<Point3D>, hi: Option<f64>, lo: Option<f64>)
    requires adds(Seq::empty(), sa, |p: Point3D| a.corner(p)), adds(Seq::empty(), sb, |p: Point3D| b.corner(p)), greatest(hi, sa, sa.len() as int, n), least(lo, sb, sb.len() as int, n), hi is Some, lo is Some, sane(a, n), sane(b, n)
    ensures hi->Some_0.ieee_lt(lo->Some_0) == below(a, b, n)
{
    let (h, l) = (hi->Some_0, lo->Some_0);
    let ca = |p: Point3D| a.corner(p); let cb = |p: Point3D| b.corner(p);
    if h.ieee_lt(l) {
        assert forall|p: Point3D, q: Point3D| #[trigger] a.corner(p) && #[trigger] b.corner(q) implies along(p, n).ieee_lt(along(q, n)) by {
            assert(ca(p) && cb(q));
            let i = choose|i: int| 0 <= i < sa.len() && #[trigger] sa[i] == p; let j = choose|j: int| 0 <= j < sb.len() && #[trigger] sb[j] == q;
            assert(along(sa[i], n).ieee_le(h) && l.ieee_le(along(sb[j], n)));
            lt_le_trans(along(p, n), h, l); lt_le_trans(along(p, n), l, along(q, n));
        }
    }
    if below(a, b, n) {
        let i = choose|i: int| 0 <= i < sa.len() && along(#[trigger] sa[i], n) == h; let j = choose|j: int| 0 <= j < sb.len() && along(#[trigger] sb[j], n) == l;
        assert(ca(sa[i]) && cb(sb[j])); assert(a.corner(sa[i]) && b.corner(sb[j]));
    }
}
//@ file src/sat_collider.rs
//@ struct SATCollider
//@ enditem
//@ impl SATCollider
//@ fn collide
//@ ret r
//@ spec
        requires ready(*a, *b),
        ensures r == !exists|n: Norm3D| (a.axis(n) || b.axis(n)) && #[trigger] apart(*a, *b, n),
//@ before `a.for_each_axis(&mut f);`
        proof { assert(f@ =~= Seq::<Norm3D>::empty()); }
        let ghost fa = |n: Norm3D| a.axis(n); let ghost fb = |n: Norm3D| b.axis(n);
//@ before `b.for_each_axis(&mut f);`
        let ghost f1 = f@;
//@ loop 0 iter it
//@ loop 0 inv
            invariant adds(Seq::empty(), f1, |n: Norm3D| a.axis(n)), adds(f1, f@, |n: Norm3D| b.axis(n)), ready(*a, *b),
                all_overlap == !exists|k: int| 0 <= k < it.index@ && apart(*a, *b, #[trigger] f@[k]),
//@ loop 0 start
            proof { if it.index@ < f1.len() { assert(f1[it.index@ as int] == f@[it.index@ as int]); } assert(a.axis(*axis) || b.axis(*axis)); assert(sane(*a, *axis) && sane(*b, *axis)); }
//@ loop 1 iter ia
//@ loop 1 inv
                    invariant sane(*a, *axis), adds(Seq::empty(), v0__@, |p: Point3D| a.corner(p)), least(min_a, v0__@, ia.index@ as int, *axis), greatest(max_a, v0__@, ia.index@ as int, *axis),
//@ loop 1 start
                    let ghost (m0, m1) = (min_a, max_a);
                    proof { assert(a.corner(*p)); }
//@ loop 1 end
                    proof { least_step(m0, min_a, v0__@, ia.index@ as int, *axis); greatest_step(m1, max_a, v0__@, ia.index@ as int, *axis); }
//@ loop 2 iter ib
//@ loop 2 inv
                    invariant sane(*b, *axis), adds(Seq::empty(), v1__@, |p: Point3D| b.corner(p)), least(min_b, v1__@, ib.index@ as int, *axis), greatest(max_b, v1__@, ib.index@ as int, *axis),
//@ loop 2 start
                    let ghost (m0, m1) = (min_b, max_b);
                    proof { assert(b.corner(*p)); }
//@ loop 2 end
                    proof { least_step(m0, min_b, v1__@, ib.index@ as int, *axis); greatest_step(m1, max_b, v1__@, ib.index@ as int, *axis); }
//@ loop 2 after
                proof { occupied(*a, *axis, v0__@); occupied(*b, *axis, v1__@); decide(*a, *b, *axis, v0__@, v1__@, max_a, min_b); decide(*b, *a, *axis, v1__@, v0__@, max_b, min_a); }
//@ loop 0 end
            proof { assert(apart(*a, *b, f@[it.index@ as int]) ==> !all_overlap); }
//@ tail
        proof {
            let s = f@;
            assert forall|n: Norm3D| (a.axis(n) || b.axis(n)) && #[trigger] apart(*a, *b, n) implies !all_overlap by {
                assert(fa(n) == a.axis(n) && fb(n) == b.axis(n));
                if a.axis(n) { let i = choose|i: int| 0 <= i < f1.len() && #[trigger] f1[i] == n; assert(s[i] == n); } else { let i = choose|i: int| f1.len() <= i < s.len() && #[trigger] s[i] == n; assert(s[i] == n); }
            }
            if !all_overlap { let k = choose|k: int| 0 <= k < s.len() && apart(*a, *b, #[trigger] s[k]); if k < f1.len() { assert(f1[k] == s[k]); assert(fa(f1[k])); } else { assert(fb(s[k])); } assert(a.axis(s[k]) || b.axis(s[k])); }
        }
//@ enditem
/// separation does not depend on the order of the objects
pub open spec fn sat<A: IsSATObject, B: IsSATObject>(a: A, b: B) -> bool { !exists|n: Norm3D| (a.axis(n) || b.axis(n)) && #[trigger] apart(a, b, n) }
pub proof fn sat_symmetric<A: IsSATObject, B: IsSATObject>(a: A, b: B)
    ensures sat(a, b) == sat(b, a), ready(a, b) == ready(b, a)
{
    if !sat(a, b) { let n = choose|n: Norm3D| (a.axis(n) || b.axis(n)) && #[trigger] apart(a, b, n); assert(apart(b, a, n)); }
    if !sat(b, a) { let n = choose|n: Norm3D| (b.axis(n) || a.axis(n)) && #[trigger] apart(b, a, n); assert(apart(a, b, n)); }
}
/// objects that share a corner always collide
pub proof fn shared_corner<A: IsSATObject, B: IsSATObject>(a: A, b: B, p: Point3D)
    requires ready(a, b), a.corner(p), b.corner(p)
    ensures sat(a, b)
{
    assert forall|n: Norm3D| (a.axis(n) || b.axis(n)) implies !#[trigger] apart(a, b, n) by { let x = along(p, n); tri(x, x); if x.ieee_lt(x) { lt_facts(x, x); } }
}
//@ file src/bounding_box_3d.rs
//@ struct BoundingBox3D
//@ enditem
impl Clone for BoundingBox3D { fn clone(&self) -> (r: Self) ensures r == *self { BoundingBox3D { min: self.min.clone(), max: self.max.clone() } } }
impl BoundingBox3D {
    pub open spec fn lo(&self, i: int) -> f64 { self.min.at(i) }
    pub open spec fn hi(&self, i: int) -> f64 { self.max.at(i) }
    /// the minimum is strictly below the maximum in every dimension
    pub open spec fn ok(&self) -> bool { self.lo(0).ieee_lt(self.hi(0)) && self.lo(1).ieee_lt(self.hi(1)) && self.lo(2).ieee_lt(self.hi(2)) }
    /// the size and the middle in a dimension
    pub open spec fn extent(&self, i: int) -> f64 { self.hi(i).ieee_sub(self.lo(i)) }
    pub open spec fn mid(&self, i: int) -> f64 { self.lo(i).ieee_add(self.extent(i).ieee_div(2.0f64)) }
    /// the open extents overlap in every dimension
    pub open spec fn overlaps(&self, a: BoundingBox3D) -> bool { self.lo(0).ieee_lt(a.hi(0)) && a.lo(0).ieee_lt(self.hi(0)) && self.lo(1).ieee_lt(a.hi(1)) && a.lo(1).ieee_lt(self.hi(1)) && self.lo(2).ieee_lt(a.hi(2)) && a.lo(2).ieee_lt(self.hi(2)) }
    /// the least or the greatest coordinate
    pub open spec fn limit(&self, i: int, x: f64) -> bool { x == self.lo(i) || x == self.hi(i) }
}
//@ impl BoundingBox3D
//@ fn min_p
//@ ret r
//@ spec
        ensures r == self.min,
//@ fn max_p
//@ ret r
//@ spec
        ensures r == self.max,
//@ fn size_x
//@ ret r
//@ spec
        requires self.ok(),
        ensures r.val == self.extent(0),
//@ start
        proof { diff_pos(self.min.at(0), self.max.at(0)); }
//@ fn size_y
//@ ret r
//@ spec
        requires self.ok(),
        ensures r.val == self.extent(1),
//@ start
        proof { diff_pos(self.min.at(1), self.max.at(1)); }
//@ fn size_z
//@ ret r
//@ spec
        requires self.ok(),
        ensures r.val == self.extent(2),
//@ start
        proof { diff_pos(self.min.at(2), self.max.at(2)); }
//@ fn center_bb
//@ ret r
//@ spec
        ensures r.at(0) == self.mid(0), r.at(1) == self.mid(1), r.at(2) == self.mid(2),
//@ fn collides_with
//@ ret r
//@ spec
        requires self.ok(), other.ok(),
        ensures r == self.overlaps(*other),
//@ enditem
//@ impl IsSATObject for BoundingBox3D
//@ ghost
    /// the eight corners; the three directions
    open spec fn corner(&self, p: Point3D) -> bool { self.limit(0, p.x) && self.limit(1, p.y) && self.limit(2, p.z) }
    open spec fn axis(&self, n: Norm3D) -> bool { unit(n, 0) || unit(n, 1) || unit(n, 2) }
    open spec fn computable(&self) -> bool { true }
//@ fn for_each_point
//@ tail
        proof {
            let (a, b) = (old(f)@, f@); let k = a.len() as int;
            assert(a =~= b.take(k));
            assert forall|p: Point3D| self.corner(p) implies exists|i: int| k <= i < b.len() && #[trigger] b[i] == p by {
                assert(b[k] == p || b[k + 1] == p || b[k + 2] == p || b[k + 3] == p || b[k + 4] == p || b[k + 5] == p || b[k + 6] == p || b[k + 7] == p);
            }
        }
//@ fn for_each_axis
//@ tail
        proof {
            let (a, b) = (old(f)@, f@); let k = a.len() as int;
            assert(a =~= b.take(k));
            assert(unit(b[k], 0) && unit(b[k + 1], 1) && unit(b[k + 2], 2));
            assert forall|n: Norm3D| self.axis(n) implies exists|i: int| k <= i < b.len() && #[trigger] b[i] == n by {
                same_norm(n, b[k]); same_norm(n, b[k + 1]); same_norm(n, b[k + 2]);
                assert(b[k] == n || b[k + 1] == n || b[k + 2] == n);
            }
        }
//@ enditem
pub proof fn same_norm(n: Norm3D, m: Norm3D) ensures n.at(0) == m.at(0) && n.at(1) == m.at(1) && n.at(2) == m.at(2) ==> n == m { }
//@ file src/tri_face_3d.rs
//@ struct TriFace3D
//@ enditem
/// from p to q; the cross product
pub open spec fn way(p: Point3D, q: Point3D) -> Point3D { Point3D { x: q.x.ieee_sub(p.x), y: q.y.ieee_sub(p.y), z: q.z.ieee_sub(p.z) } }
pub open spec fn crs<P: Is3D, Q: Is3D>(p: P, q: Q) -> Point3D { Point3D { x: minor(p, q, 1, 2), y: minor(p, q, 2, 0), z: minor(p, q, 0, 1) } }
/// the direction of p, upwards if it has no length
pub open spec fn head(p: Point3D) -> Norm3D {
    let f = 1.0f64.ieee_div(len3(p));
    if len3(p).ieee_eq(0.0f64) { Norm3D { x: 0.0, y: 0.0, z: 1.0 } } else { Norm3D { x: f.ieee_mul(p.x), y: f.ieee_mul(p.y), z: f.ieee_mul(p.z) } }
}
pub proof fn head_at(n: Norm3D, p: Point3D) ensures heads(n, p) ==> n == head(p) { if heads(n, p) { same_norm(n, head(p)); } }
impl TriFace3D {
    pub open spec fn normal(&self) -> Point3D { crs(way(self.a, self.b), way(self.b, self.c)) }
    /// a direction within the plane of the face, perpendicular to a side
    pub open spec fn flank(&self, p: Point3D, q: Point3D) -> Point3D { crs(head(self.normal()), way(p, q)) }
}
//@ impl IsSATObject for TriFace3D
//@ ghost
    open spec fn corner(&self, p: Point3D) -> bool { p == self.a || p == self.b || p == self.c }
    /// the normal of the face and, within its plane, those of its three sides
    open spec fn axis(&self, n: Norm3D) -> bool { n == head(self.normal()) || n == head(self.flank(self.a, self.b)) || n == head(self.flank(self.b, self.c)) || n == head(self.flank(self.c, self.a)) }
    open spec fn computable(&self) -> bool { nneg(len3(self.normal())) && nneg(len3(self.flank(self.a, self.b))) && nneg(len3(self.flank(self.b, self.c))) && nneg(len3(self.flank(self.c, self.a))) }
//@ fn for_each_point
//@ tail
        proof {
            let (a, b) = (old(f)@, f@); let k = a.len() as int;
            assert(a =~= b.take(k));
            assert forall|p: Point3D| self.corner(p) implies exists|i: int| k <= i < b.len() && #[trigger] b[i] == p by { assert(b[k] == p || b[k + 1] == p || b[k + 2] == p); }
        }
//@ fn for_each_axis
//@ replace `Norm3D::new($1).unwrap_or($2)` => `unwrap_or(Norm3D::new($1), $2)` ; see unwrap_or
//@ tail
        proof {
            let (s, t) = (old(f)@, f@); let k = s.len() as int;
            assert(s =~= t.take(k));
            head_at(n, self.normal()); head_at(e1, self.flank(self.a, self.b)); head_at(e2, self.flank(self.b, self.c)); head_at(e3, self.flank(self.c, self.a));
            assert forall|m: Norm3D| self.axis(m) implies exists|i: int| k <= i < t.len() && #[trigger] t[i] == m by { assert(t[k] == m || t[k + 1] == m || t[k + 2] == m || t[k + 3] == m); }
        }
//@ enditem
//@ file src/box_unaligned_3d.rs
//@ struct BoxUnaligned3D
//@ enditem
pub open spec fn plus(p: Point3D, q: Point3D) -> Point3D { Point3D { x: p.x.ieee_add(q.x), y: p.y.ieee_add(q.y), z: p.z.ieee_add(q.z) } }
pub open spec fn minus(p: Point3D, q: Point3D) -> Point3D { Point3D { x: p.x.ieee_sub(q.x), y: p.y.ieee_sub(q.y), z: p.z.ieee_sub(q.z) } }
/// half the given size along a direction
pub open spec fn half_along(n: Norm3D, s: f64) -> Point3D { let d = 0.5f64.ieee_mul(s); Point3D { x: n.x.ieee_mul(d), y: n.y.ieee_mul(d), z: n.z.ieee_mul(d) } }
impl BoxUnaligned3D {
    /// the direction of its x axis; half its extents
    pub open spec fn xd(&self) -> Norm3D { head(crs(self.z_dir, Point3D { x: self.y_dir.x, y: self.y_dir.y, z: self.y_dir.z })) }
    pub open spec fn dx(&self) -> Point3D { half_along(self.xd(), self.size@[0].val) }
    pub open spec fn dy(&self) -> Point3D { half_along(self.y_dir, self.size@[1].val) }
    pub open spec fn dz(&self) -> Point3D { half_along(self.z_dir, self.size@[2].val) }
    /// the corner on the given sides of the center
    pub open spec fn corner_at(&self, x: bool, y: bool, z: bool) -> Point3D {
        let m = if x { plus(self.center, self.dx()) } else { minus(self.center, self.dx()) };
        if y { plus(m, if z { plus(self.dy(), self.dz()) } else { minus(self.dy(), self.dz()) }) } else { minus(m, if z { minus(self.dy(), self.dz()) } else { plus(self.dy(), self.dz()) }) }
    }
    pub open spec fn has_corner(&self, p: Point3D) -> bool { exists|x: bool, y: bool, z: bool| p == #[trigger] self.corner_at(x, y, z) }
    pub open spec fn works(&self) -> bool { nneg(len3(crs(self.z_dir, Point3D { x: self.y_dir.x, y: self.y_dir.y, z: self.y_dir.z }))) }
}
pub uninterp spec fn f_sin(x: f64) -> f64;
/// some function of the argument (assumed: std)
pub uninterp spec fn f_cos(x: f64) -> f64;
pub assume_specification [f64::sin](x: f64) -> (r: f64) ensures r == f_sin(x);
pub assume_specification [f64::cos](x: f64) -> (r: f64) ensures r == f_cos(x);
/// p turned about the z axis by -phi
pub open spec fn turned<P: Is3D>(p: P, phi: f64) -> Point3D {
    let (s, c) = (f_sin(phi.ieee_neg()), f_cos(phi.ieee_neg()));
    Point3D { x: p.at(0).ieee_mul(c).ieee_sub(p.at(1).ieee_mul(s)), y: p.at(0).ieee_mul(s).ieee_add(p.at(1).ieee_mul(c)), z: p.at(2) }
}
//@ freefn rot2d
//@ negate
//@ ret r
//@ spec
    ensures r.at(0) == turned(*p, phi).x, r.at(1) == turned(*p, phi).y, r.at(2) == turned(*p, phi).z,
//@ enditem
//@ impl BoxUnaligned3D
//@ opcalls
//@ fn new_from_bb
//@ ret r
//@ spec
        requires bb.ok(),
        ensures forall|i: int| 0 <= i < 3 ==> r.center.at(i) == bb.mid(i) && (#[trigger] r.size@[i]).val == bb.extent(i), unit(r.y_dir, 1), unit(r.z_dir, 2),
//@ fn new_from_z_rotation
//@ ret r
//@ spec
        requires nneg(len3(turned(Point3D { x: 0.0, y: 1.0, z: 0.0 }, rotation))), !len3(turned(Point3D { x: 0.0, y: 1.0, z: 0.0 }, rotation)).ieee_eq(0.0f64),
        ensures r.center.at(0) == center.at(0), r.center.at(1) == center.at(1), r.center.at(2) == center.at(2), r.size == size, unit(r.z_dir, 2), r.y_dir == head(turned(Point3D { x: 0.0, y: 1.0, z: 0.0 }, rotation)),
//@ tailwrap
        proof { head_at(ret__.y_dir, turned(Point3D { x: 0.0, y: 1.0, z: 0.0 }, rotation)); }
//@ fn x_dir
//@ ret r
//@ replace `Norm3D::new($1).unwrap_or($2)` => `unwrap_or(Norm3D::new($1), $2)` ; see unwrap_or
//@ spec
        requires self.works(),
        ensures r == self.xd(),
//@ tailwrap
        proof { head_at(ret__, crs(self.z_dir, Point3D { x: self.y_dir.x, y: self.y_dir.y, z: self.y_dir.z })); }
//@ fn d_x
//@ ret r
//@ spec
        requires self.works(),
        ensures r == self.dx(),
//@ fn d_y
//@ ret r
//@ spec
        ensures r == self.dy(),
//@ fn d_z
//@ ret r
//@ spec
        ensures r == self.dz(),
//@ enditem
// its corners, outside of the trait: within it Verus loses the operators' specifications
//@ impl IsSATObject for BoxUnaligned3D
//@ header impl BoxUnaligned3D
//@ opcalls
//@ fn for_each_point
//@ rename put_corners
//@ spec
        requires self.works(),
        ensures adds(old(f)@, final(f)@, |p: Point3D| self.has_corner(p)),
//@ tail
        proof {
            let (s, t) = (old(f)@, f@); let k = s.len() as int;
            assert(s =~= t.take(k));
            assert(t[k] == self.corner_at(false, false, true) && t[k + 1] == self.corner_at(false, false, false) && t[k + 2] == self.corner_at(false, true, false) && t[k + 3] == self.corner_at(false, true, true));
            assert(t[k + 4] == self.corner_at(true, false, true) && t[k + 5] == self.corner_at(true, false, false) && t[k + 6] == self.corner_at(true, true, false) && t[k + 7] == self.corner_at(true, true, true));
            assert forall|p: Point3D| self.has_corner(p) implies exists|i: int| k <= i < t.len() && #[trigger] t[i] == p by {
                assert(t[k] == p || t[k + 1] == p || t[k + 2] == p || t[k + 3] == p || t[k + 4] == p || t[k + 5] == p || t[k + 6] == p || t[k + 7] == p);
            }
        }
//@ enditem
//@ impl IsSATObject for BoxUnaligned3D
//@ ghost
    /// the eight corners; its three directions
    open spec fn corner(&self, p: Point3D) -> bool { self.has_corner(p) }
    open spec fn axis(&self, n: Norm3D) -> bool { n == self.xd() || n == self.y_dir || n == self.z_dir }
    open spec fn computable(&self) -> bool { self.works() }
//@ fn for_each_point trusted
//@ fn for_each_axis
//@ tail
        proof {
            let (s, t) = (old(f)@, f@); let k = s.len() as int;
            assert(s =~= t.take(k));
            assert forall|m: Norm3D| self.axis(m) implies exists|i: int| k <= i < t.len() && #[trigger] t[i] == m by { assert(t[k] == m || t[k + 1] == m || t[k + 2] == m); }
        }
//@ enditem
//@ file src/collider_3d.rs
//@ enum Collider3D
//@ enditem
/// boxes along the axes collide if their extents overlap, other objects unless an axis separates them
pub open spec fn clash(a: Collider3D, b: Collider3D) -> bool {
    match (a, b) {
        (Collider3D::AABB(x), Collider3D::AABB(y)) => x.overlaps(y),
        (Collider3D::AABB(x), Collider3D::Box3(y)) => sat(x, y),
        (Collider3D::AABB(x), Collider3D::Face(y)) => sat(x, y),
        (Collider3D::Box3(x), Collider3D::AABB(y)) => sat(x, y),
        (Collider3D::Box3(x), Collider3D::Box3(y)) => sat(x, y),
        (Collider3D::Box3(x), Collider3D::Face(y)) => sat(x, y),
        (Collider3D::Face(x), Collider3D::AABB(y)) => sat(x, y),
        (Collider3D::Face(x), Collider3D::Box3(y)) => sat(x, y),
        (Collider3D::Face(x), Collider3D::Face(y)) => sat(x, y),
    }
}
/// can be compared: valid boxes, no NaN
pub open spec fn fit(a: Collider3D, b: Collider3D) -> bool {
    match (a, b) {
        (Collider3D::AABB(x), Collider3D::AABB(y)) => x.ok() && y.ok(),
        (Collider3D::AABB(x), Collider3D::Box3(y)) => ready(x, y),
        (Collider3D::AABB(x), Collider3D::Face(y)) => ready(x, y),
        (Collider3D::Box3(x), Collider3D::AABB(y)) => ready(x, y),
        (Collider3D::Box3(x), Collider3D::Box3(y)) => ready(x, y),
        (Collider3D::Box3(x), Collider3D::Face(y)) => ready(x, y),
        (Collider3D::Face(x), Collider3D::AABB(y)) => ready(x, y),
        (Collider3D::Face(x), Collider3D::Box3(y)) => ready(x, y),
        (Collider3D::Face(x), Collider3D::Face(y)) => ready(x, y),
    }
}
pub open spec fn rank(a: Collider3D) -> int { match a { Collider3D::AABB(_) => 0, Collider3D::Box3(_) => 1, Collider3D::Face(_) => 2 } }
/// whether two colliders collide does not depend on which one is asked
pub proof fn clash_symmetric(a: Collider3D, b: Collider3D)
    ensures clash(a, b) == clash(b, a), fit(a, b) == fit(b, a)
{
    match (a, b) {
        (Collider3D::AABB(x), Collider3D::AABB(y)) => {},
        (Collider3D::AABB(x), Collider3D::Box3(y)) => { sat_symmetric(x, y) },
        (Collider3D::AABB(x), Collider3D::Face(y)) => { sat_symmetric(x, y) },
        (Collider3D::Box3(x), Collider3D::AABB(y)) => { sat_symmetric(x, y) },
        (Collider3D::Box3(x), Collider3D::Box3(y)) => { sat_symmetric(x, y) },
        (Collider3D::Box3(x), Collider3D::Face(y)) => { sat_symmetric(x, y) },
        (Collider3D::Face(x), Collider3D::AABB(y)) => { sat_symmetric(x, y) },
        (Collider3D::Face(x), Collider3D::Box3(y)) => { sat_symmetric(x, y) },
        (Collider3D::Face(x), Collider3D::Face(y)) => { sat_symmetric(x, y) },
    }
}
//@ impl Collider3D
//@ fn collides_with
//@ ret r
//@ spec
        requires fit(*self, *other),
        ensures r == clash(*self, *other),
        decreases (if rank(*self) > rank(*other) { 1int } else { 0int }),
//@ start
        proof { clash_symmetric(*self, *other); }
//@ enditem
//@ file src/has_bounding_box_3d.rs
//@ trait HasBoundingBox3D
//@ header pub trait HasBoundingBox3D: Sized
//@ ghost
    /// the element has a bounding box
    spec fn has_bb(&self) -> bool;
    spec fn bb(&self) -> BoundingBox3D;
//@ fn bounding_box
//@ ret r
//@ spec
        requires self.has_bb(),
        ensures r == self.bb(), r.ok(),
//@ enditem
//@ file src/has_colliders_3d.rs
//@ trait HasColliders3D
//@ header pub trait HasColliders3D: HasBoundingBox3D
//@ ghost
    /// has colliders besides its bounding box, and which
    spec fn more(&self) -> bool;
    spec fn also(&self, c: Collider3D) -> bool;
//@ fn has_additional_colliders
//@ ret r
//@ spec
        ensures r == self.more(),
//@ fn with_colliders
//@ spec
        ensures adds(old(f)@, final(f)@, |c: Collider3D| self.also(c)),
//@ enditem
//@ trait HasColliders3D
//@ header pub trait Collides3D: HasColliders3D
//@ fn collides_with_collider default
//@ ret r
//@ spec
        requires self.more() || self.has_bb(), all_fit(*self, *other),
        ensures r == hits(*self, *other),
//@ start
        proof { if !self.more() { assert(solid(*self, Collider3D::AABB(self.bb()))); } }
//@ loop 0 before
            let ghost fc = |c: Collider3D| self.also(c);
//@ loop 0 iter it
//@ loop 0 inv
                invariant self.more(), adds(Seq::empty(), v0__@, |c: Collider3D| self.also(c)), all_fit(*self, *other), result == exists|k: int| 0 <= k < it.index@ && clash(#[trigger] v0__@[k], *other),
//@ loop 0 start
                let ghost r0 = result;
                proof { let fc = |c: Collider3D| self.also(c); assert(fc(v0__@[it.index@ as int])); assert(solid(*self, v0__@[it.index@ as int])); }
//@ loop 0 after
            proof {
                assert forall|c: Collider3D| #[trigger] solid(*self, c) && clash(c, *other) implies result by { assert(fc(c)); let i = choose|i: int| 0 <= i < v0__@.len() && #[trigger] v0__@[i] == c; }
                if result { let k = choose|k: int| 0 <= k < v0__@.len() && clash(#[trigger] v0__@[k], *other); assert(fc(v0__@[k])); assert(solid(*self, v0__@[k])); }
            }
//@ fn collides_with default
//@ sigreplace `(&self, other: &dyn HasColliders3D)` => `<Q: HasColliders3D>(&self, other: &Q)` ; generic instead of dyn
//@ ret r
//@ spec
        requires self.more() || self.has_bb(), other.more() || other.has_bb(), both_fit(*self, *other),
        ensures r == hit_by(*self, *other),
//@ start
        proof { if !other.more() { assert(solid(*other, Collider3D::AABB(other.bb()))); } }
//@ loop 0 before
            let ghost fc = |c: Collider3D| other.also(c);
//@ loop 0 iter it
//@ loop 0 inv
                invariant self.more() || self.has_bb(), other.more(), adds(Seq::empty(), v0__@, |c: Collider3D| other.also(c)), both_fit(*self, *other), result == exists|k: int| 0 <= k < it.index@ && hits(*self, #[trigger] v0__@[k]),
//@ loop 0 start
                proof { let fc = |c: Collider3D| other.also(c); assert(fc(v0__@[it.index@ as int])); assert(solid(*other, v0__@[it.index@ as int])); }
//@ loop 0 after
            proof {
                assert forall|c: Collider3D| #[trigger] solid(*other, c) && hits(*self, c) implies result by { assert(fc(c)); let i = choose|i: int| 0 <= i < v0__@.len() && #[trigger] v0__@[i] == c; }
                if result { let k = choose|k: int| 0 <= k < v0__@.len() && hits(*self, #[trigger] v0__@[k]); assert(fc(v0__@[k])); assert(solid(*other, v0__@[k])); }
            }
//@ enditem
impl<T: HasColliders3D> Collides3D for T {}
/// what an object collides with: its colliders, or its bounding box if it has none
pub open spec fn solid<T: HasColliders3D>(a: T, c: Collider3D) -> bool { if a.more() { a.also(c) } else { c == Collider3D::AABB(a.bb()) } }
pub open spec fn hits<T: HasColliders3D>(a: T, o: Collider3D) -> bool { exists|c: Collider3D| #[trigger] solid(a, c) && clash(c, o) }
pub open spec fn hit_by<T: HasColliders3D, Q: HasColliders3D>(a: T, b: Q) -> bool { exists|c: Collider3D| #[trigger] solid(b, c) && hits(a, c) }
pub open spec fn all_fit<T: HasColliders3D>(a: T, o: Collider3D) -> bool { forall|c: Collider3D| #[trigger] solid(a, c) ==> fit(c, o) }
pub open spec fn both_fit<T: HasColliders3D, Q: HasColliders3D>(a: T, b: Q) -> bool { forall|c: Collider3D| #[trigger] solid(b, c) ==> all_fit(a, c) }
//@ file src/is_collider_container_3d.rs
//@ trait IsColliderContainer3D
//@ header pub trait IsColliderContainer3D: Sized
//@ ghost
    spec fn any_req<Q: HasColliders3D>(&self, other: Q) -> bool;
    spec fn any_hit<Q: HasColliders3D>(&self, other: Q) -> bool;
    spec fn any_breq<Q: HasBoundingBox3D>(&self, other: Q) -> bool;
    spec fn any_near<Q: HasBoundingBox3D>(&self, other: Q) -> bool;
//@ fn any_element_collides_with_collider
//@ sigreplace `(&self, other: &dyn HasColliders3D)` => `<Q: HasColliders3D>(&self, other: &Q)` ; generic instead of dyn
//@ ret r
//@ spec
        requires self.any_req(*other),
        ensures r == self.any_hit(*other),
//@ fn any_element_collides_with_bounding
//@ sigreplace `(&self, other: &dyn HasBoundingBox3D)` => `<Q: HasBoundingBox3D>(&self, other: &Q)` ; generic instead of dyn
//@ ret r
//@ spec
        requires self.any_breq(*other),
        ensures r == self.any_near(*other),
//@ enditem
pub open spec fn comparable<T: HasColliders3D, Q: HasColliders3D>(s: Seq<T>, o: Q) -> bool { (o.more() || o.has_bb()) && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).has_bb() && both_fit(s[i], o) }
//@ file src/impls/vec.rs
//@ impl IsColliderContainer3D for Vec
//@ ghost
    open spec fn any_req<Q: HasColliders3D>(&self, other: Q) -> bool { comparable(self@, other) }
    open spec fn any_hit<Q: HasColliders3D>(&self, other: Q) -> bool { exists|i: int| 0 <= i < self@.len() && hit_by(#[trigger] self@[i], other) }
    open spec fn any_breq<Q: HasBoundingBox3D>(&self, other: Q) -> bool { other.has_bb() && other.bb().ok() && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).has_bb() && self@[i].bb().ok() }
    open spec fn any_near<Q: HasBoundingBox3D>(&self, other: Q) -> bool { exists|i: int| 0 <= i < self@.len() && other.bb().overlaps((#[trigger] self@[i]).bb()) }
//@ anyloop
//@ fn any_element_collides_with_collider
//@ sigreplace `(&self, other: &dyn HasColliders3D)` => `<Q: HasColliders3D>(&self, other: &Q)` ; generic instead of dyn
//@ loop 0 iter it
//@ loop 0 inv
            invariant it.seq().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] it.seq()[i]) == self@[i], comparable(self@, *other), any__0 == exists|i: int| 0 <= i < it.index@ && hit_by(#[trigger] self@[i], *other),
//@ fn any_element_collides_with_bounding
//@ sigreplace `(&self, other: &dyn HasBoundingBox3D)` => `<Q: HasBoundingBox3D>(&self, other: &Q)` ; generic instead of dyn
//@ loop 0 iter it
//@ loop 0 inv
            invariant it.seq().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] it.seq()[i]) == self@[i], self.any_breq(*other), any__0 == exists|i: int| 0 <= i < it.index@ && other.bb().overlaps((#[trigger] self@[i]).bb()),
//@ enditem
//@ file src/impls/vec_deque.rs
//@ impl IsColliderContainer3D for VecDeque
//@ ghost
    open spec fn any_req<Q: HasColliders3D>(&self, other: Q) -> bool { comparable(self@, other) }
    open spec fn any_hit<Q: HasColliders3D>(&self, other: Q) -> bool { exists|i: int| 0 <= i < self@.len() && hit_by(#[trigger] self@[i], other) }
    open spec fn any_breq<Q: HasBoundingBox3D>(&self, other: Q) -> bool { other.has_bb() && other.bb().ok() && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).has_bb() && self@[i].bb().ok() }
    open spec fn any_near<Q: HasBoundingBox3D>(&self, other: Q) -> bool { exists|i: int| 0 <= i < self@.len() && other.bb().overlaps((#[trigger] self@[i]).bb()) }
//@ anyloop
//@ fn any_element_collides_with_collider
//@ sigreplace `(&self, other: &dyn HasColliders3D)` => `<Q: HasColliders3D>(&self, other: &Q)` ; generic instead of dyn
//@ loop 0 iter it
//@ loop 0 inv
            invariant it.seq().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] it.seq()[i]) == self@[i], comparable(self@, *other), any__0 == exists|i: int| 0 <= i < it.index@ && hit_by(#[trigger] self@[i], *other),
//@ fn any_element_collides_with_bounding
//@ sigreplace `(&self, other: &dyn HasBoundingBox3D)` => `<Q: HasBoundingBox3D>(&self, other: &Q)` ; generic instead of dyn
//@ loop 0 iter it
//@ loop 0 inv
            invariant it.seq().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] it.seq()[i]) == self@[i], self.any_breq(*other), any__0 == exists|i: int| 0 <= i < it.index@ && other.bb().overlaps((#[trigger] self@[i]).bb()),
//@ enditem
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(A)]
pub struct ExLinkedList<T, A: std::alloc::Allocator>(LinkedList<T, A>);
/// the elements of a linked list in order
pub uninterp spec fn items<T>(l: &LinkedList<T>) -> Seq<T>;
/// `l.iter()` (assumed: std)
#[verifier::external_body]
pub fn list_items<T>(v: &LinkedList<T>) -> (r: Vec<&T>) ensures r@.len() == items(v).len(), forall|i: int| 0 <= i < items(v).len() ==> *(#[trigger] r@[i]) == items(v)[i] { v.iter().collect() }
//@ file src/impls/linked_list.rs
//@ impl IsColliderContainer3D for LinkedList
//@ ghost
    open spec fn any_req<Q: HasColliders3D>(&self, other: Q) -> bool { comparable(items(self), other) }
    open spec fn any_hit<Q: HasColliders3D>(&self, other: Q) -> bool { exists|i: int| 0 <= i < items(self).len() && hit_by(#[trigger] items(self)[i], other) }
    open spec fn any_breq<Q: HasBoundingBox3D>(&self, other: Q) -> bool { other.has_bb() && other.bb().ok() && forall|i: int| 0 <= i < items(self).len() ==> (#[trigger] items(self)[i]).has_bb() && items(self)[i].bb().ok() }
    open spec fn any_near<Q: HasBoundingBox3D>(&self, other: Q) -> bool { exists|i: int| 0 <= i < items(self).len() && other.bb().overlaps((#[trigger] items(self)[i]).bb()) }
//@ anyloop
//@ fn any_element_collides_with_collider
//@ sigreplace `(&self, other: &dyn HasColliders3D)` => `<Q: HasColliders3D>(&self, other: &Q)` ; generic instead of dyn
//@ replace `self.iter()` => `list_items(self)` ; see list_items
//@ loop 0 iter it
//@ loop 0 inv
            invariant it.seq().len() == items(self).len(), forall|i: int| 0 <= i < items(self).len() ==> *(#[trigger] it.seq()[i]) == items(self)[i], comparable(items(self), *other), any__0 == exists|i: int| 0 <= i < it.index@ && hit_by(#[trigger] items(self)[i], *other),
//@ fn any_element_collides_with_bounding
//@ sigreplace `(&self, other: &dyn HasBoundingBox3D)` => `<Q: HasBoundingBox3D>(&self, other: &Q)` ; generic instead of dyn
//@ replace `self.iter()` => `list_items(self)` ; see list_items
//@ loop 0 iter it
//@ loop 0 inv
            invariant it.seq().len() == items(self).len(), forall|i: int| 0 <= i < items(self).len() ==> *(#[trigger] it.seq()[i]) == items(self)[i], self.any_breq(*other), any__0 == exists|i: int| 0 <= i < it.index@ && other.bb().overlaps((#[trigger] items(self)[i]).bb()),
//@ enditem
//@ file src/aa_bb_tree_3d.rs
//@ struct AABBTree3DLeaf
//@ enditem
//@ struct AABBTree3DBranch
//@ enditem
//@ enum AABBTree3D
//@ enditem
/// x is an element of some leaf; every node's box covers the boxes below (both as in c_aabb)
pub uninterp spec fn holds<HB: HasBoundingBox3D + Clone>(t: AABBTree3D<HB>, x: HB) -> bool;
pub uninterp spec fn wf<HB: HasBoundingBox3D + Clone>(t: AABBTree3D<HB>) -> bool;
//@ impl AABBTree3D
//@ fn for_each_collision_candidate trusted
//@ spec
        requires wf(*self), bb.ok(),
        ensures adds(old(f)@, final(f)@, |e: HB| holds(*self, e) && e.bb().overlaps(*bb)),
//@ enditem
//@ impl IsColliderContainer3D for AABBTree3D
//@ ghost
    open spec fn any_req<Q: HasColliders3D>(&self, other: Q) -> bool { wf(*self) && other.has_bb() && forall|e: HB| #[trigger] holds(*self, e) ==> e.has_bb() && both_fit(e, other) }
    /// an element collides, among those whose bounding box overlaps that of the other object
    open spec fn any_hit<Q: HasColliders3D>(&self, other: Q) -> bool { exists|e: HB| #[trigger] holds(*self, e) && e.bb().overlaps(other.bb()) && hit_by(e, other) }
    open spec fn any_breq<Q: HasBoundingBox3D>(&self, other: Q) -> bool { wf(*self) && other.has_bb() }
    open spec fn any_near<Q: HasBoundingBox3D>(&self, other: Q) -> bool { exists|e: HB| #[trigger] holds(*self, e) && e.bb().overlaps(other.bb()) }
//@ fn any_element_collides_with_collider
//@ sigreplace `(&self, other: &dyn HasColliders3D)` => `<Q: HasColliders3D>(&self, other: &Q)` ; generic instead of dyn
//@ loop 0 before
        let ghost near = |e: HB| holds(*self, e) && e.bb().overlaps(other.bb());
//@ loop 0 iter it
//@ loop 0 inv
            invariant self.any_req(*other), adds(Seq::empty(), v0__@, |e: HB| holds(*self, e) && e.bb().overlaps(other.bb())), any_collides == exists|k: int| 0 <= k < it.index@ && hit_by(#[trigger] v0__@[k], *other),
//@ loop 0 start
            proof { let near = |e: HB| holds(*self, e) && e.bb().overlaps(other.bb()); assert(near(v0__@[it.index@ as int])); }
//@ loop 0 after
        proof {
            assert forall|e: HB| #[trigger] holds(*self, e) && e.bb().overlaps(other.bb()) && hit_by(e, *other) implies any_collides by { assert(near(e)); let i = choose|i: int| 0 <= i < v0__@.len() && #[trigger] v0__@[i] == e; }
            if any_collides { let k = choose|k: int| 0 <= k < v0__@.len() && hit_by(#[trigger] v0__@[k], *other); assert(near(v0__@[k])); }
        }
//@ fn any_element_collides_with_bounding
//@ sigreplace `(&self, other: &dyn HasBoundingBox3D)` => `<Q: HasBoundingBox3D>(&self, other: &Q)` ; generic instead of dyn
//@ loop 0 before
        let ghost near = |e: HB| holds(*self, e) && e.bb().overlaps(other.bb());
//@ loop 0 iter it
//@ loop 0 inv
            invariant any_collides == (it.index@ > 0),
//@ loop 0 after
        proof {
            assert forall|e: HB| #[trigger] holds(*self, e) && e.bb().overlaps(other.bb()) implies any_collides by { assert(near(e)); }
            if any_collides { assert(near(v0__@[0])); }
        }
//@ enditem
//@ file src/tri_face_3d.rs
//@ impl HasBoundingBox3D for TriFace3D
//@ ghost
    uninterp spec fn has_bb(&self) -> bool;
    uninterp spec fn bb(&self) -> BoundingBox3D;
//@ fn bounding_box trusted
//@ enditem
//@ file src/box_unaligned_3d.rs
//@ impl HasBoundingBox3D for BoxUnaligned3D
//@ ghost
    uninterp spec fn has_bb(&self) -> bool;
    uninterp spec fn bb(&self) -> BoundingBox3D;
//@ fn bounding_box trusted
//@ enditem
//@ file src/collider_3d.rs
//@ impl HasBoundingBox3D for Collider3D
//@ ghost
    open spec fn has_bb(&self) -> bool { match self { Collider3D::AABB(x) => x.ok(), Collider3D::Box3(x) => x.has_bb(), Collider3D::Face(x) => x.has_bb() } }
    open spec fn bb(&self) -> BoundingBox3D { match self { Collider3D::AABB(x) => *x, Collider3D::Box3(x) => x.bb(), Collider3D::Face(x) => x.bb() } }
//@ fn bounding_box
//@ enditem
//@ impl HasColliders3D for Collider3D
//@ ghost
    /// any but an aligned box is its own collider
    open spec fn more(&self) -> bool { !(self is AABB) }
    open spec fn also(&self, c: Collider3D) -> bool { c == *self }
//@ fn has_additional_colliders
//@ fn with_colliders
//@ tailwrap
        proof { let (a, b) = (old(f)@, f@); assert(a =~= b.take(a.len() as int)); assert(b[a.len() as int] == *self); }
//@ enditem
/// a collider as an object collides with another exactly if the two collide
pub proof fn collider_alone(a: Collider3D, b: Collider3D)
    ensures hit_by(a, b) == clash(a, b), hits(a, b) == clash(a, b), both_fit(a, b) == fit(a, b)
{ assert(solid(a, a)); assert(solid(b, b)); assert(forall|c: Collider3D| #[trigger] solid(a, c) ==> c == a); assert(forall|c: Collider3D| #[trigger] solid(b, c) ==> c == b); }
} fn main() {}

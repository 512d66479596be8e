#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::ops::*;
use std::marker::PhantomData;
verus! {
//@include float.inc
broadcast use {vstd::seq_lib::group_seq_properties, fl::ax};
//@include base.inc
//@include num.inc
//@include pos.inc
//@include pos2.inc
//@include pos3.inc
//@include point2.inc
//@include point3.inc
//@include norm3.inc
//@include flemmas.inc
//@include listing.inc
//@include dist3.inc
//@include mesh_trait.inc
//@include three.inc
//@ file src/line_3d.rs
//@ struct Line3D
//@ enditem
//@ file src/ray_3d.rs
//@ struct Ray3D
//@ enditem
//@ file src/bounding_box_3d.rs
//@ struct BoundingBox3D
//@ enditem
//@ file src/has_bounding_box_3d.rs
//@ trait HasBoundingBox3DMaybe
//@ header pub trait HasBoundingBox3DMaybe: Sized
//@ ghost
    spec fn bb(&self) -> Option<BoundingBox3D>;
//@ fn bounding_box_maybe
//@ ret r
//@ spec
        ensures r == self.bb(),
//@ enditem
/// where a line meets a box (see c_ray)
pub uninterp spec fn meets(l: Line3D, b: BoundingBox3D) -> Option<Point3D>;
/// where the ray meets an element, if it has a bounding box
pub open spec fn hit<HB: HasBoundingBox3DMaybe>(ray: Ray3D, e: HB) -> Option<Point3D> { match e.bb() { Some(b) => meets(ray.line, b), None => None } }
pub open spec fn dist(ray: Ray3D, p: Point3D) -> f64 { sqr_dist3(&ray.line.anchor, &p) }
/// where the ray meets the elements of a list
pub type Hits = spec_fn(int) -> Option<Point3D>;
pub open spec fn hits<'a, HB: HasBoundingBox3DMaybe>(ray: Ray3D, s: Seq<&'a HB>) -> Hits { |i: int| hit(ray, *s[i]) }
pub open spec fn hits_mut<'a, HB: HasBoundingBox3DMaybe>(ray: Ray3D, s: Seq<&'a mut HB>) -> Hits { |i: int| hit(ray, *s[i]) }
/// what is returned for the i-th element: itself, its index
pub open spec fn itself<T>(s: Seq<T>) -> spec_fn(int) -> T { |i: int| s[i] }
/// the present value of an element that may be changed through the reference
pub open spec fn values<'a, HB>(s: Seq<&'a mut HB>) -> spec_fn(int) -> HB { |i: int| *s[i] }
pub open spec fn value<'a, HB>(r: Option<(Point3D, &'a mut HB)>) -> Option<(Point3D, HB)> { match r { None => None, Some(x) => Some((x.0, *x.1)) } }
pub open spec fn index() -> spec_fn(int) -> usize { |i: int| i as usize }
/// records the calls of a callback
pub trait Take<'c, HB> {
    spec fn taken(&self) -> Seq<(Point3D, HB)>;
    fn take(&mut self, p: &Point3D, x: &'c mut HB)
        ensures final(self).taken() == old(self).taken().push((*p, *old(x)));
}
/// the first k elements as far as the ray meets them, in order
pub open spec fn met<'a, HB: HasBoundingBox3DMaybe>(ray: Ray3D, s: Seq<&'a mut HB>, k: int) -> Seq<(Point3D, HB)> decreases k {
    if k <= 0 { Seq::empty() } else { match hit(ray, *s[k - 1]) { Some(p) => met(ray, s, k - 1).push((p, *s[k - 1])), None => met(ray, s, k - 1) } }
}
/// the distances can be compared
pub open spec fn sane(ray: Ray3D, h: Hits, n: int) -> bool { forall|i: int| 0 <= i < n && (#[trigger] h(i)) is Some ==> !nan(dist(ray, h(i)->Some_0)) }
/// the i-th element is met at p, none of the first k is met closer to the anchor
pub open spec fn closest(ray: Ray3D, h: Hits, k: int, i: int, p: Point3D) -> bool {
    0 <= i < k && h(i) == Some(p) && forall|j: int| 0 <= j < k && (#[trigger] h(j)) is Some ==> !dist(ray, h(j)->Some_0).ieee_lt(dist(ray, p))
}
pub open spec fn chosen<T>(ray: Ray3D, h: Hits, t: spec_fn(int) -> T, k: int, i: int, x: (Point3D, T)) -> bool { closest(ray, h, k, i, x.0) && t(i) == x.1 }
pub open spec fn best<T>(ray: Ray3D, h: Hits, t: spec_fn(int) -> T, k: int, r: Option<(Point3D, T)>) -> bool {
    match r { None => forall|j: int| 0 <= j < k ==> (#[trigger] h(j)) is None, Some(x) => exists|i: int| #[trigger] chosen(ray, h, t, k, i, x) }
}
/// the better of the best so far and the k-th element
pub open spec fn next<T>(ray: Ray3D, p: Option<Point3D>, o: Option<(Point3D, T)>, t: T) -> Option<(Point3D, T)> {
    match p { None => o, Some(q) => match o { None => Some((q, t)), Some(x) => if dist(ray, q).ieee_lt(dist(ray, x.0)) { Some((q, t)) } else { o } } }
}
pub proof fn best_next<T>(ray: Ray3D, h: Hits, t: spec_fn(int) -> T, n: int, k: int, o: Option<(Point3D, T)>, r: Option<(Point3D, T)>)
    requires sane(ray, h, n), 0 <= k < n, best(ray, h, t, k, o), r == next(ray, h(k), o, t(k))
    ensures best(ray, h, t, k + 1, r)
{
    if let Some(q) = h(k) {
        let x = dist(ray, q);
        tri(x, x); if x.ieee_lt(x) { lt_facts(x, x); }
        if let Some(y) = o {
            let i = choose|i: int| #[trigger] chosen(ray, h, t, k, i, y); let d = dist(ray, y.0);
            if x.ieee_lt(d) {
                assert forall|j: int| 0 <= j < k + 1 && (#[trigger] h(j)) is Some implies !dist(ray, h(j)->Some_0).ieee_lt(x) by {
                    let z = dist(ray, h(j)->Some_0);
                    if z.ieee_lt(x) { lt_facts(z, x); lt_facts(x, d); lt_le_trans(z, x, d); }
                }
                assert(chosen(ray, h, t, k + 1, k, r->Some_0));
            } else { assert(chosen(ray, h, t, k + 1, i, r->Some_0)); }
        } else { assert(chosen(ray, h, t, k + 1, k, r->Some_0)); }
    } else if let Some(y) = o {
        let i = choose|i: int| #[trigger] chosen(ray, h, t, k, i, y);
        assert(chosen(ray, h, t, k + 1, i, y));
    }
}
//@ file src/functions.rs
//@ freefn intersection trusted
//@ ret r
//@ spec
    ensures r == meets(*l, *b),
//@ enditem
//@ freefn closest_intersecting
//@ fattrs
#[verifier::exec_allows_no_decreases_clause]
//@ ret r
//@ spec
    requires listing(hbs), sane(*ray, hits(*ray, elems(hbs)), elems(hbs).len() as int),
    ensures best(*ray, hits(*ray, elems(hbs)), itself(elems(hbs)), elems(hbs).len() as int, r),
//@ start
    let ghost mut k: int = 0;
//@ loop 0 gen
//@ loop 0 inv
        invariant_except_break 0 <= k <= elems(hbs).len(), it__0.remaining() == elems(hbs).skip(k), it__0.obeys_prophetic_iter_laws(), it__0.will_return_none(),
            best(*ray, hits(*ray, elems(hbs)), itself(elems(hbs)), k, result), sane(*ray, hits(*ray, elems(hbs)), elems(hbs).len() as int),
        ensures k == elems(hbs).len(), best(*ray, hits(*ray, elems(hbs)), itself(elems(hbs)), k, result),
//@ loop 0 start
        let ghost o = result;
//@ loop 0 end
        proof { best_next(*ray, hits(*ray, elems(hbs)), itself(elems(hbs)), elems(hbs).len() as int, k, o, result); k = k + 1; }
//@ enditem
//@ freefn index_closest_intersecting
//@ fattrs
#[verifier::exec_allows_no_decreases_clause]
//@ ret r
//@ spec
    requires listing(hbs), sane(*ray, hits(*ray, elems(hbs)), elems(hbs).len() as int), elems(hbs).len() <= usize::MAX,
    ensures best(*ray, hits(*ray, elems(hbs)), index(), elems(hbs).len() as int, r),
//@ start
    let ghost mut k: int = 0;
//@ loop 0 gen
//@ loop 0 inv
        invariant_except_break 0 <= k <= elems(hbs).len(), it__0.remaining() == elems(hbs).skip(k), it__0.obeys_prophetic_iter_laws(), it__0.will_return_none(),
            best(*ray, hits(*ray, elems(hbs)), index(), k, result), sane(*ray, hits(*ray, elems(hbs)), elems(hbs).len() as int), enum__0 == k, elems(hbs).len() <= usize::MAX,
        ensures k == elems(hbs).len(), best(*ray, hits(*ray, elems(hbs)), index(), k, result),
//@ loop 0 start
        let ghost o = result;
//@ loop 0 end
        proof { best_next(*ray, hits(*ray, elems(hbs)), index(), elems(hbs).len() as int, k, o, result); k = k + 1; }
//@ enditem
//@ freefn closest_intersecting_mut
//@ fattrs
#[verifier::exec_allows_no_decreases_clause]
//@ ret r
//@ spec
    requires listing(hbs), sane(*ray, hits_mut(*ray, elems(hbs)), elems(hbs).len() as int),
    ensures best(*ray, hits_mut(*ray, elems(hbs)), values(elems(hbs)), elems(hbs).len() as int, value(r)),
//@ start
    let ghost mut k: int = 0;
//@ loop 0 gen
//@ loop 0 inv
        invariant_except_break 0 <= k <= elems(hbs).len(), it__0.remaining() == elems(hbs).skip(k), it__0.obeys_prophetic_iter_laws(), it__0.will_return_none(),
            best(*ray, hits_mut(*ray, elems(hbs)), values(elems(hbs)), k, value(result)), sane(*ray, hits_mut(*ray, elems(hbs)), elems(hbs).len() as int),
        ensures k == elems(hbs).len(), best(*ray, hits_mut(*ray, elems(hbs)), values(elems(hbs)), k, value(result)),
//@ loop 0 start
        let ghost o = value(result);
//@ loop 0 end
        proof { best_next(*ray, hits_mut(*ray, elems(hbs)), values(elems(hbs)), elems(hbs).len() as int, k, o, value(result)); k = k + 1; }
//@ enditem
//@ freefn for_each_intersecting
//@ sigreplace `&mut dyn FnMut(&Point3D, &'c mut HB)` => `&mut impl Take<'c, HB>` ; the callback is any visitor that records its calls
//@ sigreplace `HB: HasBoundingBox3DMaybe,` => `HB: HasBoundingBox3DMaybe + 'c,` ; implied by the callback's type before
//@ fattrs
#[verifier::exec_allows_no_decreases_clause]
//@ spec
    requires listing(hbs),
    ensures final(f).taken() == old(f).taken() + met(*ray, elems(hbs), elems(hbs).len() as int),
//@ replace `f(&i, hb)` => `f.take(&i, hb)` ; calling the visitor
//@ start
    let ghost mut k: int = 0;
//@ loop 0 gen
//@ loop 0 inv
        invariant_except_break 0 <= k <= elems(hbs).len(), it__0.remaining() == elems(hbs).skip(k), it__0.obeys_prophetic_iter_laws(), it__0.will_return_none(),
            f.taken() == old(f).taken() + met(*ray, elems(hbs), k),
        ensures k == elems(hbs).len(), f.taken() == old(f).taken() + met(*ray, elems(hbs), k),
//@ loop 0 end
        proof { k = k + 1; }
//@ enditem
/// where a ray meets a triangle
pub uninterp spec fn struck<P>(ray: Ray3D, a: P, b: P, c: P) -> Option<P>;
//@ freefn intersection_ray_triangle trusted
//@ ret r
//@ spec
    ensures r == struck(*ray, *v1, *v2, *v3),
//@ enditem
/// t are the corners of face i as the mesh reports them
pub open spec fn corners<P, M: IsMesh<P, Face3>>(m: M, i: int, t: (P, P, P)) -> bool {
    m.vert(M::corner(m.unit(i), 0) as int, t.0) && m.vert(M::corner(m.unit(i), 1) as int, t.1) && m.vert(M::corner(m.unit(i), 2) as int, t.2)
}
/// where the ray meets the triangles, in order
pub open spec fn found<P>(ray: Ray3D, s: Seq<(P, P, P)>) -> Seq<P> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { let (t, r) = (s.last(), found(ray, s.drop_last())); match struck(ray, t.0, t.1, t.2) { Some(p) => r.push(p), None => r } }
}
pub open spec fn faces<P, M: IsMesh<P, Face3>>(m: M, s: Seq<(P, P, P)>) -> bool { forall|i: int| 0 <= i < s.len() ==> corners(m, i, #[trigger] s[i]) }
//@ freefn collect_intersections_ray_mesh
//@ spec
    requires mesh.mwf(), forall|i: int, k: int| 0 <= i < mesh.nf() && 0 <= k < 3 ==> #[trigger] M::corner(mesh.unit(i), k) < mesh.nv(),
    ensures exists|s: Seq<(P, P, P)>| s.len() == mesh.nf() && #[trigger] faces(*mesh, s) && final(intersections)@ == old(intersections)@ + found(*ray, s),
//@ replace `let [v1, v2, v3] = $1;` => `let (v1, v2, v3) = three($1);` ; array pattern, the trusted body of three
//@ start
    let ghost mut s: Seq<(P, P, P)> = Seq::empty();
//@ loop 0 inv
        invariant s.len() == i, mesh.mwf(), nf == mesh.nf(), forall|i: int, k: int| 0 <= i < mesh.nf() && 0 <= k < 3 ==> #[trigger] M::corner(mesh.unit(i), k) < mesh.nv(),
            faces(*mesh, s), intersections@ == old(intersections)@ + found(*ray, s),
//@ loop 0 end
        proof { let o = s; s = s.push((v1, v2, v3)); assert(s.drop_last() =~= o); assert(s.last() == (v1, v2, v3)); assert(intersections@ =~= old(intersections)@ + found(*ray, s)); }
//@ enditem
} fn main() {}

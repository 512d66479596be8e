#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use vstd::multiset::Multiset;
use std::cmp::Ordering;
use std::ops::*;
verus! {
//@include float.inc
broadcast use {vstd::seq_lib::group_seq_properties, vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures, fl::ax, ord::ax_pcmp};
//@include base.inc
//@include num.inc
//@include pos.inc
//@include pos3.inc
//@include point3.inc
//@include flemmas.inc
//@include dist3.inc
//@include sort.inc
pub uninterp spec fn f_abs(x: f64) -> f64;
pub assume_specification [f64::abs](x: f64) -> (r: f64) ensures r == f_abs(x);
//@ file src/sphere.rs
//@ struct Sphere
//@ enditem
//@ impl IsND for Sphere
//@ ghost
    open spec fn nd() -> nat { 3 }
    open spec fn at(&self, i: int) -> f64 { self.center.at(i) }
    open spec fn rest(&self) -> Seq<f64> { Seq::empty() }
//@ fn n_dimensions
//@ fn position_nd
//@ enditem
//@ impl Is3D for Sphere
//@ fn x
//@ fn y
//@ fn z
//@ enditem
//@ file src/box_3d.rs
//@ struct Box3D
//@ enditem
impl Box3D { pub open spec fn size(&self, i: int) -> f64 { if i == 0 { self.size_x.val } else if i == 1 { self.size_y.val } else { self.size_z.val } } }
//@ impl IsND for Box3D
//@ ghost
    open spec fn nd() -> nat { 3 }
    open spec fn at(&self, i: int) -> f64 { self.center.at(i) }
    open spec fn rest(&self) -> Seq<f64> { Seq::empty() }
//@ fn n_dimensions
//@ fn position_nd
//@ enditem
//@ impl Is3D for Box3D
//@ fn x
//@ fn y
//@ fn z
//@ enditem
//@ file src/point_cloud_3d.rs
//@ struct PointCloud3D
//@ enditem
//@ impl PointCloud3D
//@ fn new
//@ ret r
//@ spec
        ensures r.data@ == Seq::<P>::empty(),
//@ enditem
//@ impl IsRandomAccessible for PointCloud3D
//@ header impl<P: Is3D> PointCloud3D<P>
//@ fn len
//@ ret r
//@ spec
        ensures r == self.data@.len(),
//@ enditem
//@ impl IsPushable for PointCloud3D
//@ header impl<P: Is3D> PointCloud3D<P>
//@ fn push
//@ spec
        ensures final(self).data@ == old(self).data@.push(point),
//@ enditem
//@ file src/functions.rs
//@ freefn dimension_compare
//@ ret r
//@ spec
    ensures match r { Ok(o) => 0 <= dim < 3 && pcmp(lhs.at(dim as int), rhs.at(dim as int)) == Some(o), Err(_) => 0 <= dim < 3 ==> pcmp(lhs.at(dim as int), rhs.at(dim as int)).is_none() },
//@ enditem
//@ freefn dimension_dist
//@ ret r
//@ spec
    ensures r.is_ok() == (0 <= dim < 3), r.is_ok() ==> r->Ok_0 == f_abs(lhs.at(dim as int).ieee_sub(rhs.at(dim as int))),
//@ enditem
//@ file src/kd_tree.rs
//@ struct KdTree
//@ enditem
//@ struct KdNode
//@ enditem
// ---- what a tree holds
pub open spec fn pnum<P: Is3D>(p: P) -> bool { !nan(p.at(0)) && !nan(p.at(1)) && !nan(p.at(2)) }
pub open spec fn seq_num<P: Is3D>(s: Seq<P>) -> bool { forall|q: P| #[trigger] s.contains(q) ==> pnum(q) }
impl<P: Is3D> KdNode<P> {
    /// the points of the node, left to right
    pub closed spec fn pts(&self) -> Seq<P> decreases self {
        let l = match self.left { Some(n) => n.pts(), None => Seq::empty() };
        let r = match self.right { Some(n) => n.pts(), None => Seq::empty() };
        l + seq![self.val] + r
    }
    pub closed spec fn lpts(&self) -> Seq<P> { match self.left { Some(n) => n.pts(), None => Seq::empty() } }
    pub closed spec fn rpts(&self) -> Seq<P> { match self.right { Some(n) => n.pts(), None => Seq::empty() } }
    /// points left of the node come before its value in its dimension, points right of it after
    pub closed spec fn wf(&self) -> bool decreases self {
        &&& self.dimension == 0 || self.dimension == 1
        &&& pnum(self.val)
        &&& match self.left { Some(n) => n.wf() && (forall|q: P| #[trigger] n.pts().contains(q) ==> pnum(q) && q.at(self.dimension as int).ieee_le(self.val.at(self.dimension as int))), None => true }
        &&& match self.right { Some(n) => n.wf() && (forall|q: P| #[trigger] n.pts().contains(q) ==> pnum(q) && self.val.at(self.dimension as int).ieee_le(q.at(self.dimension as int))), None => true }
    }
    pub proof fn parts(&self)
        ensures self.pts() == self.lpts() + seq![self.val] + self.rpts(),
            self.pts().to_multiset() =~= self.lpts().to_multiset().insert(self.val).add(self.rpts().to_multiset()),
            self.pts().len() == self.lpts().len() + 1 + self.rpts().len(),
            self.left.is_none() ==> self.lpts() == Seq::<P>::empty(), self.right.is_none() ==> self.rpts() == Seq::<P>::empty(),
            self.left.is_some() ==> self.lpts() == self.left->0.pts(), self.right.is_some() ==> self.rpts() == self.right->0.pts(),
    {
        ms_add(self.lpts(), seq![self.val]); ms_add(self.lpts() + seq![self.val], self.rpts());
        assert(seq![self.val] == Seq::<P>::empty().push(self.val));
        assert(seq![self.val].to_multiset() =~= Multiset::empty().insert(self.val));
    }
}
pub proof fn ms_add<T>(a: Seq<T>, b: Seq<T>) ensures (a + b).to_multiset() =~= a.to_multiset().add(b.to_multiset()) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); }
    else { ms_add(a, b.drop_last()); assert(a + b =~= (a + b.drop_last()).push(b.last())); assert(b =~= b.drop_last().push(b.last())); }
}
pub open spec fn clone_ok<P: Clone>() -> bool { forall|a: P, b: P| #[trigger] call_ensures(P::clone, (&a,), b) ==> a == b }

pub proof fn order_facts()
    ensures forall|x: f64, y: f64, z: f64| #[trigger] x.ieee_le(y) && #[trigger] y.ieee_le(z) ==> x.ieee_le(z),
        forall|x: f64, y: f64| !nan(x) && !nan(y) ==> (#[trigger] x.ieee_le(y) || y.ieee_lt(x)),
        forall|x: f64, y: f64| #[trigger] x.ieee_lt(y) ==> x.ieee_le(y) && !x.ieee_eq(y) && !y.ieee_eq(x) && !y.ieee_lt(x) && !y.ieee_le(x),
        forall|x: f64, y: f64| !nan(x) && !nan(y) ==> (#[trigger] x.ieee_lt(y) || x.ieee_eq(y) || y.ieee_lt(x)),
        forall|x: f64, y: f64| #[trigger] x.ieee_eq(y) ==> x.ieee_le(y) && y.ieee_eq(x) && y.ieee_le(x),
        forall|x: f64, y: f64| #[trigger] x.ieee_le(y) ==> (x.ieee_lt(y) || x.ieee_eq(y)) && !nan(x) && !nan(y),
{
    assert forall|x: f64, y: f64, z: f64| #[trigger] x.ieee_le(y) && #[trigger] y.ieee_le(z) implies x.ieee_le(z) by { le_trans(x, y, z); }
    assert forall|x: f64, y: f64| !nan(x) && !nan(y) implies (#[trigger] x.ieee_le(y) || y.ieee_lt(x)) by { tri(x, y); }
    assert forall|x: f64, y: f64| !nan(x) && !nan(y) implies (#[trigger] x.ieee_lt(y) || x.ieee_eq(y) || y.ieee_lt(x)) by { tri(x, y); }
    assert forall|x: f64, y: f64| #[trigger] x.ieee_lt(y) implies x.ieee_le(y) && !x.ieee_eq(y) && !y.ieee_eq(x) && !y.ieee_lt(x) && !y.ieee_le(x) by { lt_facts(x, y); }
    assert forall|x: f64, y: f64| #[trigger] x.ieee_eq(y) implies x.ieee_le(y) && y.ieee_eq(x) && y.ieee_le(x) by { assert(x.ieee_eq(y) ==> x.ieee_le(y) && y.ieee_eq(x) && y.ieee_le(x)) by(bit_vector); }
    assert forall|x: f64, y: f64| #[trigger] x.ieee_le(y) implies (x.ieee_lt(y) || x.ieee_eq(y)) && !nan(x) && !nan(y) by { assert(x.ieee_le(y) ==> (x.ieee_lt(y) || x.ieee_eq(y)) && x.ieee_eq(x) && y.ieee_eq(y)) by(bit_vector); }
}
// ---- multisets
pub proof fn ms_sub<T>(a: Seq<T>, n: int) requires 0 <= n <= a.len() ensures a.to_multiset() =~= a.take(n).to_multiset().add(a.skip(n).to_multiset()) { ms_add(a.take(n), a.skip(n)); assert(a.take(n) + a.skip(n) =~= a); }
pub proof fn ms_full<T>(a: Multiset<T>, b: Multiset<T>) requires a.subset_of(b), a.len() == b.len() ensures a =~= b {
    assert(b.sub(a).len() == 0);
    assert forall|x: T| a.count(x) == b.count(x) by { if a.count(x) < b.count(x) { assert(b.sub(a).count(x) > 0); assert(b.sub(a).contains(x)); assert(b.sub(a).len() > 0) by { assert(b.sub(a).remove(x).insert(x) =~= b.sub(a)); } } }
}
// ---- queries
/// outside of the range around c (as the search computes its borders)
pub open spec fn beside(c: f64, r: f64, x: f64) -> bool { x.ieee_lt(c.ieee_sub(r)) || c.ieee_add(r).ieee_lt(x) }
pub open spec fn fin(x: f64) -> bool { x.ieee_sub(x).ieee_eq(0.0f64) }
/// IEEE rounding is monotone (assumed); a finite number plus or minus a number is a number
pub axiom fn add_mono(c: f64, a: f64, b: f64) requires fin(c), a.ieee_le(b) ensures c.ieee_add(a).ieee_le(c.ieee_add(b)), c.ieee_sub(b).ieee_le(c.ieee_sub(a));
pub proof fn add_num(c: f64, a: f64) requires fin(c), !nan(a) ensures !nan(c.ieee_add(a)), !nan(c.ieee_sub(a)), !nan(c) {
    assert(c.ieee_sub(c).ieee_eq(0.0f64) ==> c.ieee_eq(c)) by(bit_vector);
    assert(c.ieee_sub(c).ieee_eq(0.0f64) && a.ieee_eq(a) ==> c.ieee_add(a).ieee_eq(c.ieee_add(a)) && c.ieee_sub(a).ieee_eq(c.ieee_sub(a))) by(bit_vector);
}
pub proof fn half_num(x: f64) requires pos(x) ensures !nan(0.5f64.ieee_mul(x)), !nan(x) {
    assert(0.0f64.ieee_lt(x) ==> 0.5f64.ieee_mul(x).ieee_eq(0.5f64.ieee_mul(x)) && x.ieee_eq(x)) by(bit_vector);
}
/// the square root is monotone and defined on what is not negative (assumed: IEEE)
pub axiom fn sqrt_mono(a: f64, b: f64) requires 0.0f64.ieee_le(a), a.ieee_le(b) ensures f_sqrt(a).ieee_le(f_sqrt(b));
pub proof fn sqrt_num(a: f64) requires 0.0f64.ieee_le(a) ensures !nan(f_sqrt(a)) {
    let z = f_sqrt(a);
    assert(0.0f64.ieee_le(a) ==> a.ieee_le(a)) by(bit_vector); sqrt_mono(a, a); assert(z.ieee_le(z) ==> z.ieee_eq(z)) by(bit_vector);
}
/// the query gave b, which is a followed by points of s: only those with p, and all of them with p that are not out
#[verifier::opaque]
pub open spec fn gathered<P>(a: Seq<P>, b: Seq<P>, s: Multiset<P>, p: spec_fn(P) -> bool, out: spec_fn(P) -> bool) -> bool {
    &&& a.len() <= b.len() && b.take(a.len() as int) == a
    &&& b.skip(a.len() as int).to_multiset().subset_of(s)
    &&& forall|q: P| #[trigger] b.skip(a.len() as int).to_multiset().contains(q) ==> p(q)
    &&& forall|q: P| #[trigger] b.skip(a.len() as int).to_multiset().count(q) < s.count(q) ==> !p(q) || out(q)
}
pub proof fn gathered_none<P>(a: Seq<P>, s: Multiset<P>, p: spec_fn(P) -> bool, out: spec_fn(P) -> bool)
    requires forall|q: P| #[trigger] s.contains(q) ==> !p(q) || out(q)
    ensures gathered(a, a, s, p, out)
{
    reveal(gathered);
    let e = a.skip(a.len() as int);
    assert(e =~= Seq::empty()); assert(a.take(a.len() as int) =~= a);
    assert(e.to_multiset() =~= Multiset::empty());
    assert forall|q: P| #[trigger] e.to_multiset().count(q) < s.count(q) implies !p(q) || out(q) by { assert(s.contains(q)); }
}
pub proof fn gathered_one<P>(a: Seq<P>, x: P, p: spec_fn(P) -> bool, out: spec_fn(P) -> bool)
    requires p(x)
    ensures gathered(a, a.push(x), Multiset::singleton(x), p, out)
{
    reveal(gathered);
    let b = a.push(x);
    assert(b.take(a.len() as int) =~= a);
    assert(b.skip(a.len() as int) =~= Seq::empty().push(x));
    assert(b.skip(a.len() as int).to_multiset() =~= Multiset::singleton(x));
}
pub proof fn gathered_add<P>(a: Seq<P>, b: Seq<P>, c: Seq<P>, s: Multiset<P>, t: Multiset<P>, u: Multiset<P>, p: spec_fn(P) -> bool, out: spec_fn(P) -> bool)
    requires gathered(a, b, s, p, out), gathered(b, c, t, p, out), u =~= s.add(t),
    ensures gathered(a, c, u, p, out)
{
    reveal(gathered);
    let (n, m) = (a.len() as int, b.len() as int);
    assert(c.take(n) =~= c.take(m).take(n));
    assert(c.skip(n) =~= b.skip(n) + c.skip(m)) by { assert(c =~= c.take(m) + c.skip(m)); }
    ms_add(b.skip(n), c.skip(m));
    let (x, y, z) = (b.skip(n).to_multiset(), c.skip(m).to_multiset(), c.skip(n).to_multiset());
    assert(z =~= x.add(y));
    assert forall|q: P| #[trigger] z.contains(q) implies p(q) by { assert(x.contains(q) || y.contains(q)); }
    assert forall|q: P| #[trigger] z.count(q) < u.count(q) implies !p(q) || out(q) by { assert(x.count(q) < s.count(q) || y.count(q) < t.count(q)); }
}
pub proof fn gathered_all<P>(a0: Seq<P>, a1: Seq<P>, a2: Seq<P>, a3: Seq<P>, v: P, s: Multiset<P>, t: Multiset<P>, u: Multiset<P>, p: spec_fn(P) -> bool, out: spec_fn(P) -> bool)
    requires gathered(a0, a1, Multiset::singleton(v), p, out), gathered(a1, a2, s, p, out), gathered(a2, a3, t, p, out), u =~= s.add(t).insert(v),
    ensures gathered(a0, a3, u, p, out)
{
    gathered_add(a0, a1, a2, Multiset::singleton(v), s, Multiset::singleton(v).add(s), p, out);
    gathered_add(a0, a2, a3, Multiset::singleton(v).add(s), t, u, p, out);
}
/// the value itself, and a side that is not there
pub proof fn gathered_val<P: Is3D>(a: Seq<P>, b: Seq<P>, n: KdNode<P>, p: spec_fn(P) -> bool, out: spec_fn(P) -> bool)
    requires b == (if p(n.val) { a.push(n.val) } else { a })
    ensures gathered(a, b, Multiset::singleton(n.val), p, out), n.left.is_none() && n.right.is_none() ==> gathered(a, b, n.pts().to_multiset(), p, out)
{
    n.parts();
    if p(n.val) { gathered_one(a, n.val, p, out); } else { gathered_none(a, Multiset::singleton(n.val), p, out); }
    if n.left.is_none() && n.right.is_none() { assert(n.pts().to_multiset() =~= Multiset::singleton(n.val)); }
}
pub proof fn gathered_no<P: Is3D>(a: Seq<P>, n: KdNode<P>, p: spec_fn(P) -> bool, out: spec_fn(P) -> bool)
    ensures n.left.is_none() ==> gathered(a, a, n.lpts().to_multiset(), p, out), n.right.is_none() ==> gathered(a, a, n.rpts().to_multiset(), p, out)
{
    n.parts();
    if n.left.is_none() { assert(n.lpts().to_multiset() =~= Multiset::empty()); gathered_none(a, n.lpts().to_multiset(), p, out); }
    if n.right.is_none() { assert(n.rpts().to_multiset() =~= Multiset::empty()); gathered_none(a, n.rpts().to_multiset(), p, out); }
}
/// a side beyond the border holds nothing the query wants
pub proof fn gathered_beyond<P: Is3D>(a: Seq<P>, n: KdNode<P>, x: f64, p: spec_fn(P) -> bool, out: spec_fn(P) -> bool)
    requires n.wf(), forall|q: P| (if n.dimension == 0 { q.at(0) } else { q.at(1) }).ieee_lt(x) ==> #[trigger] out(q), n.val.at(n.dimension as int).ieee_lt(x)
    ensures gathered(a, a, n.lpts().to_multiset(), p, out)
{
    n.parts();
    assert forall|q: P| #[trigger] n.lpts().to_multiset().contains(q) implies out(q) by { assert(n.lpts().contains(q)); lt_le_trans(q.at(n.dimension as int), n.val.at(n.dimension as int), x); }
    gathered_none(a, n.lpts().to_multiset(), p, out);
}
pub proof fn gathered_behind<P: Is3D>(a: Seq<P>, n: KdNode<P>, x: f64, p: spec_fn(P) -> bool, out: spec_fn(P) -> bool)
    requires n.wf(), forall|q: P| x.ieee_lt(if n.dimension == 0 { q.at(0) } else { q.at(1) }) ==> #[trigger] out(q), x.ieee_lt(n.val.at(n.dimension as int))
    ensures gathered(a, a, n.rpts().to_multiset(), p, out)
{
    n.parts();
    assert forall|q: P| #[trigger] n.rpts().to_multiset().contains(q) implies out(q) by { assert(n.rpts().contains(q)); lt_le_trans(x, n.val.at(n.dimension as int), q.at(n.dimension as int)); }
    gathered_none(a, n.rpts().to_multiset(), p, out);
}
/// within the sphere as the distances compute it
pub open spec fn in_ball<P: Is3D>(s: Sphere, q: P) -> bool { f_sqrt(sqr_dist3(&s.center, &q)).ieee_le(s.radius.val) }
pub open spec fn off_ball<P: Is3D>(s: Sphere, q: P) -> bool { beside(s.center.at(0), s.radius.val, q.at(0)) || beside(s.center.at(1), s.radius.val, q.at(1)) }
pub open spec fn p_in_ball<P: Is3D>(s: Sphere) -> spec_fn(P) -> bool { |q: P| in_ball(s, q) }
pub open spec fn p_off_ball<P: Is3D>(s: Sphere) -> spec_fn(P) -> bool { |q: P| off_ball(s, q) }
pub open spec fn half(b: Box3D, i: int) -> f64 { 0.5f64.ieee_mul(b.size(i)) }
/// at most half the size away from the center in every dimension
pub open spec fn in_cube<P: Is3D>(b: Box3D, q: P) -> bool { f_abs(b.center.at(0).ieee_sub(q.at(0))).ieee_le(half(b, 0)) && f_abs(b.center.at(1).ieee_sub(q.at(1))).ieee_le(half(b, 1)) && f_abs(b.center.at(2).ieee_sub(q.at(2))).ieee_le(half(b, 2)) }
pub open spec fn off_cube<P: Is3D>(b: Box3D, q: P) -> bool { beside(b.center.at(0), half(b, 0), q.at(0)) || beside(b.center.at(1), half(b, 1), q.at(1)) }
pub open spec fn p_in_cube<P: Is3D>(b: Box3D) -> spec_fn(P) -> bool { |q: P| in_cube(b, q) }
pub open spec fn p_off_cube<P: Is3D>(b: Box3D) -> spec_fn(P) -> bool { |q: P| off_cube(b, q) }
// ---- nearest neighbours
/// squared distance to the search position
pub open spec fn kk<S: Is3D, P: Is3D>(c: S, q: P) -> f64 { sqr_dist3(&c, &q) }
pub open spec fn asc<S: Is3D, P: Is3D>(c: S, a: Seq<P>) -> bool { forall|i: int, j: int| 0 <= i <= j < a.len() ==> #[trigger] kk(c, a[i]).ieee_le(#[trigger] kk(c, a[j])) }
pub open spec fn knum<S: Is3D, P: Is3D>(c: S, a: Seq<P>) -> bool { forall|q: P| #[trigger] a.contains(q) ==> 0.0f64.ieee_le(kk(c, q)) }
/// not closer than l, or beside the range that l's distance spans
pub open spec fn far<S: Is3D, P: Is3D>(c: S, l: P, q: P) -> bool { !kk(c, q).ieee_lt(kk(c, l)) || beside(c.at(0), f_sqrt(kk(c, l)), q.at(0)) || beside(c.at(1), f_sqrt(kk(c, l)), q.at(1)) }
pub open spec fn min2(a: int, b: int) -> int { if a < b { a } else { b } }
/// b: the n nearest of a and s
#[verifier::opaque]
pub open spec fn nearest_of<S: Is3D, P: Is3D>(c: S, n: int, a: Seq<P>, s: Multiset<P>, b: Seq<P>) -> bool {
    &&& asc(c, b) && b.len() == min2(n, (a.len() + s.len()) as int)
    &&& b.to_multiset().subset_of(a.to_multiset().add(s))
    &&& (a.len() == n ==> kk(c, b.last()).ieee_le(kk(c, a.last())))
    &&& forall|q: P| #[trigger] b.to_multiset().count(q) < a.to_multiset().add(s).count(q) ==> far(c, b.last(), q)
}
pub proof fn far_mono<S: Is3D, P: Is3D>(c: S, l: P, m: P, q: P)
    requires far(c, l, q), 0.0f64.ieee_le(kk(c, m)), kk(c, m).ieee_le(kk(c, l)), fin(c.at(0)), fin(c.at(1)),
    ensures far(c, m, q)
{
    let (kl, km, kq) = (kk(c, l), kk(c, m), kk(c, q));
    if kq.ieee_lt(km) { lt_le_trans(kq, km, kl); }
    sqrt_mono(km, kl);
    let (dl, dm) = (f_sqrt(kl), f_sqrt(km));
    add_mono(c.at(0), dm, dl); add_mono(c.at(1), dm, dl);
    lt_le_trans(c.at(0).ieee_add(dm), c.at(0).ieee_add(dl), q.at(0)); lt_le_trans(q.at(0), c.at(0).ieee_sub(dl), c.at(0).ieee_sub(dm));
    lt_le_trans(c.at(1).ieee_add(dm), c.at(1).ieee_add(dl), q.at(1)); lt_le_trans(q.at(1), c.at(1).ieee_sub(dl), c.at(1).ieee_sub(dm));
}
pub proof fn nearest_step<S: Is3D, P: Is3D>(c: S, n: int, a: Seq<P>, s: Multiset<P>, b: Seq<P>, t: Multiset<P>, e: Seq<P>, u: Multiset<P>)
    requires n >= 1, a.len() <= n, nearest_of(c, n, a, s, b), nearest_of(c, n, b, t, e), u =~= s.add(t), knum(c, e), fin(c.at(0)), fin(c.at(1)),
    ensures nearest_of(c, n, a, u, e)
{
    reveal(nearest_of);
    let (ma, mb, me) = (a.to_multiset(), b.to_multiset(), e.to_multiset());
    assert(u.len() == s.len() + t.len());
    assert forall|q: P| me.count(q) <= ma.add(u).count(q) by { assert(me.count(q) <= mb.add(t).count(q)); assert(mb.count(q) <= ma.add(s).count(q)); }
    if a.len() == n { le_trans(kk(c, e.last()), kk(c, b.last()), kk(c, a.last())); }
    assert forall|q: P| #[trigger] me.count(q) < ma.add(u).count(q) implies far(c, e.last(), q) by {
        if mb.count(q) < ma.add(s).count(q) {
            if b.len() < n { ms_full(mb, ma.add(s)); assert(false); }
            assert(e.len() == n);
            assert(e.contains(e.last()));
            far_mono(c, b.last(), e.last(), q);
        } else { assert(mb.count(q) <= ma.add(s).count(q)); assert(me.count(q) < mb.add(t).count(q)); }
    }
}
pub proof fn nearest_skip<S: Is3D, P: Is3D>(c: S, n: int, a: Seq<P>, s: Multiset<P>)
    requires n >= 1, asc(c, a), a.len() <= n, a.len() < n ==> s.len() == 0, knum(c, a), forall|q: P| #[trigger] s.contains(q) ==> far(c, a.last(), q),
    ensures nearest_of(c, n, a, s, a)
{
    reveal(nearest_of);
    if a.len() < n { assert(s =~= Multiset::empty()); }
    if a.len() == n { assert(a.contains(a.last())); let z = kk(c, a.last()); assert(0.0f64.ieee_le(z) ==> z.ieee_le(z)) by(bit_vector); }
    assert forall|q: P| #[trigger] a.to_multiset().count(q) < a.to_multiset().add(s).count(q) implies far(c, a.last(), q) by { assert(s.contains(q)); }
}
/// sorting a list and cutting it to n
pub open spec fn cut_sorted<S: Is3D, P: Is3D>(c: S, n: int, a: Seq<P>, b: Seq<P>) -> bool {
    exists|t: Seq<P>| #![trigger t.to_multiset()] t.to_multiset() == a.to_multiset() && asc(c, t) && b == t.take(min2(n, t.len() as int))
}
pub proof fn nearest_resort<S: Is3D, P: Is3D>(c: S, n: int, a: Seq<P>, b: Seq<P>)
    requires n >= 1, cut_sorted(c, n, a, b), asc(c, a), a.len() <= n, knum(c, a),
    ensures nearest_of(c, n, a, Multiset::empty(), b)
{
    reveal(nearest_of);
    let t = choose|t: Seq<P>| #![trigger t.to_multiset()] t.to_multiset() == a.to_multiset() && asc(c, t) && b == t.take(min2(n, t.len() as int));
    assert(t.len() == a.len()) by { t.to_multiset_ensures(); a.to_multiset_ensures(); }
    assert(b =~= t);
    assert(a.to_multiset().add(Multiset::empty()) =~= a.to_multiset());
    if a.len() == n { assert(t.contains(t.last())); assert(a.to_multiset().contains(t.last())); assert(a.contains(t.last())); let i = choose|i: int| 0 <= i < a.len() && a[i] == t.last(); assert(kk(c, a[i]).ieee_le(kk(c, a[a.len() - 1]))); }
}
pub proof fn nearest_push<S: Is3D, P: Is3D>(c: S, n: int, a: Seq<P>, v: P, b: Seq<P>)
    requires n >= 1, cut_sorted(c, n, a.push(v), b), asc(c, a), a.len() <= n, knum(c, a.push(v)), a.len() == n ==> kk(c, v).ieee_lt(kk(c, a.last())),
    ensures nearest_of(c, n, a, Multiset::singleton(v), b)
{
    reveal(nearest_of);
    let av = a.push(v);
    let t = choose|t: Seq<P>| #![trigger t.to_multiset()] t.to_multiset() == av.to_multiset() && asc(c, t) && b == t.take(min2(n, t.len() as int));
    assert(t.len() == av.len()) by { t.to_multiset_ensures(); av.to_multiset_ensures(); }
    let m = b.len() as int;
    assert(av.to_multiset() =~= a.to_multiset().add(Multiset::singleton(v)));
    ms_sub(t, m);
    assert(t.take(m) =~= b);
    assert forall|q: P| #[trigger] b.to_multiset().count(q) < av.to_multiset().count(q) implies far(c, b.last(), q) by {
        assert(t.skip(m).to_multiset().contains(q)); assert(t.skip(m).contains(q));
        let j = choose|j: int| 0 <= j < t.skip(m).len() && t.skip(m)[j] == q;
        assert(kk(c, t[m - 1]).ieee_le(kk(c, t[m + j])));
        let (x, y) = (kk(c, q), kk(c, b.last()));
        if x.ieee_lt(y) { lt_facts(x, y); }
    }
    if a.len() == n {
        let d = t[n];
        assert(t.contains(d)); assert(t.to_multiset().contains(d)); assert(av.contains(d));
        assert(kk(c, t[n - 1]).ieee_le(kk(c, t[n])));
        assert(b.last() == t[n - 1]);
        if d == v { lt_facts(kk(c, v), kk(c, a.last())); le_trans(kk(c, b.last()), kk(c, v), kk(c, a.last())); }
        else {
            assert(a.contains(d)) by { let i = choose|i: int| 0 <= i < av.len() && av[i] == d; assert(a[i] == d); }
            let i = choose|i: int| 0 <= i < a.len() && a[i] == d;
            assert(kk(c, a[i]).ieee_le(kk(c, a[a.len() - 1])));
            le_trans(kk(c, b.last()), kk(c, d), kk(c, a.last()));
        }
    }
}
pub proof fn ms_one<P>(v: P) ensures seq![v].to_multiset() =~= Multiset::singleton(v) { assert(seq![v] == Seq::<P>::empty().push(v)); assert(seq![v].to_multiset() =~= Multiset::singleton(v)); }
pub proof fn knum_parts<S: Is3D, P: Is3D>(c: S, a: Seq<P>, n: KdNode<P>)
    requires knum(c, n.pts()), knum(c, a)
    ensures knum(c, n.lpts()), knum(c, n.rpts()), 0.0f64.ieee_le(kk(c, n.val)), knum(c, a.push(n.val)), knum(c, seq![n.val]),
        n.pts().to_multiset() =~= n.lpts().to_multiset().insert(n.val).add(n.rpts().to_multiset()),
{
    n.parts();
    let s = n.pts();
    assert(s.contains(n.val)) by { assert(s[n.lpts().len() as int] == n.val); }
    assert forall|q: P| #[trigger] n.lpts().contains(q) implies 0.0f64.ieee_le(kk(c, q)) by { let i = choose|i: int| 0 <= i < n.lpts().len() && n.lpts()[i] == q; assert(s[i] == q); assert(s.contains(q)); }
    assert forall|q: P| #[trigger] n.rpts().contains(q) implies 0.0f64.ieee_le(kk(c, q)) by { let i = choose|i: int| 0 <= i < n.rpts().len() && n.rpts()[i] == q; assert(s[i + n.lpts().len() + 1] == q); assert(s.contains(q)); }
    assert forall|q: P| #[trigger] a.push(n.val).contains(q) implies 0.0f64.ieee_le(kk(c, q)) by { let i = choose|i: int| 0 <= i < a.len() + 1 && a.push(n.val)[i] == q; if i < a.len() { assert(a[i] == q); } }
}
pub proof fn knum_nearest<S: Is3D, P: Is3D>(c: S, n: int, a: Seq<P>, s: Seq<P>, b: Seq<P>)
    requires nearest_of(c, n, a, s.to_multiset(), b), knum(c, a), knum(c, s)
    ensures knum(c, b), asc(c, b), b.len() == min2(n, (a.len() + s.len()) as int)
{
    reveal(nearest_of);
    s.to_multiset_ensures();
    assert forall|q: P| #[trigger] b.contains(q) implies 0.0f64.ieee_le(kk(c, q)) by { assert(b.to_multiset().contains(q)); assert(a.to_multiset().contains(q) || s.to_multiset().contains(q)); assert(a.contains(q) || s.contains(q)); }
}
pub proof fn nearest_no<S: Is3D, P: Is3D>(c: S, k: int, a: Seq<P>, n: KdNode<P>)
    requires k >= 1, asc(c, a), a.len() <= k, knum(c, a),
    ensures n.left.is_none() ==> nearest_of(c, k, a, n.lpts().to_multiset(), a), n.right.is_none() ==> nearest_of(c, k, a, n.rpts().to_multiset(), a)
{
    n.parts();
    if n.left.is_none() { assert(n.lpts().to_multiset() =~= Multiset::empty()); nearest_skip(c, k, a, n.lpts().to_multiset()); }
    if n.right.is_none() { assert(n.rpts().to_multiset() =~= Multiset::empty()); nearest_skip(c, k, a, n.rpts().to_multiset()); }
}
pub proof fn nearest_behind<S: Is3D, P: Is3D>(c: S, k: int, a: Seq<P>, n: KdNode<P>)
    requires n.wf(), k >= 1, asc(c, a), a.len() == k, knum(c, a), c.at(n.dimension as int).ieee_add(f_sqrt(kk(c, a.last()))).ieee_lt(n.val.at(n.dimension as int)),
    ensures nearest_of(c, k, a, n.rpts().to_multiset(), a)
{
    n.parts();
    let d = n.dimension as int;
    assert forall|q: P| #[trigger] n.rpts().to_multiset().contains(q) implies far(c, a.last(), q) by { assert(n.rpts().contains(q)); lt_le_trans(c.at(d).ieee_add(f_sqrt(kk(c, a.last()))), n.val.at(d), q.at(d)); }
    nearest_skip(c, k, a, n.rpts().to_multiset());
}
pub proof fn nearest_beyond<S: Is3D, P: Is3D>(c: S, k: int, a: Seq<P>, n: KdNode<P>)
    requires n.wf(), k >= 1, asc(c, a), a.len() == k, knum(c, a), n.val.at(n.dimension as int).ieee_lt(c.at(n.dimension as int).ieee_sub(f_sqrt(kk(c, a.last())))),
    ensures nearest_of(c, k, a, n.lpts().to_multiset(), a)
{
    n.parts();
    let d = n.dimension as int;
    assert forall|q: P| #[trigger] n.lpts().to_multiset().contains(q) implies far(c, a.last(), q) by { assert(n.lpts().contains(q)); lt_le_trans(q.at(d), n.val.at(d), c.at(d).ieee_sub(f_sqrt(kk(c, a.last())))); }
    nearest_skip(c, k, a, n.lpts().to_multiset());
}
pub proof fn nearest_all<S: Is3D, P: Is3D>(c: S, n: int, a0: Seq<P>, a1: Seq<P>, a2: Seq<P>, a3: Seq<P>, a4: Seq<P>, a5: Seq<P>, v: P, s: Multiset<P>, t: Multiset<P>, u: Multiset<P>)
    requires n >= 1, a0.len() <= n, nearest_of(c, n, a0, Multiset::singleton(v), a1), nearest_of(c, n, a1, s, a2), nearest_of(c, n, a2, Multiset::empty(), a3), nearest_of(c, n, a3, t, a4), nearest_of(c, n, a4, Multiset::empty(), a5),
        u =~= s.add(t).insert(v), knum(c, a2), knum(c, a3), knum(c, a4), knum(c, a5), fin(c.at(0)), fin(c.at(1)),
    ensures nearest_of(c, n, a0, u, a5)
{
    let (x, y) = (Multiset::singleton(v).add(s), Multiset::singleton(v).add(s).add(t));
    nearest_step(c, n, a0, Multiset::singleton(v), a1, s, a2, x);
    nearest_step(c, n, a0, x, a2, Multiset::empty(), a3, x);
    nearest_step(c, n, a0, x, a3, t, a4, y);
    nearest_step(c, n, a0, y, a4, Multiset::empty(), a5, u);
}
//@ impl KdNode
//@ fn size
//@ ret r
//@ spec
        requires self.pts().len() <= usize::MAX,
        ensures r == self.pts().len(),
        decreases *self,
//@ start
        proof { self.parts(); }
//@ fn is_leaf
//@ ret r
//@ spec
        ensures r == (self.left.is_none() && self.right.is_none()),
//@ fn to_pointcloud_3d
//@ spec
        requires clone_ok::<P>(),
        ensures final(pc).data@ == old(pc).data@ + self.pts(),
        decreases *self,
//@ start
        proof { self.parts(); }
        let ghost d0 = pc.data@;
//@ before `pc.push(`
        proof { assert(pc.data@ =~= d0 + self.lpts()); }
//@ after `pc.push(`
        proof { assert(pc.data@ =~= d0 + self.lpts() + seq![self.val]); }
//@ tailwrap
        proof { self.parts(); assert(pc.data@ =~= d0 + (self.lpts() + seq![self.val] + self.rpts())); }
//@ fn new
//@ ret r
//@ spec
        requires pc@.len() >= 1, clone_ok::<P>(), seq_num(pc@), 0 <= dim < 127,
        ensures r.wf(), r.pts().to_multiset() == pc@.to_multiset(),
        decreases pc@.len(),
//@ start
        let ghost s0 = pc@;
        proof { order_facts(); }
//@ before `if pc.len() == 1`
        proof { assert(s0.contains(s0[0])); if s0.len() == 1 { assert forall|n: KdNode<P>| n.left.is_none() && n.right.is_none() && n.val == s0[0] implies #[trigger] n.pts() == s0 by { n.parts(); assert(n.pts() =~= s0); } } }
//@ after `pc.sort_by`
        let ghost s = pc@;
        proof { assert(s.len() == s0.len()) by { s.to_multiset_ensures(); s0.to_multiset_ensures(); } assert forall|q: P| #[trigger] s.contains(q) implies s0.contains(q) by { assert(s.to_multiset().contains(q)); assert(s0.to_multiset().contains(q)); }
            assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] s[i].at(dimension as int).ieee_le(#[trigger] s[j].at(dimension as int)) by { assert(s.contains(s[i]) && s.contains(s[j])); assert(pnum(s[i]) && pnum(s[j])); } }
//@ loop 0 iter it
//@ loop 0 inv
            invariant it.seq() == s, enum__0 == it.index@, s.len() <= usize::MAX, median < s.len(),
                pc_left@ == s.take(min2(enum__0 as int, median as int)), pc_right@ == s.subrange(min2(enum__0 as int, median + 1), enum__0 as int),
//@ loop 0 after
        let ghost (gl, gr) = (pc_left@, pc_right@);
        proof { ms_add(gl, seq![val]); ms_add(gl + seq![val], gr); assert(s =~= gl + seq![val] + gr);
            assert forall|q: P| #[trigger] gl.contains(q) implies s.contains(q) by { let i = choose|i: int| 0 <= i < gl.len() && gl[i] == q; assert(s[i] == q); }
            assert forall|q: P| #[trigger] gr.contains(q) implies s.contains(q) by { let i = choose|i: int| 0 <= i < gr.len() && gr[i] == q; assert(s[i + gl.len() + 1] == q); }
        }
//@ tail
        let ghost node = KdNode { left, right, val, dimension };
        proof {
            node.parts();
            assert(node.lpts().to_multiset() =~= gl.to_multiset()); assert(node.rpts().to_multiset() =~= gr.to_multiset());
            assert(seq![val].to_multiset() =~= Multiset::empty().insert(val)) by { assert(seq![val] == Seq::<P>::empty().push(val)); }
            assert(node.pts().to_multiset() =~= s.to_multiset());
            assert(s.contains(val));
            let (d, m) = (dimension as int, median as int);
            assert forall|q: P| #[trigger] node.lpts().contains(q) implies pnum(q) && q.at(d).ieee_le(val.at(d)) by {
                assert(node.lpts().to_multiset().contains(q)); assert(gl.to_multiset().contains(q)); assert(gl.contains(q));
                let i = choose|i: int| 0 <= i < gl.len() && gl[i] == q; assert(s[i] == q); assert(s[i].at(d).ieee_le(s[m].at(d)));
            }
            assert forall|q: P| #[trigger] node.rpts().contains(q) implies pnum(q) && val.at(d).ieee_le(q.at(d)) by {
                assert(node.rpts().to_multiset().contains(q)); assert(gr.to_multiset().contains(q)); assert(gr.contains(q));
                let i = choose|i: int| 0 <= i < gr.len() && gr[i] == q; assert(s[m + 1 + i] == q); assert(s[m].at(d).ieee_le(s[m + 1 + i].at(d)));
            }
            assert(node.left.is_some() ==> node.left->0.wf()); assert(node.right.is_some() ==> node.right->0.wf());
            assert(node.wf());
        }
//@ closure 0 o: Ordering
        ensures 0 <= dimension < 3 ==> o == (match pcmp(a.at(dimension as int), b.at(dimension as int)) { Some(x) => x, None => Ordering::Equal })
//@ fn in_sphere
//@ spec
        requires clone_ok::<P>(), self.wf(), fin(sphere.center.at(0)), fin(sphere.center.at(1)), pos(sphere.radius.val), pos(sphere.radius.val),
        ensures gathered(old(pc)@, final(pc)@, self.pts().to_multiset(), p_in_ball(*sphere), p_off_ball(*sphere)),
        decreases *self,
//@ start
        let ghost (p, out): (spec_fn(P) -> bool, spec_fn(P) -> bool) = (p_in_ball(*sphere), p_off_ball(*sphere));
        let ghost (a0, v, ml, mr, d) = (pc@, self.val, self.lpts().to_multiset(), self.rpts().to_multiset(), self.dimension as int);
        let ghost (mut a1, mut a2, mut less) = (pc@, pc@, false);
        let ghost (bl, br) = (sphere.center.at(d).ieee_sub(sphere.radius.val), sphere.center.at(d).ieee_add(sphere.radius.val));
        proof { self.parts(); half_num(sphere.radius.val); add_num(sphere.center.at(0), sphere.radius.val); add_num(sphere.center.at(1), sphere.radius.val); tri(v.at(d), br); tri(bl, v.at(d)); tri(sphere.center.at(d), v.at(d)); }
//@ before `if self.is_leaf()`
        proof { a1 = pc@; gathered_val(a0, a1, *self, p, out); gathered_no(a1, *self, p, out); }
//@ before `let (current_search`
        proof { a2 = pc@; less = sphere.center.at(d).ieee_lt(v.at(d)); gathered_no(a2, *self, p, out); }
//@ before `if border_right >= current_val`
                        proof { if br.ieee_lt(v.at(d)) { gathered_behind(a2, *self, br, p, out); } }
//@ before `if border_left <= current_val`
                        proof { if v.at(d).ieee_lt(bl) { gathered_beyond(a2, *self, bl, p, out); } }
//@ tailwrap
        proof {
            if less { gathered_all(a0, a1, a2, pc@, v, ml, mr, self.pts().to_multiset(), p, out); }
            else { gathered_all(a0, a1, a2, pc@, v, mr, ml, self.pts().to_multiset(), p, out); }
        }
//@ fn in_box
//@ spec
        requires clone_ok::<P>(), self.wf(), fin(box_3d.center.at(0)), fin(box_3d.center.at(1)), pos(box_3d.size(0)), pos(box_3d.size(1)),
        ensures gathered(old(pc)@, final(pc)@, self.pts().to_multiset(), p_in_cube(*box_3d), p_off_cube(*box_3d)),
        decreases *self,
//@ start
        let ghost (p, out): (spec_fn(P) -> bool, spec_fn(P) -> bool) = (p_in_cube(*box_3d), p_off_cube(*box_3d));
        let ghost (a0, v, ml, mr, d) = (pc@, self.val, self.lpts().to_multiset(), self.rpts().to_multiset(), self.dimension as int);
        let ghost (mut a1, mut a2, mut less) = (pc@, pc@, false);
        let ghost (bl, br) = (box_3d.center.at(d).ieee_sub(half(*box_3d, d)), box_3d.center.at(d).ieee_add(half(*box_3d, d)));
        proof { self.parts(); half_num(box_3d.size(0)); half_num(box_3d.size(1)); add_num(box_3d.center.at(0), half(*box_3d, 0)); add_num(box_3d.center.at(1), half(*box_3d, 1)); tri(v.at(d), br); tri(bl, v.at(d)); tri(box_3d.center.at(d), v.at(d)); }
//@ before `if self.is_leaf()`
        proof { a1 = pc@; gathered_val(a0, a1, *self, p, out); gathered_no(a1, *self, p, out); }
//@ before `let (current_search`
        proof { a2 = pc@; less = box_3d.center.at(d).ieee_lt(v.at(d)); gathered_no(a2, *self, p, out); }
//@ before `if border_right >= current_val`
                        proof { if br.ieee_lt(v.at(d)) { gathered_behind(a2, *self, br, p, out); } }
//@ before `if border_left <= current_val`
                        proof { if v.at(d).ieee_lt(bl) { gathered_beyond(a2, *self, bl, p, out); } }
//@ tailwrap
        proof {
            if less { gathered_all(a0, a1, a2, pc@, v, ml, mr, self.pts().to_multiset(), p, out); }
            else { gathered_all(a0, a1, a2, pc@, v, mr, ml, self.pts().to_multiset(), p, out); }
        }
//@ fn sort_and_limit
//@ spec
        requires clone_ok::<PFind>(), knum(*search, old(pc)@), max_size >= 1,
        ensures cut_sorted(*search, max_size as int, old(pc)@, final(pc)@),
//@ closure 0 o: Ordering
            ensures o == (match pcmp(sqr_dist3(search, a), sqr_dist3(search, b)) { Some(x) => x, None => Ordering::Equal })
//@ start
        let ghost s0 = pc@;
        proof { order_facts(); }
//@ after `pc.sort_by`
        let ghost t = pc@;
        proof {
            t.to_multiset_ensures(); s0.to_multiset_ensures();
            assert forall|q: PFind| #[trigger] t.contains(q) implies s0.contains(q) by { assert(t.to_multiset().contains(q)); assert(s0.to_multiset().contains(q)); }
            assert forall|i: int, j: int| 0 <= i <= j < t.len() implies #[trigger] kk(*search, t[i]).ieee_le(#[trigger] kk(*search, t[j])) by {
                assert(t.contains(t[i]) && t.contains(t[j])); assert(s0.contains(t[i]) && s0.contains(t[j]));
                let (x, y) = (kk(*search, t[i]), kk(*search, t[j]));
                assert(!nan(x) && !nan(y));
                if i < j { assert(x.ieee_lt(y) || x.ieee_eq(y)); } else { assert(x.ieee_eq(x)); }
            }
            assert(t.take(t.len() as int) =~= t);
        }
//@ loop 0 iter it
//@ loop 0 inv
                invariant pc@ == t, clone_ok::<PFind>(), t.len() > max_size, it.seq().len() == max_size, forall|j: int| 0 <= j < max_size ==> *(#[trigger] it.seq()[j]) == t[j], result@ == t.take(it.index@),
//@ fn knearest
//@ replace `&pc.len() - 1` => `pc.len() - 1` ; subtraction from a reference is subtraction from the value
//@ spec
        requires clone_ok::<P>(), self.wf(), fin(search.at(0)), fin(search.at(1)), n >= 1, old(pc)@.len() <= n, knum(*search, old(pc)@), knum(*search, self.pts()), asc(*search, old(pc)@),
        ensures nearest_of(*search, n as int, old(pc)@, self.pts().to_multiset(), final(pc)@),
        decreases *self,
//@ start
        let ghost (a0, v, ml, mr, d, c, nn) = (pc@, self.val, self.lpts().to_multiset(), self.rpts().to_multiset(), self.dimension as int, *search, n as int);
        let ghost (mut a1, mut a2, mut a3, mut a4, mut less) = (pc@, pc@, pc@, pc@, false);
        proof { knum_parts(c, a0, *self); assert(0.0f64.ieee_eq(0.0f64)) by(bit_vector); add_num(c.at(d), 0.0f64); tri(c.at(d), v.at(d)); }
//@ before `let comp`
        proof {
            a1 = pc@;
            if a0.len() < n || kk(c, v).ieee_lt(kk(c, a0.last())) { nearest_push(c, nn, a0, v, a1); } else { nearest_skip(c, nn, a0, Multiset::singleton(v)); }
            ms_one(v); knum_nearest(c, nn, a0, seq![v], a1); nearest_no(c, nn, a1, *self);
        }
//@ before `Self::sort_and_limit(pc, search, n)` @1
        proof {
            a2 = pc@; less = c.at(d).ieee_lt(v.at(d));
            assert(nearest_of(c, nn, a1, if less { ml } else { mr }, a2));
            knum_nearest(c, nn, a1, if less { self.lpts() } else { self.rpts() }, a2);
        }
//@ after `Self::sort_and_limit(pc, search, n)` @1
        proof {
            a3 = pc@;
            assert(Seq::<P>::empty().to_multiset() =~= Multiset::empty());
            nearest_resort(c, nn, a2, a3); knum_nearest(c, nn, a2, Seq::empty(), a3); nearest_no(c, nn, a3, *self);
        }
//@ after `let border_right`
        proof {
            assert(distance_best == f_sqrt(kk(c, a3.last())));
            assert(a3.contains(a3.last()));
            sqrt_num(kk(c, a3.last())); add_num(c.at(d), distance_best); tri(v.at(d), border_right); tri(border_left, v.at(d));
            if a3.len() == n && border_right.ieee_lt(v.at(d)) { nearest_behind(c, nn, a3, *self); }
            if a3.len() == n && v.at(d).ieee_lt(border_left) { nearest_beyond(c, nn, a3, *self); }
        }
//@ before `Self::sort_and_limit(pc, search, n)` @2
        proof {
            a4 = pc@;
            assert(nearest_of(c, nn, a3, if less { mr } else { ml }, a4));
            knum_nearest(c, nn, a3, if less { self.rpts() } else { self.lpts() }, a4);
        }
//@ after `Self::sort_and_limit(pc, search, n)` @2
        proof {
            assert(Seq::<P>::empty().to_multiset() =~= Multiset::empty());
            nearest_resort(c, nn, a4, pc@); knum_nearest(c, nn, a4, Seq::empty(), pc@);
            if less { nearest_all(c, nn, a0, a1, a2, a3, a4, pc@, v, ml, mr, self.pts().to_multiset()); }
            else { nearest_all(c, nn, a0, a1, a2, a3, a4, pc@, v, mr, ml, self.pts().to_multiset()); }
        }
//@ enditem
impl<P: Is3D> KdTree<P> {
    /// the points of the tree
    pub closed spec fn all(&self) -> Seq<P> { match self.root { Some(n) => n.pts(), None => Seq::empty() } }
    pub closed spec fn wf(&self) -> bool { match self.root { Some(n) => n.wf(), None => true } }
}
//@ impl IsTree3D for KdTree
//@ header impl<P: Is3D + Clone> KdTree<P>
//@ fn size
//@ ret r
//@ spec
        requires self.all().len() <= usize::MAX,
        ensures r == self.all().len(),
//@ fn to_pointcloud
//@ ret r
//@ spec
        requires clone_ok::<P>(),
        ensures r.data@ == self.all(),
//@ tail
        proof { assert(result.data@ =~= self.all()); }
//@ fn build
//@ ret r
//@ spec
        requires clone_ok::<P>(), seq_num(pc.data@),
        ensures r.is_ok() == (pc.data@.len() > 0), r.is_err() ==> *final(self) == *old(self),
            r.is_ok() ==> final(self).wf() && final(self).all().to_multiset() == pc.data@.to_multiset(),
//@ enditem
//@ impl IsSphereSearchable for KdTree
//@ header impl<P: Is3D + Clone> KdTree<P>
//@ fn in_sphere
//@ spec
        requires clone_ok::<P>(), self.wf(), fin(sphere.center.at(0)), fin(sphere.center.at(1)), pos(sphere.radius.val),
        ensures gathered(old(result)@, final(result)@, self.all().to_multiset(), p_in_ball(*sphere), p_off_ball(*sphere)),
//@ start
        proof { assert(Seq::<P>::empty().to_multiset() =~= Multiset::empty()); gathered_none(result@, Multiset::empty(), p_in_ball(*sphere), p_off_ball(*sphere)); }
//@ enditem
//@ impl IsBox3DSearchable for KdTree
//@ header impl<P: Is3D + Clone> KdTree<P>
//@ fn in_box
//@ spec
        requires clone_ok::<P>(), self.wf(), fin(box_3d.center.at(0)), fin(box_3d.center.at(1)), pos(box_3d.size(0)), pos(box_3d.size(1)),
        ensures gathered(old(result)@, final(result)@, self.all().to_multiset(), p_in_cube(*box_3d), p_off_cube(*box_3d)),
//@ start
        proof { assert(Seq::<P>::empty().to_multiset() =~= Multiset::empty()); gathered_none(result@, Multiset::empty(), p_in_cube(*box_3d), p_off_cube(*box_3d)); }
//@ enditem
//@ impl IsKNearestSearchable for KdTree
//@ header impl<PFind: Is3D + Clone> KdTree<PFind>
//@ fn knearest
//@ sigreplace `fn knearest(` => `fn knearest<PSearch: Is3D>(` ; type parameter of the trait moved to the method
//@ spec
        requires clone_ok::<PFind>(), self.wf(), fin(search.at(0)), fin(search.at(1)), knum(*search, self.all()), old(result)@.len() == 0,
        ensures n == 0 ==> final(result)@ == old(result)@, n >= 1 ==> nearest_of(*search, n as int, old(result)@, self.all().to_multiset(), final(result)@),
//@ start
        proof { if n >= 1 { assert(Seq::<PFind>::empty().to_multiset() =~= Multiset::empty()); nearest_skip(*search, n as int, result@, Multiset::empty()); } }
//@ fn nearest
//@ sigreplace `fn nearest(` => `fn nearest<PSearch: Is3D>(` ; type parameter of the trait moved to the method
//@ ret r
//@ spec
        requires clone_ok::<PFind>(), self.wf(), fin(search.at(0)), fin(search.at(1)), knum(*search, self.all()),
        ensures match r { None => self.all().len() == 0, Some(p) => self.all().contains(p) && forall|q: PFind| #[trigger] self.all().contains(q) ==> q == p || far(*search, p, q) },
//@ tail
        proof {
            reveal(nearest_of);
            let (s, m) = (self.all(), result@.to_multiset());
            s.to_multiset_ensures();
            if s.len() > 0 {
                let p = result@[0];
                assert(result@ =~= seq![p]); ms_one(p);
                assert(m.contains(p)); assert(s.to_multiset().contains(p));
                assert forall|q: PFind| #[trigger] s.contains(q) implies q == p || far(*search, p, q) by {
                    assert(s.to_multiset().contains(q));
                    if q != p { assert(m.count(q) == 0); assert(Seq::<PFind>::empty().to_multiset() =~= Multiset::empty()); assert(m.count(q) < Seq::<PFind>::empty().to_multiset().add(s.to_multiset()).count(q)); }
                }
            }
        }
//@ enditem
} // verus!
fn main() {}

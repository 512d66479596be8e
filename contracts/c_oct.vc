#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use vstd::multiset::Multiset;
use std::ops::*;
use std::collections::HashSet;
use std::hash::Hash;
verus! {
//@include float.inc
broadcast use {vstd::seq_lib::group_seq_properties, vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures, vstd::std_specs::hash::group_hash_axioms, fl::ax};
//@include base.inc
//@include num.inc
//@include pos.inc
//@include pos3.inc
//@include point3.inc
//@include flemmas.inc
//@include order.inc
/// the number of results as a float (assumed: std's cast)
pub uninterp spec fn u2f(x: usize) -> f64;
#[verifier::external_body]
pub fn as_f64(x: usize) -> (r: f64) ensures r == u2f(x) { x as f64 }
pub assume_specification [i8::saturating_add](x: i8, y: i8) -> (r: i8) ensures r == (if x + y > 127 { 127 } else if x + y < -128 { -128 } else { x + y });
pub open spec fn clone_ok<P: Clone>() -> bool { forall|a: P, b: P| #[trigger] call_ensures(P::clone, (&a,), b) ==> a == b }
pub open spec fn default_ok<P: Default>() -> bool { call_requires(P::default, ()) }
pub proof fn ms_add<T>(a: Seq<T>, b: Seq<T>) ensures (a + b).to_multiset() =~= a.to_multiset().add(b.to_multiset()) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); }
    else { ms_add(a, b.drop_last()); assert(a + b =~= (a + b.drop_last()).push(b.last())); assert(b =~= b.drop_last().push(b.last())); }
}
//@ file src/point_cloud_3d.rs
//@ struct PointCloud3D
//@ enditem
//@ impl PointCloud3D
//@ fn new
//@ ret r
//@ spec
        ensures r.data@ == Seq::<P>::empty(),
//@ enditem
//@ impl IsRandomAccessible for PointCloud3D
//@ header impl<P: Is3D> PointCloud3D<P>
//@ fn len
//@ ret r
//@ spec
        ensures r == self.data@.len(),
//@ enditem
//@ impl IsPushable for PointCloud3D
//@ header impl<P: Is3D> PointCloud3D<P>
//@ fn push
//@ spec
        ensures final(self).data@ == old(self).data@.push(point),
//@ enditem
// ---- positions of points, and their center of gravity as the code sums it up
pub type C3 = (f64, f64, f64);
pub open spec fn at3<P: Is3D>(p: P) -> C3 { (p.at(0), p.at(1), p.at(2)) }
pub open spec fn ats<P: Is3D>(s: Seq<P>) -> Seq<C3> { s.map_values(|p: P| at3(p)) }
pub open spec fn total(s: Seq<C3>) -> C3 decreases s.len() {
    if s.len() == 0 { (0.0f64, 0.0f64, 0.0f64) } else { let t = total(s.drop_last()); let x = s.last(); (t.0.ieee_add(x.0), t.1.ieee_add(x.1), t.2.ieee_add(x.2)) }
}
pub open spec fn cog(s: Seq<C3>) -> C3 { let t = total(s); let n = u2f(s.len() as usize); (t.0.ieee_div(n), t.1.ieee_div(n), t.2.ieee_div(n)) }
//@ impl HasCenterOfGravity3D for PointCloud3D
//@ header impl<P: Is3D> PointCloud3D<P>
//@ fn center_of_gravity
//@ floatassign
//@ replace `size as f64` => `as_f64(size)` ; Verus has no cast from usize to f64, the function is this cast
//@ ret r
//@ spec
        ensures r.is_some() == (self.data@.len() > 0), r.is_some() ==> at3(r->Some_0) == cog(ats(self.data@)),
//@ loop 0 iter it
//@ loop 0 inv
            invariant it.seq().len() == self.data@.len(), forall|j: int| 0 <= j < self.data@.len() ==> *(#[trigger] it.seq()[j]) == self.data@[j],
                (sumx, sumy, sumz) == total(ats(self.data@).take(it.index@)),
//@ loop 0 start
            proof { let i = it.index@; let a = ats(self.data@); assert(a.take(i + 1).drop_last() =~= a.take(i)); assert(a.take(i + 1).last() == at3(*p)); }
//@ loop 0 after
        proof { let a = ats(self.data@); assert(a.take(a.len() as int) =~= a); }
//@ enditem
//@ file src/bounding_box_3d.rs
//@ struct BoundingBox3D
//@ enditem
impl Clone for BoundingBox3D { fn clone(&self) -> (r: Self) ensures r == *self { BoundingBox3D { min: self.min.clone(), max: self.max.clone() } } }
impl BoundingBox3D {
    pub open spec fn lo(&self, i: int) -> f64 { self.min.at(i) }
    pub open spec fn hi(&self, i: int) -> f64 { self.max.at(i) }
}
/// what a box needs: the minimum strictly below the maximum in every dimension
pub open spec fn box_ok(a: C3, b: C3) -> bool { a.0.ieee_lt(b.0) && a.1.ieee_lt(b.1) && a.2.ieee_lt(b.2) }
//@ impl BoundingBox3D
//@ fn new
//@ ret r
//@ spec
        ensures r.is_ok() == box_ok(at3(*min), at3(*max)), r.is_ok() ==> at3(r->Ok_0.min) == at3(*min) && at3(r->Ok_0.max) == at3(*max),
//@ start
        proof { lt_eq(); }
//@ fn min_p
//@ ret r
//@ spec
        ensures r == self.min,
//@ fn max_p
//@ ret r
//@ spec
        ensures r == self.max,
//@ enditem
pub proof fn lt_eq() ensures forall|x: f64, y: f64| #[trigger] x.ieee_lt(y) ==> !x.ieee_eq(y) {
    assert forall|x: f64, y: f64| #[trigger] x.ieee_lt(y) implies !x.ieee_eq(y) by { lt_facts(x, y); }
}
pub open spec fn col3<P: Is3D>(s: Seq<P>, i: int) -> spec_fn(int) -> f64 { |j: int| s[j].at(i) }
/// the points span a volume
pub open spec fn volume<P: Is3D>(s: Seq<P>) -> bool {
    &&& s.len() >= 2
    &&& lo(col3(s, 0), s.len() as int).ieee_lt(hi(col3(s, 0), s.len() as int))
    &&& lo(col3(s, 1), s.len() as int).ieee_lt(hi(col3(s, 1), s.len() as int))
    &&& lo(col3(s, 2), s.len() as int).ieee_lt(hi(col3(s, 2), s.len() as int))
}
//@ file src/point_cloud_3d.rs
//@ impl HasBoundingBox3DMaybe for PointCloud3D
//@ header impl<P: Is3D> PointCloud3D<P>
//@ fn bounding_box_maybe trusted
//@ ret r
//@ spec
        ensures r.is_some() == volume(self.data@),
//@ enditem
//@ file src/functions.rs
//@ freefn center_3d
//@ ret r
//@ spec
    ensures at3(r) == mid3(at3(*p1), at3(*p2)),
//@ enditem
pub open spec fn mid(a: f64, b: f64) -> f64 { a.ieee_add(b.ieee_sub(a).ieee_div(2.0f64)) }
pub open spec fn mid3(a: C3, b: C3) -> C3 { (mid(a.0, b.0), mid(a.1, b.1), mid(a.2, b.2)) }
//@ file src/oc_tree.rs
//@ struct OcTree
//@ enditem
//@ enum OcNode
//@ enditem
//@ struct Internal
//@ enditem
//@ enum Direction
//@ enditem
// ---- what a node holds
pub open spec fn kids<P: Is3D>(i: Internal<P>) -> Seq<Option<Box<OcNode<P>>>> { seq![i.ppp, i.ppn, i.pnp, i.pnn, i.npp, i.npn, i.nnp, i.nnn] }
impl<P: Is3D> OcNode<P> {
    /// the points of the node in the order of its octants
    pub closed spec fn pts(&self) -> Seq<P> decreases self {
        match self {
            OcNode::Leaf(p) => seq![*p],
            OcNode::Leaves(ps) => ps@,
            OcNode::Node(i) => cat8(match i.ppp { Some(n) => n.pts(), None => Seq::empty() }, match i.ppn { Some(n) => n.pts(), None => Seq::empty() }, match i.pnp { Some(n) => n.pts(), None => Seq::empty() }, match i.pnn { Some(n) => n.pts(), None => Seq::empty() }, match i.npp { Some(n) => n.pts(), None => Seq::empty() }, match i.npn { Some(n) => n.pts(), None => Seq::empty() }, match i.nnp { Some(n) => n.pts(), None => Seq::empty() }, match i.nnn { Some(n) => n.pts(), None => Seq::empty() }),
        }
    }
    /// no cell is empty
    pub closed spec fn wf(&self) -> bool decreases self {
        self.pts().len() > 0 && match self {
            OcNode::Leaf(p) => true,
            OcNode::Leaves(ps) => true,
            OcNode::Node(i) => (match i.ppp { Some(n) => n.wf(), None => true }) && (match i.ppn { Some(n) => n.wf(), None => true })
                && (match i.pnp { Some(n) => n.wf(), None => true }) && (match i.pnn { Some(n) => n.wf(), None => true })
                && (match i.npp { Some(n) => n.wf(), None => true }) && (match i.npn { Some(n) => n.wf(), None => true })
                && (match i.nnp { Some(n) => n.wf(), None => true }) && (match i.nnn { Some(n) => n.wf(), None => true }),
        }
    }
    /// every point is in the cell it belongs to: in each octant on the right side of the middle of the box a..b
    pub closed spec fn placed(&self, a: C3, b: C3) -> bool decreases self {
        match self {
            OcNode::Node(i) => (match i.ppp { Some(n) => sided(n.pts(), mid3(a, b), (true, true, true)) && n.placed(octant((true, true, true), a, b).0, octant((true, true, true), a, b).1), None => true })
                && (match i.ppn { Some(n) => sided(n.pts(), mid3(a, b), (true, true, false)) && n.placed(octant((true, true, false), a, b).0, octant((true, true, false), a, b).1), None => true })
                && (match i.pnp { Some(n) => sided(n.pts(), mid3(a, b), (true, false, true)) && n.placed(octant((true, false, true), a, b).0, octant((true, false, true), a, b).1), None => true })
                && (match i.pnn { Some(n) => sided(n.pts(), mid3(a, b), (true, false, false)) && n.placed(octant((true, false, false), a, b).0, octant((true, false, false), a, b).1), None => true })
                && (match i.npp { Some(n) => sided(n.pts(), mid3(a, b), (false, true, true)) && n.placed(octant((false, true, true), a, b).0, octant((false, true, true), a, b).1), None => true })
                && (match i.npn { Some(n) => sided(n.pts(), mid3(a, b), (false, true, false)) && n.placed(octant((false, true, false), a, b).0, octant((false, true, false), a, b).1), None => true })
                && (match i.nnp { Some(n) => sided(n.pts(), mid3(a, b), (false, false, true)) && n.placed(octant((false, false, true), a, b).0, octant((false, false, true), a, b).1), None => true })
                && (match i.nnn { Some(n) => sided(n.pts(), mid3(a, b), (false, false, false)) && n.placed(octant((false, false, false), a, b).0, octant((false, false, false), a, b).1), None => true }),
            _ => true,
        }
    }
    /// the positions collected at a depth: the points, from the limit on the center of gravity of every cell
    pub closed spec fn got(&self, depth: int, limit: int) -> Seq<C3> decreases self {
        match self {
            OcNode::Leaf(p) => ats(seq![*p]),
            OcNode::Leaves(ps) => ats(ps@),
            OcNode::Node(i) => {
                let d = deeper(depth);
                let c = limit >= 0 && depth > limit;
                cat8(match i.ppp { Some(n) => cell(c, n.got(d, limit)), None => Seq::empty() }, match i.ppn { Some(n) => cell(c, n.got(d, limit)), None => Seq::empty() }, match i.pnp { Some(n) => cell(c, n.got(d, limit)), None => Seq::empty() }, match i.pnn { Some(n) => cell(c, n.got(d, limit)), None => Seq::empty() }, match i.npp { Some(n) => cell(c, n.got(d, limit)), None => Seq::empty() }, match i.npn { Some(n) => cell(c, n.got(d, limit)), None => Seq::empty() }, match i.nnp { Some(n) => cell(c, n.got(d, limit)), None => Seq::empty() }, match i.nnn { Some(n) => cell(c, n.got(d, limit)), None => Seq::empty() })
            },
        }
    }
    /// a collection has at least one position and at most one per point
    pub proof fn got_some(&self, depth: int, limit: int)
        requires self.wf()
        ensures 1 <= self.got(depth, limit).len() <= self.pts().len()
        decreases self, 1int
    {
        match self {
            OcNode::Node(i) => { self.got_all(*i, deeper(depth), limit); parts(*self, *i); got_parts(*self, *i, depth, limit); let c = limit >= 0 && depth > limit; let d = deeper(depth); assert(some_b(c));
                len8(opts(i.ppp), opts(i.ppn), opts(i.pnp), opts(i.pnn), opts(i.npp), opts(i.npn), opts(i.nnp), opts(i.nnn));
                len8(ogot(i.ppp, c, d, limit), ogot(i.ppn, c, d, limit), ogot(i.pnp, c, d, limit), ogot(i.pnn, c, d, limit), ogot(i.npp, c, d, limit), ogot(i.npn, c, d, limit), ogot(i.nnp, c, d, limit), ogot(i.nnn, c, d, limit)); },
            _ => {},
        }
    }
    proof fn got_all(&self, i: Internal<P>, d: int, limit: int)
        requires self.wf(), *self == OcNode::Node(i)
        ensures forall|c: bool| #[trigger] some_b(c) ==> got_ok(i.ppp, c, d, limit) && got_ok(i.ppn, c, d, limit) && got_ok(i.pnp, c, d, limit) && got_ok(i.pnn, c, d, limit) && got_ok(i.npp, c, d, limit) && got_ok(i.npn, c, d, limit) && got_ok(i.nnp, c, d, limit) && got_ok(i.nnn, c, d, limit)
        decreases self, 0int
    {
        match i.ppp { Some(n) => n.got_some(d, limit), None => {} }
        match i.ppn { Some(n) => n.got_some(d, limit), None => {} }
        match i.pnp { Some(n) => n.got_some(d, limit), None => {} }
        match i.pnn { Some(n) => n.got_some(d, limit), None => {} }
        match i.npp { Some(n) => n.got_some(d, limit), None => {} }
        match i.npn { Some(n) => n.got_some(d, limit), None => {} }
        match i.nnp { Some(n) => n.got_some(d, limit), None => {} }
        match i.nnn { Some(n) => n.got_some(d, limit), None => {} }
    }
    pub proof fn sized(&self) requires self.wf() ensures self.pts().len() > 0 {}
}
/// the octant of a position: per dimension, not below the middle
pub open spec fn side(m: C3, p: C3) -> (bool, bool, bool) { (m.0.ieee_le(p.0), m.1.ieee_le(p.1), m.2.ieee_le(p.2)) }
pub open spec fn sided<P: Is3D>(s: Seq<P>, m: C3, d: (bool, bool, bool)) -> bool { forall|q: P| #[trigger] s.contains(q) ==> side(m, at3(q)) == d }
/// the corners of an octant: per dimension the upper part goes from the middle to the maximum
pub open spec fn octant(d: (bool, bool, bool), a: C3, b: C3) -> (C3, C3) {
    let m = mid3(a, b);
    ((if d.0 { m.0 } else { a.0 }, if d.1 { m.1 } else { a.1 }, if d.2 { m.2 } else { a.2 }), (if d.0 { b.0 } else { m.0 }, if d.1 { b.1 } else { m.1 }, if d.2 { b.2 } else { m.2 }))
}
pub open spec fn signs(d: Direction) -> (bool, bool, bool) {
    match d { Direction::PPP => (true, true, true), Direction::PPN => (true, true, false), Direction::PNP => (true, false, true), Direction::PNN => (true, false, false),
        Direction::NPP => (false, true, true), Direction::NPN => (false, true, false), Direction::NNP => (false, false, true), Direction::NNN => (false, false, false) }
}
pub closed spec fn oplaced<P: Is3D>(o: Option<Box<OcNode<P>>>, d: (bool, bool, bool), a: C3, b: C3) -> bool { match o { Some(n) => sided(n.pts(), mid3(a, b), d) && n.placed(octant(d, a, b).0, octant(d, a, b).1), None => true } }
pub proof fn placed_parts<P: Is3D>(n: OcNode<P>, i: Internal<P>, a: C3, b: C3)
    requires n == OcNode::Node(i)
    ensures n.placed(a, b) == (oplaced(i.ppp, (true, true, true), a, b) && oplaced(i.ppn, (true, true, false), a, b) && oplaced(i.pnp, (true, false, true), a, b) && oplaced(i.pnn, (true, false, false), a, b) && oplaced(i.npp, (false, true, true), a, b) && oplaced(i.npn, (false, true, false), a, b) && oplaced(i.nnp, (false, false, true), a, b) && oplaced(i.nnn, (false, false, false), a, b))
{ }
/// what holds for the elements of one sequence holds for one with the same elements
pub proof fn sided_same<P: Is3D>(s: Seq<P>, t: Seq<P>, m: C3, d: (bool, bool, bool))
    requires sided(s, m, d), s.to_multiset() == t.to_multiset()
    ensures sided(t, m, d)
{
    s.to_multiset_ensures(); t.to_multiset_ensures();
    assert forall|q: P| #[trigger] t.contains(q) implies side(m, at3(q)) == d by { assert(t.to_multiset().contains(q)); assert(s.contains(q)); }
}
pub open spec fn some_b(c: bool) -> bool { true }
pub open spec fn got_ok<P: Is3D>(o: Option<Box<OcNode<P>>>, c: bool, d: int, limit: int) -> bool { let (g, p) = (ogot(o, c, d, limit), opts(o)); g.len() <= p.len() && (p.len() > 0 ==> g.len() > 0) }
pub open spec fn deeper(d: int) -> int { if d >= 127 { 127 } else { d + 1 } }
pub open spec fn cell(center: bool, s: Seq<C3>) -> Seq<C3> { if !center { s } else if s.len() == 0 { Seq::empty() } else { seq![cog(s)] } }
pub closed spec fn opts<P: Is3D>(o: Option<Box<OcNode<P>>>) -> Seq<P> { match o { Some(n) => n.pts(), None => Seq::empty() } }
pub closed spec fn owf<P: Is3D>(o: Option<Box<OcNode<P>>>) -> bool { match o { Some(n) => n.wf(), None => true } }
pub closed spec fn ogot<P: Is3D>(o: Option<Box<OcNode<P>>>, center: bool, depth: int, limit: int) -> Seq<C3> { match o { Some(n) => cell(center, n.got(depth, limit)), None => Seq::empty() } }
#[verifier::opaque]
pub open spec fn cat8<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>, d: Seq<T>, e: Seq<T>, f: Seq<T>, g: Seq<T>, h: Seq<T>) -> Seq<T> { a + b + c + d + e + f + g + h }
pub proof fn len8<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>, d: Seq<T>, e: Seq<T>, f: Seq<T>, g: Seq<T>, h: Seq<T>)
    ensures cat8(a, b, c, d, e, f, g, h).len() == a.len() + b.len() + c.len() + d.len() + e.len() + f.len() + g.len() + h.len()
{ reveal(cat8); }
/// appended one after the other
pub proof fn app8<T>(x: Seq<T>, a: Seq<T>, b: Seq<T>, c: Seq<T>, d: Seq<T>, e: Seq<T>, f: Seq<T>, g: Seq<T>, h: Seq<T>)
    ensures x + cat8(a, b, c, d, e, f, g, h) == x + a + b + c + d + e + f + g + h
{ reveal(cat8); assert(x + (a + b + c + d + e + f + g + h) =~= x + a + b + c + d + e + f + g + h); }
pub proof fn parts<P: Is3D>(n: OcNode<P>, i: Internal<P>)
    requires n == OcNode::Node(i)
    ensures n.pts() == cat8(opts(i.ppp), opts(i.ppn), opts(i.pnp), opts(i.pnn), opts(i.npp), opts(i.npn), opts(i.nnp), opts(i.nnn)),
        n.wf() == (n.pts().len() > 0 && owf(i.ppp) && owf(i.ppn) && owf(i.pnp) && owf(i.pnn) && owf(i.npp) && owf(i.npn) && owf(i.nnp) && owf(i.nnn)),
{ }
pub proof fn got_parts<P: Is3D>(n: OcNode<P>, i: Internal<P>, depth: int, limit: int)
    requires n == OcNode::Node(i)
    ensures n.got(depth, limit) == ({ let c = limit >= 0 && depth > limit; let d = deeper(depth);
        cat8(ogot(i.ppp, c, d, limit), ogot(i.ppn, c, d, limit), ogot(i.pnp, c, d, limit), ogot(i.pnn, c, d, limit), ogot(i.npp, c, d, limit), ogot(i.npn, c, d, limit), ogot(i.nnp, c, d, limit), ogot(i.nnn, c, d, limit)) }),
{ }
pub proof fn ms8<P>(a: Seq<P>, b: Seq<P>, c: Seq<P>, d: Seq<P>, e: Seq<P>, f: Seq<P>, g: Seq<P>, h: Seq<P>)
    ensures cat8(a, b, c, d, e, f, g, h).to_multiset() =~= a.to_multiset().add(b.to_multiset()).add(c.to_multiset()).add(d.to_multiset()).add(e.to_multiset()).add(f.to_multiset()).add(g.to_multiset()).add(h.to_multiset()),
{
    reveal(cat8); ms_add(a, b); ms_add(a + b, c); ms_add(a + b + c, d); ms_add(a + b + c + d, e); ms_add(a + b + c + d + e, f); ms_add(a + b + c + d + e + f, g); ms_add(a + b + c + d + e + f + g, h);
}
pub open spec fn sum8<P>(a: Seq<P>, b: Seq<P>, c: Seq<P>, d: Seq<P>, e: Seq<P>, f: Seq<P>, g: Seq<P>, h: Seq<P>) -> Multiset<P> {
    a.to_multiset().add(b.to_multiset()).add(c.to_multiset()).add(d.to_multiset()).add(e.to_multiset()).add(f.to_multiset()).add(g.to_multiset()).add(h.to_multiset())
}
//@ impl OcNode
//@ fn size
//@ spec
        requires self.pts().len() <= usize::MAX,
        ensures r == self.pts().len(),
        decreases *self,
//@ ret r
//@ start
        proof { if let OcNode::Node(i) = self { parts(*self, *i); len8(opts(i.ppp), opts(i.ppn), opts(i.pnp), opts(i.pnn), opts(i.npp), opts(i.npn), opts(i.nnp), opts(i.nnn)); } }
//@ fn new
//@ fattrs
#[verifier::exec_allows_no_decreases_clause]
//@ ret r
//@ spec
        requires clone_ok::<P>(), pc@.len() > 0,
        ensures r.is_ok(), r->Ok_0.wf(), r->Ok_0.pts().to_multiset() == pc@.to_multiset(), r->Ok_0.placed(at3(bb.min), at3(bb.max)),
//@ start
        let ghost (s, bl, bh) = (pc@, at3(bb.min), at3(bb.max));
        let ghost m = mid3(bl, bh);
        proof { if s.len() == 1 { assert(s =~= seq![s[0]]); } }
//@ loop 0 iter it
//@ loop 0 inv
            invariant it.seq() == s, s.take(it.index@).to_multiset() =~= sum8(pcppp@, pcppn@, pcpnp@, pcpnn@, pcnpp@, pcnpn@, pcnnp@, pcnnn@),
                at3(middle) == m, sided(pcppp@, m, (true, true, true)), sided(pcppn@, m, (true, true, false)), sided(pcpnp@, m, (true, false, true)), sided(pcpnn@, m, (true, false, false)), sided(pcnpp@, m, (false, true, true)), sided(pcnpn@, m, (false, true, false)), sided(pcnnp@, m, (false, false, true)), sided(pcnnn@, m, (false, false, false)),
//@ loop 0 before
        proof { assert(s.take(0) =~= Seq::empty()); assert(Seq::<P>::empty().to_multiset() =~= Multiset::empty()); }
//@ loop 0 start
            proof { assert(s.take(it.index@ + 1) =~= s.take(it.index@).push(p)); }
//@ loop 0 after
        proof { assert(s.take(s.len() as int) =~= s); }
        let ghost (pcppp0, pcppn0, pcpnp0, pcpnn0, pcnpp0, pcnpn0, pcnnp0, pcnnn0) = (pcppp@, pcppn@, pcpnp@, pcpnn@, pcnpp@, pcnpn@, pcnnp@, pcnnn@);
//@ tail
        proof {
            let n = OcNode::Node(result);
            parts(n, result); placed_parts(n, result, bl, bh);
            sided_same(pcppp0, opts(ppp), m, (true, true, true)); sided_same(pcppn0, opts(ppn), m, (true, true, false)); sided_same(pcpnp0, opts(pnp), m, (true, false, true)); sided_same(pcpnn0, opts(pnn), m, (true, false, false)); sided_same(pcnpp0, opts(npp), m, (false, true, true)); sided_same(pcnpn0, opts(npn), m, (false, true, false)); sided_same(pcnnp0, opts(nnp), m, (false, false, true)); sided_same(pcnnn0, opts(nnn), m, (false, false, false));
            ms8(opts(ppp), opts(ppn), opts(pnp), opts(pnn), opts(npp), opts(npn), opts(nnp), opts(nnn));
            n.pts().to_multiset_ensures(); s.to_multiset_ensures();
        }
//@ fn calc_direction
//@ ret r
//@ spec
        ensures signs(r) == side(at3(*reference), at3(*p)),
//@ fn calc_sub_min_max
//@ ret r
//@ spec
        ensures ({ let o = octant(signs(dir), at3(bb.min), at3(bb.max)); r.is_ok() == box_ok(o.0, o.1) && (r.is_ok() ==> at3(r->Ok_0.min) == o.0 && at3(r->Ok_0.max) == o.1) }),
//@ fn build_subnode
//@ fattrs
#[verifier::exec_allows_no_decreases_clause]
//@ ret r
//@ spec
        requires clone_ok::<P>(),
        ensures opts(r).to_multiset() == pc@.to_multiset(), owf(r), r.is_some() == (pc@.len() > 0), r.is_some() ==> r->0.placed(at3(bb.min), at3(bb.max)),
//@ start
        proof { if pc@.len() == 0 { assert(pc@ =~= Seq::empty()); } }
//@ fn collect
//@ spec
        requires clone_ok::<P>(), default_ok::<P>(),
        ensures ats(final(pc).data@) == ats(old(pc).data@) + self.got(depth as int, maxdepth as int), maxdepth < 0 ==> final(pc).data@ == old(pc).data@ + self.pts(),
        decreases *self, 0int,
//@ start
        let ghost (old_pc, c, d, l) = (pc.data@, maxdepth >= 0 && depth > maxdepth, deeper(depth as int), maxdepth as int);
        proof { match self { OcNode::Node(i) => { parts(*self, *i); got_parts(*self, *i, depth as int, l); app8(old_pc, opts(i.ppp), opts(i.ppn), opts(i.pnp), opts(i.pnn), opts(i.npp), opts(i.npn), opts(i.nnp), opts(i.nnn)); app8(ats(old_pc), ogot(i.ppp, c, d, l), ogot(i.ppn, c, d, l), ogot(i.pnp, c, d, l), ogot(i.pnn, c, d, l), ogot(i.npp, c, d, l), ogot(i.npn, c, d, l), ogot(i.nnp, c, d, l), ogot(i.nnn, c, d, l)); }, _ => {} } }
//@ loop 0 iter it
//@ loop 0 inv
                    invariant it.seq().len() == ps@.len(), forall|j: int| 0 <= j < ps@.len() ==> *(#[trigger] it.seq()[j]) == ps@[j], clone_ok::<P>(),
                        pc.data@ == old_pc + ps@.take(it.index@),
//@ loop 0 start
                    proof { assert(ps@.take(it.index@ + 1) =~= ps@.take(it.index@).push(*p)); }
//@ loop 0 after
                proof { assert(ps@.take(ps@.len() as int) =~= ps@); }
//@ tailwrap
        proof {
            if maxdepth < 0 { assert(pc.data@ =~= old_pc + self.pts()); }
            assert(ats(pc.data@) =~= ats(old_pc) + self.got(depth as int, l));
        }
//@ fn collect_center_or_all
//@ spec
        requires clone_ok::<P>(), default_ok::<P>(), only_collect_centers ==> maxdepth >= 0,
        ensures ats(final(pc).data@) == ats(old(pc).data@) + cell(only_collect_centers, n.got(deeper(depth as int), maxdepth as int)), maxdepth < 0 ==> final(pc).data@ == old(pc).data@ + n.pts(),
        decreases *n, 1int,
//@ enditem
/// the items of a set, each once (assumed: std)
#[verifier::external_body]
pub fn push_items<P: Eq + Hash>(v: &mut Vec<P>, s: HashSet<P>)
    ensures final(v)@.take(old(v)@.len() as int) == old(v)@, final(v)@.skip(old(v)@.len() as int).no_duplicates(), final(v)@.skip(old(v)@.len() as int).to_set() == s@,
{ v.extend(s.into_iter()); }
pub proof fn distinct<P>(a: Seq<P>, b: Seq<P>)
    requires a.no_duplicates(), a.to_multiset() == b.to_multiset()
    ensures b.no_duplicates(), a.to_set() == b.to_set(), a.len() == b.len()
{
    a.to_multiset_ensures(); b.to_multiset_ensures();
    a.lemma_multiset_has_no_duplicates(); b.lemma_multiset_has_no_duplicates_conv();
    assert forall|x: P| a.to_set().contains(x) == b.to_set().contains(x) by { assert(a.contains(x) == a.to_multiset().contains(x)); assert(b.contains(x) == b.to_multiset().contains(x)); }
    assert(a.to_set() =~= b.to_set());
}
impl<P: Is3D> OcTree<P> {
    /// the points of the tree
    pub closed spec fn all(&self) -> Seq<P> { match self.root { Some(n) => n.pts(), None => Seq::empty() } }
    pub closed spec fn wf(&self) -> bool { match self.root { Some(n) => n.wf(), None => true } }
    /// every point is in the cell it belongs to
    pub closed spec fn cells(&self) -> bool { match self.root { Some(n) => n.placed(at3(self.bb.min), at3(self.bb.max)), None => true } }
    pub closed spec fn collected(&self, limit: int) -> Seq<C3> { match self.root { Some(n) => n.got(0, limit), None => Seq::empty() } }
    /// what a collection cannot be short of or exceed
    pub proof fn collected_some(&self, limit: int)
        requires self.wf()
        ensures self.collected(limit).len() <= self.all().len(), self.all().len() > 0 ==> self.collected(limit).len() > 0
    { match self.root { Some(n) => n.got_some(0, limit), None => {} } }
}
//@ impl IsTree3D for OcTree
//@ header impl<P: IsBuildable3D + Clone + Default + Eq + Hash> OcTree<P>
//@ fn size
//@ ret r
//@ spec
        requires self.all().len() <= usize::MAX,
        ensures r == self.all().len(),
//@ fn to_pointcloud
//@ ret r
//@ spec
        requires clone_ok::<P>(), default_ok::<P>(),
        ensures r.data@ == self.all(),
//@ fn build
//@ replace `unique_data.extend(set.into_iter())` => `push_items(&mut unique_data, set)` ; the wrapped call is the trusted body of push_items
//@ ret r
//@ spec
        requires clone_ok::<P>(), vstd::std_specs::hash::obeys_key_model::<P>(),
        ensures r.is_ok() == volume(pc.data@), r.is_err() ==> *final(self) == *old(self),
            r.is_ok() ==> final(self).wf() && final(self).cells() && final(self).all().no_duplicates() && final(self).all().to_set() == pc.data@.to_set(),
//@ start
        let ghost s = pc.data@;
//@ loop 0 iter it
//@ loop 0 inv
            invariant it.seq() == s, set@ == s.take(it.index@).to_set(), vstd::std_specs::hash::obeys_key_model::<P>(),
//@ loop 0 before
        proof { assert(s.take(0) =~= Seq::empty()); assert(set@ =~= s.take(0).to_set()); }
//@ loop 0 start
            proof { let i = it.index@; assert(s.take(i + 1) =~= s.take(i).push(p)); assert(s.take(i + 1).to_set() =~= s.take(i).to_set().insert(p)) by { assert forall|x: P| s.take(i + 1).to_set().contains(x) == (s.take(i).to_set().contains(x) || x == p) by { if s.take(i).contains(x) { let k = choose|k: int| 0 <= k < i && s[k] == x; assert(s.take(i + 1)[k] == x); } if x == p { assert(s.take(i + 1)[i] == p); } } } }
//@ loop 0 after
        proof { assert(s.take(s.len() as int) =~= s); }
//@ after `unique_data.extend`
        let ghost u = unique_data@;
        proof {
            assert(u.skip(0) =~= u);
            assert(s.to_set().contains(s[0])) by { assert(s.contains(s[0])); }
            assert(u.contains(s[0])); 
        }
//@ tail
        proof { distinct(u, self.all()); }
//@ enditem
//@ impl IsOcTree for OcTree
//@ header impl<P: IsBuildable3D + Clone + Default + Eq + Hash> OcTree<P>
//@ fn collect
//@ ret r
//@ spec
        requires clone_ok::<P>(), default_ok::<P>(),
        ensures ats(r.data@) == self.collected(maxdepth as int), maxdepth < 0 ==> r.data@ == self.all(),
//@ tail
        proof { assert(ats(result.data@) =~= self.collected(maxdepth as int)); if maxdepth < 0 { assert(result.data@ =~= self.all()); } }
//@ enditem
} // verus!
fn main() {}

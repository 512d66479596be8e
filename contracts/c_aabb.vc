#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::ops::*;
use std::marker::PhantomData;
verus! {
//@include float.inc
broadcast use {vstd::seq_lib::group_seq_properties, fl::ax};
//@include base.inc
//@include num.inc
//@include pos.inc
//@include pos2.inc
//@include pos3.inc
//@include point2.inc
//@include point3.inc
//@include flemmas.inc
//@ file src/is_mergeable.rs
//@ trait IsMergeable
//@ header pub trait IsMergeable: Sized
//@ ghost
    spec fn merged(a: &Self, b: &Self, r: &Self) -> bool;
    spec fn mergeable(a: &Self, b: &Self) -> bool;
//@ fn consume
//@ spec
        requires Self::mergeable(old(self), &other),
        ensures Self::merged(old(self), &other, final(self)),
//@ enditem
/// the query appended to `a`, giving `b`, exactly the elements with p (in some order, possibly repeated)
pub open spec fn added<T>(a: Seq<&T>, b: Seq<&T>, p: spec_fn(T) -> bool) -> bool {
    &&& a.len() <= b.len()
    &&& b.take(a.len() as int) == a
    &&& forall|j: int| a.len() <= j < b.len() ==> p(*(#[trigger] b[j]))
    &&& forall|x: T| #[trigger] p(x) ==> exists|j: int| a.len() <= j < b.len() && *(#[trigger] b[j]) == x
}
pub proof fn added_none<T>(a: Seq<&T>, p: spec_fn(T) -> bool)
    requires forall|x: T| !#[trigger] p(x)
    ensures added(a, a, p)
{ assert(a.take(a.len() as int) =~= a); }
pub proof fn added_both<T>(a: Seq<&T>, b: Seq<&T>, c: Seq<&T>, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool, r: spec_fn(T) -> bool)
    requires added(a, b, p), added(b, c, q), forall|x: T| #[trigger] r(x) == (p(x) || q(x)),
    ensures added(a, c, r)
{
    assert(c.take(a.len() as int) =~= c.take(b.len() as int).take(a.len() as int));
    assert forall|j: int| a.len() <= j < c.len() implies r(*(#[trigger] c[j])) by {
        if j < b.len() { assert(c[j] == c.take(b.len() as int)[j]); assert(p(*b[j])); } else { assert(q(*c[j])); }
    }
    assert forall|x: T| #[trigger] r(x) implies exists|j: int| a.len() <= j < c.len() && *(#[trigger] c[j]) == x by {
        if p(x) { let j = choose|j: int| a.len() <= j < b.len() && *(#[trigger] b[j]) == x; assert(c[j] == c.take(b.len() as int)[j]); }
        else { assert(q(x)); let j = choose|j: int| b.len() <= j < c.len() && *(#[trigger] c[j]) == x; }
    }
}
/// filtering a list element by element
pub proof fn added_scan<T>(a: Seq<&T>, b: Seq<&T>, s: Seq<T>, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool)
    requires added(a, b, p), forall|x: T| #[trigger] p(x) == (s.contains(x) && q(x)),
    ensures added(a, b, p)
{ }
/// records the calls of a callback
pub trait Visit<T> {
    spec fn seen(&self) -> Seq<T>;
    fn visit(&mut self, x: &T)
        ensures final(self).seen() == old(self).seen().push(*x);
}
pub open spec fn addedv<T>(a: Seq<T>, b: Seq<T>, p: spec_fn(T) -> bool) -> bool {
    &&& a.len() <= b.len()
    &&& b.take(a.len() as int) == a
    &&& forall|j: int| a.len() <= j < b.len() ==> p(#[trigger] b[j])
    &&& forall|x: T| #[trigger] p(x) ==> exists|j: int| a.len() <= j < b.len() && #[trigger] b[j] == x
}
pub proof fn addedv_none<T>(a: Seq<T>, p: spec_fn(T) -> bool)
    requires forall|x: T| !#[trigger] p(x)
    ensures addedv(a, a, p)
{ assert(a.take(a.len() as int) =~= a); }
pub proof fn addedv_both<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool, r: spec_fn(T) -> bool)
    requires addedv(a, b, p), addedv(b, c, q), forall|x: T| #[trigger] r(x) == (p(x) || q(x)),
    ensures addedv(a, c, r)
{
    assert(c.take(a.len() as int) =~= c.take(b.len() as int).take(a.len() as int));
    assert forall|j: int| a.len() <= j < c.len() implies r(#[trigger] c[j]) by {
        if j < b.len() { assert(c[j] == c.take(b.len() as int)[j]); assert(p(b[j])); } else { assert(q(c[j])); }
    }
    assert forall|x: T| #[trigger] r(x) implies exists|j: int| a.len() <= j < c.len() && #[trigger] c[j] == x by {
        if p(x) { let j = choose|j: int| a.len() <= j < b.len() && #[trigger] b[j] == x; assert(c[j] == c.take(b.len() as int)[j]); }
        else { assert(q(x)); let j = choose|j: int| b.len() <= j < c.len() && #[trigger] c[j] == x; }
    }
}
/// appending the k-th element of a list, if it has q, to those among the first k
pub proof fn scan_step<T>(a: Seq<&T>, b: Seq<&T>, c: Seq<&T>, s: Seq<T>, k: int, q: spec_fn(T) -> bool)
    requires 0 <= k < s.len(), added(a, b, |x: T| s.take(k).contains(x) && q(x)),
        q(s[k]) ==> c.len() == b.len() + 1 && c.take(b.len() as int) == b && *c[b.len() as int] == s[k], !q(s[k]) ==> c == b,
    ensures added(a, c, |x: T| s.take(k + 1).contains(x) && q(x)),
{
    let p = |x: T| s.take(k).contains(x) && q(x);
    let p1 = |x: T| x == s[k] && q(x);
    let r = |x: T| s.take(k + 1).contains(x) && q(x);
    take_contains(s, k);
    assert(added(b, c, p1)) by {
        if q(s[k]) { } else { assert(c.take(b.len() as int) =~= b); }
    }
    assert(forall|x: T| #[trigger] r(x) == (p(x) || p1(x)));
    added_both(a, b, c, p, p1, r);
}
pub proof fn scan_stepv<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>, s: Seq<T>, k: int, q: spec_fn(T) -> bool)
    requires 0 <= k < s.len(), addedv(a, b, |x: T| s.take(k).contains(x) && q(x)),
        q(s[k]) ==> c == b.push(s[k]), !q(s[k]) ==> c == b,
    ensures addedv(a, c, |x: T| s.take(k + 1).contains(x) && q(x)),
{
    let p = |x: T| s.take(k).contains(x) && q(x);
    let p1 = |x: T| x == s[k] && q(x);
    let r = |x: T| s.take(k + 1).contains(x) && q(x);
    take_contains(s, k);
    assert(addedv(b, c, p1)) by {
        assert(c.take(b.len() as int) =~= b);
        if q(s[k]) { assert(c[b.len() as int] == s[k]); }
    }
    assert(forall|x: T| #[trigger] r(x) == (p(x) || p1(x)));
    addedv_both(a, b, c, p, p1, r);
}
pub proof fn push_contains<T>(s: Seq<T>, e: T)
    ensures forall|x: T| #[trigger] s.push(e).contains(x) == (s.contains(x) || x == e)
{
    assert forall|x: T| #[trigger] s.push(e).contains(x) == (s.contains(x) || x == e) by {
        if s.contains(x) { let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == x; assert(s.push(e)[j] == x); }
        if x == e { assert(s.push(e)[s.len() as int] == x); }
    }
}
pub proof fn take_contains<T>(s: Seq<T>, k: int)
    requires 0 <= k < s.len()
    ensures forall|x: T| #[trigger] s.take(k + 1).contains(x) == (s.take(k).contains(x) || x == s[k])
{
    assert forall|x: T| #[trigger] s.take(k + 1).contains(x) == (s.take(k).contains(x) || x == s[k]) by {
        if s.take(k).contains(x) { let j = choose|j: int| 0 <= j < k && #[trigger] s.take(k)[j] == x; assert(s.take(k + 1)[j] == x); }
        if x == s[k] { assert(s.take(k + 1)[k] == x); }
        if s.take(k + 1).contains(x) { let j = choose|j: int| 0 <= j < k + 1 && #[trigger] s.take(k + 1)[j] == x; if j < k { assert(s.take(k)[j] == x); } }
    }
}
//@ file src/bounding_box_2d.rs
//@ struct BoundingBox2D
//@ enditem
impl Clone for BoundingBox2D { fn clone(&self) -> (r: Self) ensures r == *self { BoundingBox2D { min: self.min.clone(), max: self.max.clone() } } }
impl BoundingBox2D {
    pub open spec fn lo(&self, i: int) -> f64 { self.min.at(i) }
    pub open spec fn hi(&self, i: int) -> f64 { self.max.at(i) }
    /// the minimum is strictly below the maximum in every dimension
    pub open spec fn ok(&self) -> bool { self.lo(0).ieee_lt(self.hi(0)) && self.lo(1).ieee_lt(self.hi(1)) }
    pub open spec fn is(&self, a: spec_fn(int) -> f64, b: spec_fn(int) -> f64) -> bool { self.lo(0) == a(0) && self.hi(0) == b(0) && self.lo(1) == a(1) && self.hi(1) == b(1) }
    /// the open extents overlap in every dimension
    pub open spec fn overlaps(&self, a: BoundingBox2D) -> bool { self.lo(0).ieee_lt(a.hi(0)) && a.lo(0).ieee_lt(self.hi(0)) && self.lo(1).ieee_lt(a.hi(1)) && a.lo(1).ieee_lt(self.hi(1)) }
    /// the value lies strictly between the limits
    pub open spec fn crosses(&self, i: int, v: f64) -> bool { self.lo(i).ieee_lt(v) && v.ieee_lt(self.hi(i)) }
    /// `a` is a valid box within the limits of `self`
    pub open spec fn covers(&self, a: BoundingBox2D) -> bool { a.ok() && self.lo(0).ieee_le(a.lo(0)) && a.hi(0).ieee_le(self.hi(0)) && self.lo(1).ieee_le(a.lo(1)) && a.hi(1).ieee_le(self.hi(1)) }
}
pub proof fn covers_self2(a: BoundingBox2D) requires a.ok() ensures a.covers(a) { lt_facts(a.lo(0), a.hi(0)); tri(a.lo(0), a.lo(0)); tri(a.hi(0), a.hi(0)); lt_facts(a.lo(1), a.hi(1)); tri(a.lo(1), a.lo(1)); tri(a.hi(1), a.hi(1)); }
pub proof fn covers_trans2(b: BoundingBox2D, a: BoundingBox2D, x: BoundingBox2D) requires b.covers(a), a.covers(x) ensures b.covers(x) { le_trans(b.lo(0), a.lo(0), x.lo(0)); le_trans(x.hi(0), a.hi(0), b.hi(0)); le_trans(b.lo(1), a.lo(1), x.lo(1)); le_trans(x.hi(1), a.hi(1), b.hi(1)); }
/// whatever an element's box is hit by also hits every box around it
pub proof fn covers_hits2(b: BoundingBox2D, a: BoundingBox2D)
    requires b.covers(a)
    ensures forall|q: BoundingBox2D| #[trigger] a.overlaps(q) ==> b.overlaps(q), forall|i: int, v: f64| 0 <= i < 2 && #[trigger] a.crosses(i, v) ==> b.crosses(i, v),
{
    assert forall|q: BoundingBox2D| #[trigger] a.overlaps(q) implies b.overlaps(q) by { lt_le_trans(b.lo(0), a.lo(0), q.hi(0)); lt_le_trans(q.lo(0), a.hi(0), b.hi(0)); lt_le_trans(b.lo(1), a.lo(1), q.hi(1)); lt_le_trans(q.lo(1), a.hi(1), b.hi(1)); }
    assert forall|i: int, v: f64| 0 <= i < 2 && #[trigger] a.crosses(i, v) implies b.crosses(i, v) by { assert(i == 0 || i == 1); lt_le_trans(b.lo(i), a.lo(i), v); lt_le_trans(v, a.hi(i), b.hi(i)); }
}
/// the merged box is valid and covers both
pub proof fn merged_covers2(a: BoundingBox2D, b: BoundingBox2D, r: BoundingBox2D)
    requires a.ok(), b.ok(), BoundingBox2D::merged(&a, &b, &r),
    ensures r.ok(), r.covers(a), r.covers(b),
{
    assert forall|i: int| 0 <= i < 2 implies #[trigger] r.lo(i).ieee_le(a.lo(i)) && r.lo(i).ieee_le(b.lo(i)) && a.hi(i).ieee_le(r.hi(i)) && b.hi(i).ieee_le(r.hi(i)) && r.lo(i).ieee_lt(r.hi(i)) by {
        assert(i == 0 || i == 1 || i == 2);
        let (p, q, s, t) = (a.lo(i), b.lo(i), a.hi(i), b.hi(i));
        lt_facts(p, s); lt_facts(q, t);
        tri(p, q); tri(q, p); tri(s, t); tri(t, s); tri(p, p); tri(q, q); tri(s, s); tri(t, t);
        assert(r.lo(i) == (if q.ieee_lt(p) { q } else { p }) && r.hi(i) == (if s.ieee_lt(t) { t } else { s }));
        lt_le_trans(q, p, s); lt_le_trans(q, t, s); lt_le_trans(p, s, t); lt_le_trans(q, p, t);
    }
    assert(r.lo(0).ieee_le(a.lo(0)) && r.lo(1).ieee_le(a.lo(1)));
}
//@ impl BoundingBox2D
//@ fn min_p
//@ ret r
//@ spec
        ensures r == self.min,
//@ fn max_p
//@ ret r
//@ spec
        ensures r == self.max,
//@ fn center_bb
//@ ret r
//@ spec
        ensures true,
//@ fn collides_with
//@ ret r
//@ spec
        requires self.ok(), other.ok(),
        ensures r == self.overlaps(*other),
//@ fn crossing_x_value
//@ ret r
//@ spec
        ensures r == self.crosses(0, x),
//@ fn crossing_y_value
//@ ret r
//@ spec
        ensures r == self.crosses(1, y),
//@ enditem
//@ impl IsMergeable for BoundingBox2D
//@ ghost
    open spec fn merged(a: &Self, b: &Self, r: &Self) -> bool {
        r.is(|i: int| if b.min.at(i).ieee_lt(a.min.at(i)) { b.min.at(i) } else { a.min.at(i) }, |i: int| if a.max.at(i).ieee_lt(b.max.at(i)) { b.max.at(i) } else { a.max.at(i) })
    }
    open spec fn mergeable(a: &Self, b: &Self) -> bool { a.ok() && b.ok() }
//@ fn consume
//@ enditem
//@ file src/has_bounding_box_2d.rs
//@ trait HasBoundingBox2D
//@ header pub trait HasBoundingBox2D: Sized
//@ ghost
    /// the element has a bounding box
    spec fn has_bb(&self) -> bool;
    spec fn bb(&self) -> BoundingBox2D;
//@ fn bounding_box
//@ ret r
//@ spec
        requires self.has_bb(),
        ensures r == self.bb(), r.ok(),
//@ enditem
pub open spec fn all_bb2<HB: HasBoundingBox2D>(s: Seq<HB>) -> bool { forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).has_bb() && s[j].bb().ok() }
//@ file src/aa_bb_tree_2d.rs
//@ struct AABBTree2DLeaf
//@ enditem
//@ struct AABBTree2DBranch
//@ enditem
//@ enum AABBTree2D
//@ enditem

impl<HB: HasBoundingBox2D + Clone> AABBTree2D<HB> {
    /// x is an element of some leaf
    pub open spec fn holds(&self, x: HB) -> bool decreases *self {
        match *self { AABBTree2D::Empty => false, AABBTree2D::Leaf(l) => l.holds(x), AABBTree2D::Branch(b) => b.left.holds(x) || b.right.holds(x) }
    }
    /// every node's box is valid and covers the boxes of all elements below
    pub open spec fn wf(&self) -> bool decreases *self {
        match *self { AABBTree2D::Empty => true, AABBTree2D::Leaf(l) => l.wf(), AABBTree2D::Branch(b) => b.left.wf() && b.right.wf() && b.bb.ok() && (forall|x: HB| #[trigger] b.left.holds(x) ==> x.has_bb() && b.bb.covers(x.bb())) && (forall|x: HB| #[trigger] b.right.holds(x) ==> x.has_bb() && b.bb.covers(x.bb())) }
    }
}
impl<HB: HasBoundingBox2D + Clone> AABBTree2DLeaf<HB> {
    pub open spec fn holds(&self, x: HB) -> bool { self.data@.contains(x) }
    pub open spec fn wf(&self) -> bool { self.bb.ok() && forall|x: HB| #[trigger] self.data@.contains(x) ==> x.has_bb() && self.bb.covers(x.bb()) }
}
impl<HB: HasBoundingBox2D + Clone> AABBTree2DBranch<HB> {
    pub open spec fn holds(&self, x: HB) -> bool { self.left.holds(x) || self.right.holds(x) }
    pub open spec fn wf(&self) -> bool { self.left.wf() && self.right.wf() && self.bb.ok() && (forall|x: HB| #[trigger] self.left.holds(x) ==> x.has_bb() && self.bb.covers(x.bb())) && (forall|x: HB| #[trigger] self.right.holds(x) ==> x.has_bb() && self.bb.covers(x.bb())) }
}
//@ impl AABBTree2DLeaf
//@ fn new
//@ ret r
//@ spec
        ensures r.data == data, r.bb == bb,
//@ fn any
//@ sigreplace `&dyn Fn(&HB) -> bool` => `&impl Fn(&HB) -> bool` ; a trait object replaced by a generic
//@ ret r
//@ spec
        requires forall|e: HB| self.holds(e) ==> #[trigger] call_requires(f, (&e,)),
        ensures r ==> exists|e: HB| self.holds(e) && #[trigger] call_ensures(f, (&e,), true), !r ==> forall|e: HB| self.holds(e) ==> #[trigger] call_ensures(f, (&e,), false),
//@ loop 0 iter it
//@ loop 0 inv
                invariant it.seq().len() == self.data@.len(), forall|i: int| 0 <= i < self.data@.len() ==> *(#[trigger] it.seq()[i]) == self.data@[i],
                    forall|e: HB| self.holds(e) ==> #[trigger] call_requires(f, (&e,)),
                    forall|i: int| 0 <= i < it.index@ ==> call_ensures(f, (&#[trigger] self.data@[i],), false),
//@ loop 0 start
                proof { assert(self.holds(self.data@[it.index@])); }
//@ fn for_each_collision_candidate
//@ sigreplace `&mut dyn FnMut(&HB)` => `&mut impl Visit<HB>` ; the callback is any visitor that records its calls
//@ spec
        requires self.wf(), bb.ok(),
        ensures addedv(old(f).seen(), final(f).seen(), |e: HB| self.holds(e) && e.bb().overlaps(*bb)),
//@ replace `f(x)` => `f.visit(x)` ; calling the visitor
//@ start
        let ghost r0 = f.seen();
        let ghost qh = |e: HB| e.bb().overlaps(*bb);
        let ghost p = |e: HB| self.holds(e) && e.bb().overlaps(*bb);
        proof {
            assert forall|e: HB| #[trigger] p(e) implies self.bb.overlaps(*bb) by { covers_hits2(self.bb, e.bb()); }
            if !self.bb.overlaps(*bb) { addedv_none(r0, p); }
        }
//@ loop 0 iter it
//@ loop 0 inv
                invariant it.seq().len() == self.data@.len(), forall|i: int| 0 <= i < self.data@.len() ==> *(#[trigger] it.seq()[i]) == self.data@[i],
                    self.wf(), bb.ok(), addedv(r0, f.seen(), |e: HB| self.data@.take(it.index@).contains(e) && qh(e)), qh == (|e: HB| e.bb().overlaps(*bb)),
//@ loop 0 before
            proof { addedv_none(r0, |e: HB| self.data@.take(0).contains(e) && qh(e)); }
//@ loop 0 start
                let ghost r1 = f.seen(); let ghost k = it.index@;
                proof { assert(self.data@.contains(self.data@[k])); }
//@ loop 0 end
                proof { scan_stepv(r0, r1, f.seen(), self.data@, k, qh); }
//@ loop 0 after
            proof { assert(self.data@.take(self.data@.len() as int) =~= self.data@); assert((|e: HB| self.data@.take(self.data@.len() as int).contains(e) && qh(e)) =~= p); }
//@ fn bb_colliding
//@ spec
        requires self.wf(), bb.ok(),
        ensures added(old(result)@, final(result)@, |e: HB| self.holds(e) && e.bb().overlaps(*bb)),
//@ start
        let ghost r0 = result@;
        let ghost qh = |e: HB| e.bb().overlaps(*bb);
        let ghost p = |e: HB| self.holds(e) && e.bb().overlaps(*bb);
        proof {
            assert forall|e: HB| #[trigger] p(e) implies self.bb.overlaps(*bb) by { covers_hits2(self.bb, e.bb()); }
            if !(self.bb.overlaps(*bb)) { added_none(r0, p); }
        }
//@ loop 0 iter it
//@ loop 0 inv
                invariant it.seq().len() == self.data@.len(), forall|i: int| 0 <= i < self.data@.len() ==> *(#[trigger] it.seq()[i]) == self.data@[i],
                    self.wf(), bb.ok(), added(r0, result@, |e: HB| self.data@.take(it.index@).contains(e) && qh(e)), qh == (|e: HB| e.bb().overlaps(*bb)),
//@ loop 0 before
            proof { added_none(r0, |e: HB| self.data@.take(0).contains(e) && qh(e)); }
//@ loop 0 start
                let ghost r1 = result@; let ghost k = it.index@;
                proof { assert(self.data@.contains(self.data@[k])); }
//@ loop 0 end
                proof { assert(qh(self.data@[k]) ==> result@.take(r1.len() as int) =~= r1); scan_step(r0, r1, result@, self.data@, k, qh); }
//@ loop 0 after
            proof { assert(self.data@.take(self.data@.len() as int) =~= self.data@); assert((|e: HB| self.data@.take(self.data@.len() as int).contains(e) && qh(e)) =~= p); }
//@ fn bb_crossing_x_value
//@ spec
        requires self.wf(), true,
        ensures added(old(result)@, final(result)@, |e: HB| self.holds(e) && e.bb().crosses(0, x)),
//@ start
        let ghost r0 = result@;
        let ghost qh = |e: HB| e.bb().crosses(0, x);
        let ghost p = |e: HB| self.holds(e) && e.bb().crosses(0, x);
        proof {
            assert forall|e: HB| #[trigger] p(e) implies self.bb.crosses(0, x) by { covers_hits2(self.bb, e.bb()); }
            if !(self.bb.crosses(0, x)) { added_none(r0, p); }
        }
//@ loop 0 iter it
//@ loop 0 inv
                invariant it.seq().len() == self.data@.len(), forall|i: int| 0 <= i < self.data@.len() ==> *(#[trigger] it.seq()[i]) == self.data@[i],
                    self.wf(), true, added(r0, result@, |e: HB| self.data@.take(it.index@).contains(e) && qh(e)), qh == (|e: HB| e.bb().crosses(0, x)),
//@ loop 0 before
            proof { added_none(r0, |e: HB| self.data@.take(0).contains(e) && qh(e)); }
//@ loop 0 start
                let ghost r1 = result@; let ghost k = it.index@;
                proof { assert(self.data@.contains(self.data@[k])); }
//@ loop 0 end
                proof { assert(qh(self.data@[k]) ==> result@.take(r1.len() as int) =~= r1); scan_step(r0, r1, result@, self.data@, k, qh); }
//@ loop 0 after
            proof { assert(self.data@.take(self.data@.len() as int) =~= self.data@); assert((|e: HB| self.data@.take(self.data@.len() as int).contains(e) && qh(e)) =~= p); }
//@ fn bb_crossing_y_value
//@ spec
        requires self.wf(), true,
        ensures added(old(result)@, final(result)@, |e: HB| self.holds(e) && e.bb().crosses(1, y)),
//@ start
        let ghost r0 = result@;
        let ghost qh = |e: HB| e.bb().crosses(1, y);
        let ghost p = |e: HB| self.holds(e) && e.bb().crosses(1, y);
        proof {
            assert forall|e: HB| #[trigger] p(e) implies self.bb.crosses(1, y) by { covers_hits2(self.bb, e.bb()); }
            if !(self.bb.crosses(1, y)) { added_none(r0, p); }
        }
//@ loop 0 iter it
//@ loop 0 inv
                invariant it.seq().len() == self.data@.len(), forall|i: int| 0 <= i < self.data@.len() ==> *(#[trigger] it.seq()[i]) == self.data@[i],
                    self.wf(), true, added(r0, result@, |e: HB| self.data@.take(it.index@).contains(e) && qh(e)), qh == (|e: HB| e.bb().crosses(1, y)),
//@ loop 0 before
            proof { added_none(r0, |e: HB| self.data@.take(0).contains(e) && qh(e)); }
//@ loop 0 start
                let ghost r1 = result@; let ghost k = it.index@;
                proof { assert(self.data@.contains(self.data@[k])); }
//@ loop 0 end
                proof { assert(qh(self.data@[k]) ==> result@.take(r1.len() as int) =~= r1); scan_step(r0, r1, result@, self.data@, k, qh); }
//@ loop 0 after
            proof { assert(self.data@.take(self.data@.len() as int) =~= self.data@); assert((|e: HB| self.data@.take(self.data@.len() as int).contains(e) && qh(e)) =~= p); }
//@ enditem
//@ impl AABBTree2DBranch
//@ fn new
//@ ret r
//@ spec
        ensures r.left == left, r.right == right, r.bb == bb,
            forall|x: HB| #[trigger] AABBTree2D::Branch(r).holds(x) == (left.holds(x) || right.holds(x)),
//@ fn any
//@ sigreplace `&dyn Fn(&HB) -> bool` => `&impl Fn(&HB) -> bool` ; a trait object replaced by a generic
//@ ret r
//@ spec
        requires forall|e: HB| self.holds(e) ==> #[trigger] call_requires(f, (&e,)),
        ensures r ==> exists|e: HB| self.holds(e) && #[trigger] call_ensures(f, (&e,), true), !r ==> forall|e: HB| self.holds(e) ==> #[trigger] call_ensures(f, (&e,), false),
        decreases *self, 0int,
//@ fn for_each_collision_candidate
//@ sigreplace `&mut dyn FnMut(&HB)` => `&mut impl Visit<HB>` ; the callback is any visitor that records its calls
//@ spec
        requires self.wf(), bb.ok(),
        ensures addedv(old(f).seen(), final(f).seen(), |e: HB| self.holds(e) && e.bb().overlaps(*bb)),
        decreases *self, 0int,
//@ start
        let ghost r0 = f.seen();
        let ghost qh = |e: HB| e.bb().overlaps(*bb);
        let ghost p = |e: HB| self.holds(e) && e.bb().overlaps(*bb);
        proof {
            assert forall|e: HB| #[trigger] p(e) implies self.bb.overlaps(*bb) by { covers_hits2(self.bb, e.bb()); }
            if !self.bb.overlaps(*bb) { addedv_none(r0, p); }
        }
//@ after `self.left.for_each_collision_candidate(bb, f);`
            let ghost r1 = f.seen();
//@ after `self.right.for_each_collision_candidate(bb, f);`
            proof { addedv_both(r0, r1, f.seen(), |e: HB| self.left.holds(e) && e.bb().overlaps(*bb), |e: HB| self.right.holds(e) && e.bb().overlaps(*bb), p); }
//@ fn bb_colliding
//@ spec
        requires self.wf(), bb.ok(),
        ensures added(old(result)@, final(result)@, |e: HB| self.holds(e) && e.bb().overlaps(*bb)),
        decreases *self, 0int,
//@ start
        let ghost r0 = result@;
        let ghost pl = |e: HB| self.left.holds(e) && e.bb().overlaps(*bb);
        let ghost pr = |e: HB| self.right.holds(e) && e.bb().overlaps(*bb);
        let ghost p = |e: HB| self.holds(e) && e.bb().overlaps(*bb);
        proof {
            assert forall|e: HB| #[trigger] p(e) implies self.bb.overlaps(*bb) by { covers_hits2(self.bb, e.bb()); }
            if !(self.bb.overlaps(*bb)) { added_none(r0, p); }
        }
//@ after `self.left.bb_colliding(bb, result);`
            let ghost r1 = result@;
//@ after `self.right.bb_colliding(bb, result);`
            proof { added_both(r0, r1, result@, pl, pr, p); }
//@ fn bb_crossing_x_value
//@ spec
        requires self.wf(), true,
        ensures added(old(result)@, final(result)@, |e: HB| self.holds(e) && e.bb().crosses(0, x)),
        decreases *self, 0int,
//@ start
        let ghost r0 = result@;
        let ghost pl = |e: HB| self.left.holds(e) && e.bb().crosses(0, x);
        let ghost pr = |e: HB| self.right.holds(e) && e.bb().crosses(0, x);
        let ghost p = |e: HB| self.holds(e) && e.bb().crosses(0, x);
        proof {
            assert forall|e: HB| #[trigger] p(e) implies self.bb.crosses(0, x) by { covers_hits2(self.bb, e.bb()); }
            if !(self.bb.crosses(0, x)) { added_none(r0, p); }
        }
//@ after `self.left.bb_crossing_x_value(x, result);`
            let ghost r1 = result@;
//@ after `self.right.bb_crossing_x_value(x, result);`
            proof { added_both(r0, r1, result@, pl, pr, p); }
//@ fn bb_crossing_y_value
//@ spec
        requires self.wf(), true,
        ensures added(old(result)@, final(result)@, |e: HB| self.holds(e) && e.bb().crosses(1, y)),
        decreases *self, 0int,
//@ start
        let ghost r0 = result@;
        let ghost pl = |e: HB| self.left.holds(e) && e.bb().crosses(1, y);
        let ghost pr = |e: HB| self.right.holds(e) && e.bb().crosses(1, y);
        let ghost p = |e: HB| self.holds(e) && e.bb().crosses(1, y);
        proof {
            assert forall|e: HB| #[trigger] p(e) implies self.bb.crosses(1, y) by { covers_hits2(self.bb, e.bb()); }
            if !(self.bb.crosses(1, y)) { added_none(r0, p); }
        }
//@ after `self.left.bb_crossing_y_value(y, result);`
            let ghost r1 = result@;
//@ after `self.right.bb_crossing_y_value(y, result);`
            proof { added_both(r0, r1, result@, pl, pr, p); }
//@ enditem
//@ impl AABBTree2D
//@ fn new
//@ ret r
//@ spec
        requires all_bb2(data@), forall|a: HB, b: HB| #[trigger] call_ensures(HB::clone, (&a,), b) ==> a == b,
        ensures r.wf(), forall|x: HB| #[trigger] r.holds(x) == data@.contains(x),
//@ fn any
//@ sigreplace `&dyn Fn(&HB) -> bool` => `&impl Fn(&HB) -> bool` ; a trait object replaced by a generic
//@ ret r
//@ spec
        requires forall|e: HB| self.holds(e) ==> #[trigger] call_requires(f, (&e,)),
        ensures r ==> exists|e: HB| self.holds(e) && #[trigger] call_ensures(f, (&e,), true), !r ==> forall|e: HB| self.holds(e) ==> #[trigger] call_ensures(f, (&e,), false),
        decreases *self, 1int,
//@ fn for_each_collision_candidate
//@ sigreplace `&mut dyn FnMut(&HB)` => `&mut impl Visit<HB>` ; the callback is any visitor that records its calls
//@ spec
        requires self.wf(), bb.ok(),
        ensures addedv(old(f).seen(), final(f).seen(), |e: HB| self.holds(e) && e.bb().overlaps(*bb)),
        decreases *self, 1int,
//@ start
        proof { match self { AABBTree2D::Empty => addedv_none(old(f).seen(), |e: HB| self.holds(e) && e.bb().overlaps(*bb)), _ => { } } }
//@ tailwrap
        proof {
            match self {
                AABBTree2D::Empty => { }
                AABBTree2D::Leaf(l) => { assert((|e: HB| l.holds(e) && e.bb().overlaps(*bb)) =~= (|e: HB| self.holds(e) && e.bb().overlaps(*bb))); }
                AABBTree2D::Branch(b) => { assert((|e: HB| b.holds(e) && e.bb().overlaps(*bb)) =~= (|e: HB| self.holds(e) && e.bb().overlaps(*bb))); }
            }
        }
//@ fn bb_colliding
//@ spec
        requires self.wf(), bb.ok(),
        ensures added(old(result)@, final(result)@, |e: HB| self.holds(e) && e.bb().overlaps(*bb)),
        decreases *self, 1int,
//@ start
        proof { match self { AABBTree2D::Empty => added_none(old(result)@, |e: HB| self.holds(e) && e.bb().overlaps(*bb)), _ => { } } }
//@ tailwrap
        proof {
            match self {
                AABBTree2D::Empty => { }
                AABBTree2D::Leaf(l) => { assert((|e: HB| l.holds(e) && e.bb().overlaps(*bb)) =~= (|e: HB| self.holds(e) && e.bb().overlaps(*bb))); }
                AABBTree2D::Branch(b) => { assert((|e: HB| b.holds(e) && e.bb().overlaps(*bb)) =~= (|e: HB| self.holds(e) && e.bb().overlaps(*bb))); }
            }
        }
//@ fn bb_crossing_x_value
//@ spec
        requires self.wf(), true,
        ensures added(old(result)@, final(result)@, |e: HB| self.holds(e) && e.bb().crosses(0, x)),
        decreases *self, 1int,
//@ start
        proof { match self { AABBTree2D::Empty => added_none(old(result)@, |e: HB| self.holds(e) && e.bb().crosses(0, x)), _ => { } } }
//@ tailwrap
        proof {
            match self {
                AABBTree2D::Empty => { }
                AABBTree2D::Leaf(l) => { assert((|e: HB| l.holds(e) && e.bb().crosses(0, x)) =~= (|e: HB| self.holds(e) && e.bb().crosses(0, x))); }
                AABBTree2D::Branch(b) => { assert((|e: HB| b.holds(e) && e.bb().crosses(0, x)) =~= (|e: HB| self.holds(e) && e.bb().crosses(0, x))); }
            }
        }
//@ fn bb_crossing_y_value
//@ spec
        requires self.wf(), true,
        ensures added(old(result)@, final(result)@, |e: HB| self.holds(e) && e.bb().crosses(1, y)),
        decreases *self, 1int,
//@ start
        proof { match self { AABBTree2D::Empty => added_none(old(result)@, |e: HB| self.holds(e) && e.bb().crosses(1, y)), _ => { } } }
//@ tailwrap
        proof {
            match self {
                AABBTree2D::Empty => { }
                AABBTree2D::Leaf(l) => { assert((|e: HB| l.holds(e) && e.bb().crosses(1, y)) =~= (|e: HB| self.holds(e) && e.bb().crosses(1, y))); }
                AABBTree2D::Branch(b) => { assert((|e: HB| b.holds(e) && e.bb().crosses(1, y)) =~= (|e: HB| self.holds(e) && e.bb().crosses(1, y))); }
            }
        }
//@ fn new_rec
//@ ret r
//@ spec
        requires all_bb2(data@), depth <= maxdepth, forall|a: HB, b: HB| #[trigger] call_ensures(HB::clone, (&a,), b) ==> a == b,
        ensures r.wf(), forall|x: HB| #[trigger] r.holds(x) == data@.contains(x),
        decreases maxdepth - depth,
//@ loop 0 iter it
//@ loop 0 inv
                        invariant it.seq().len() == data@.len(), forall|i: int| 0 <= i < data@.len() ==> *(#[trigger] it.seq()[i]) == data@[i],
                            all_bb2(data@), forall|a: HB, b: HB| #[trigger] call_ensures(HB::clone, (&a,), b) ==> a == b,
                            forall|x: HB| #[trigger] coll__0@.contains(x) ==> data@.contains(x) && x.bb().lo((if compx { 0int } else { 1int })).ieee_lt(center.at((if compx { 0int } else { 1int }))),
                            forall|i: int| 0 <= i < it.index@ && (#[trigger] data@[i]).bb().lo((if compx { 0int } else { 1int })).ieee_lt(center.at((if compx { 0int } else { 1int }))) ==> coll__0@.contains(data@[i]),
//@ loop 0 start
                        let ghost idx = it.index@;
                        proof { assert(data@.contains(data@[idx])); }
//@ loop 0 end
                        proof { assert(elem__0 == data@[idx]); push_contains(coll__0@, elem__0); }
//@ loop 1 iter it
//@ loop 1 inv
                        invariant it.seq().len() == data@.len(), forall|i: int| 0 <= i < data@.len() ==> *(#[trigger] it.seq()[i]) == data@[i],
                            all_bb2(data@), forall|a: HB, b: HB| #[trigger] call_ensures(HB::clone, (&a,), b) ==> a == b,
                            forall|x: HB| #[trigger] coll__1@.contains(x) ==> data@.contains(x) && center.at((if compx { 0int } else { 1int })).ieee_le(x.bb().hi((if compx { 0int } else { 1int }))),
                            forall|i: int| 0 <= i < it.index@ && center.at((if compx { 0int } else { 1int })).ieee_le((#[trigger] data@[i]).bb().hi((if compx { 0int } else { 1int }))) ==> coll__1@.contains(data@[i]),
//@ loop 1 start
                        let ghost idx = it.index@;
                        proof { assert(data@.contains(data@[idx])); }
//@ loop 1 end
                        proof { assert(elem__1 == data@[idx]); push_contains(coll__1@, elem__1); }
//@ before `if dleft.is_empty()`
                    proof {
                        assert forall|j: int| 0 <= j < dleft@.len() implies (#[trigger] dleft@[j]).has_bb() && dleft@[j].bb().ok() by { assert(dleft@.contains(dleft@[j])); assert(bb.covers(dleft@[j].bb())); }
                        assert forall|j: int| 0 <= j < dright@.len() implies (#[trigger] dright@[j]).has_bb() && dright@[j].bb().ok() by { assert(dright@.contains(dright@[j])); assert(bb.covers(dright@[j].bb())); }
                        if dleft@.len() > 0 && dright@.len() > 0 {
                            let e = dleft@[0];
                            assert(dleft@.contains(e));
                            lt_facts(e.bb().lo((if compx { 0int } else { 1int })), center.at((if compx { 0int } else { 1int })));
                            assert forall|x: HB| #[trigger] data@.contains(x) implies dleft@.contains(x) || dright@.contains(x) by {
                                let j = choose|j: int| 0 <= j < data@.len() && data@[j] == x;
                                assert(data@[j].bb().ok());
                                lt_facts(x.bb().lo((if compx { 0int } else { 1int })), x.bb().hi((if compx { 0int } else { 1int })));
                                tri(x.bb().lo((if compx { 0int } else { 1int })), center.at((if compx { 0int } else { 1int }))); tri(center.at((if compx { 0int } else { 1int })), x.bb().lo((if compx { 0int } else { 1int }))); tri(center.at((if compx { 0int } else { 1int })), x.bb().hi((if compx { 0int } else { 1int })));
                                lt_le_trans(center.at((if compx { 0int } else { 1int })), x.bb().lo((if compx { 0int } else { 1int })), x.bb().hi((if compx { 0int } else { 1int }))); if center.at((if compx { 0int } else { 1int })).ieee_lt(x.bb().hi((if compx { 0int } else { 1int }))) { lt_facts(center.at((if compx { 0int } else { 1int })), x.bb().hi((if compx { 0int } else { 1int }))); }
                            }
                        }
                    }
//@ before `AABBTree2D::Branch(AABBTree2DBranch::new(`
                        proof {
                            assert(forall|x: HB| #[trigger] left.holds(x) ==> data@.contains(x));
                            assert(forall|x: HB| #[trigger] right.holds(x) ==> data@.contains(x));
                            assert(forall|x: HB| #[trigger] data@.contains(x) ==> left.holds(x) || right.holds(x));
                        }
//@ fn is_left_of
//@ ret r
//@ spec
        ensures r == (if compx { bb.lo(0).ieee_lt(center.at(0)) } else { bb.lo(1).ieee_lt(center.at(1)) }),
//@ fn is_right_of
//@ ret r
//@ spec
        ensures r == (if compx { center.at(0).ieee_le(bb.hi(0)) } else { center.at(1).ieee_le(bb.hi(1)) }),
//@ fn bb_of
//@ ret r
//@ spec
        requires all_bb2(data@),
        ensures r.is_ok() == (data@.len() > 0), r.is_ok() ==> r->Ok_0.ok() && forall|x: HB| #[trigger] data@.contains(x) ==> x.has_bb() && r->Ok_0.covers(x.bb()),
//@ loop 0 iter it
//@ loop 0 inv
            invariant it.seq().len() == data@.len(), forall|i: int| 0 <= i < data@.len() ==> *(#[trigger] it.seq()[i]) == data@[i],
                all_bb2(data@), result.ok(), forall|i: int| 0 <= i < it.index@ ==> result.covers((#[trigger] data@[i]).bb()),
//@ loop 0 start
            let ghost b0 = result; let ghost k = it.index@;
//@ loop 0 end
            proof {
                merged_covers2(b0, data@[k].bb(), result);
                assert forall|i: int| 0 <= i < k + 1 implies result.covers((#[trigger] data@[i]).bb()) by { if i < k { covers_trans2(result, b0, data@[i].bb()); } }
            }
//@ enditem
//@ file src/bounding_box_3d.rs
//@ struct BoundingBox3D
//@ enditem
impl Clone for BoundingBox3D { fn clone(&self) -> (r: Self) ensures r == *self { BoundingBox3D { min: self.min.clone(), max: self.max.clone() } } }
impl BoundingBox3D {
    pub open spec fn lo(&self, i: int) -> f64 { self.min.at(i) }
    pub open spec fn hi(&self, i: int) -> f64 { self.max.at(i) }
    /// the minimum is strictly below the maximum in every dimension
    pub open spec fn ok(&self) -> bool { self.lo(0).ieee_lt(self.hi(0)) && self.lo(1).ieee_lt(self.hi(1)) && self.lo(2).ieee_lt(self.hi(2)) }
    pub open spec fn is(&self, a: spec_fn(int) -> f64, b: spec_fn(int) -> f64) -> bool { self.lo(0) == a(0) && self.hi(0) == b(0) && self.lo(1) == a(1) && self.hi(1) == b(1) && self.lo(2) == a(2) && self.hi(2) == b(2) }
    /// the open extents overlap in every dimension
    pub open spec fn overlaps(&self, a: BoundingBox3D) -> bool { self.lo(0).ieee_lt(a.hi(0)) && a.lo(0).ieee_lt(self.hi(0)) && self.lo(1).ieee_lt(a.hi(1)) && a.lo(1).ieee_lt(self.hi(1)) && self.lo(2).ieee_lt(a.hi(2)) && a.lo(2).ieee_lt(self.hi(2)) }
    /// the value lies strictly between the limits
    pub open spec fn crosses(&self, i: int, v: f64) -> bool { self.lo(i).ieee_lt(v) && v.ieee_lt(self.hi(i)) }
    /// `a` is a valid box within the limits of `self`
    pub open spec fn covers(&self, a: BoundingBox3D) -> bool { a.ok() && self.lo(0).ieee_le(a.lo(0)) && a.hi(0).ieee_le(self.hi(0)) && self.lo(1).ieee_le(a.lo(1)) && a.hi(1).ieee_le(self.hi(1)) && self.lo(2).ieee_le(a.lo(2)) && a.hi(2).ieee_le(self.hi(2)) }
}
pub proof fn covers_self3(a: BoundingBox3D) requires a.ok() ensures a.covers(a) { lt_facts(a.lo(0), a.hi(0)); tri(a.lo(0), a.lo(0)); tri(a.hi(0), a.hi(0)); lt_facts(a.lo(1), a.hi(1)); tri(a.lo(1), a.lo(1)); tri(a.hi(1), a.hi(1)); lt_facts(a.lo(2), a.hi(2)); tri(a.lo(2), a.lo(2)); tri(a.hi(2), a.hi(2)); }
pub proof fn covers_trans3(b: BoundingBox3D, a: BoundingBox3D, x: BoundingBox3D) requires b.covers(a), a.covers(x) ensures b.covers(x) { le_trans(b.lo(0), a.lo(0), x.lo(0)); le_trans(x.hi(0), a.hi(0), b.hi(0)); le_trans(b.lo(1), a.lo(1), x.lo(1)); le_trans(x.hi(1), a.hi(1), b.hi(1)); le_trans(b.lo(2), a.lo(2), x.lo(2)); le_trans(x.hi(2), a.hi(2), b.hi(2)); }
/// whatever an element's box is hit by also hits every box around it
pub proof fn covers_hits3(b: BoundingBox3D, a: BoundingBox3D)
    requires b.covers(a)
    ensures forall|q: BoundingBox3D| #[trigger] a.overlaps(q) ==> b.overlaps(q), forall|i: int, v: f64| 0 <= i < 3 && #[trigger] a.crosses(i, v) ==> b.crosses(i, v),
{
    assert forall|q: BoundingBox3D| #[trigger] a.overlaps(q) implies b.overlaps(q) by { lt_le_trans(b.lo(0), a.lo(0), q.hi(0)); lt_le_trans(q.lo(0), a.hi(0), b.hi(0)); lt_le_trans(b.lo(1), a.lo(1), q.hi(1)); lt_le_trans(q.lo(1), a.hi(1), b.hi(1)); lt_le_trans(b.lo(2), a.lo(2), q.hi(2)); lt_le_trans(q.lo(2), a.hi(2), b.hi(2)); }
    assert forall|i: int, v: f64| 0 <= i < 3 && #[trigger] a.crosses(i, v) implies b.crosses(i, v) by { assert(i == 0 || i == 1 || i == 2); lt_le_trans(b.lo(i), a.lo(i), v); lt_le_trans(v, a.hi(i), b.hi(i)); }
}
/// the merged box is valid and covers both
pub proof fn merged_covers3(a: BoundingBox3D, b: BoundingBox3D, r: BoundingBox3D)
    requires a.ok(), b.ok(), BoundingBox3D::merged(&a, &b, &r),
    ensures r.ok(), r.covers(a), r.covers(b),
{
    assert forall|i: int| 0 <= i < 3 implies #[trigger] r.lo(i).ieee_le(a.lo(i)) && r.lo(i).ieee_le(b.lo(i)) && a.hi(i).ieee_le(r.hi(i)) && b.hi(i).ieee_le(r.hi(i)) && r.lo(i).ieee_lt(r.hi(i)) by {
        assert(i == 0 || i == 1 || i == 2);
        let (p, q, s, t) = (a.lo(i), b.lo(i), a.hi(i), b.hi(i));
        lt_facts(p, s); lt_facts(q, t);
        tri(p, q); tri(q, p); tri(s, t); tri(t, s); tri(p, p); tri(q, q); tri(s, s); tri(t, t);
        assert(r.lo(i) == (if q.ieee_lt(p) { q } else { p }) && r.hi(i) == (if s.ieee_lt(t) { t } else { s }));
        lt_le_trans(q, p, s); lt_le_trans(q, t, s); lt_le_trans(p, s, t); lt_le_trans(q, p, t);
    }
    assert(r.lo(0).ieee_le(a.lo(0)) && r.lo(1).ieee_le(a.lo(1)) && r.lo(2).ieee_le(a.lo(2)));
}
//@ impl BoundingBox3D
//@ fn min_p
//@ ret r
//@ spec
        ensures r == self.min,
//@ fn max_p
//@ ret r
//@ spec
        ensures r == self.max,
//@ fn center_bb
//@ ret r
//@ spec
        ensures true,
//@ fn collides_with
//@ ret r
//@ spec
        requires self.ok(), other.ok(),
        ensures r == self.overlaps(*other),
//@ fn crossing_x_value
//@ ret r
//@ spec
        ensures r == self.crosses(0, x),
//@ fn crossing_y_value
//@ ret r
//@ spec
        ensures r == self.crosses(1, y),
//@ fn crossing_z_value
//@ ret r
//@ spec
        ensures r == self.crosses(2, z),
//@ enditem
//@ impl IsMergeable for BoundingBox3D
//@ ghost
    open spec fn merged(a: &Self, b: &Self, r: &Self) -> bool {
        r.is(|i: int| if b.min.at(i).ieee_lt(a.min.at(i)) { b.min.at(i) } else { a.min.at(i) }, |i: int| if a.max.at(i).ieee_lt(b.max.at(i)) { b.max.at(i) } else { a.max.at(i) })
    }
    open spec fn mergeable(a: &Self, b: &Self) -> bool { a.ok() && b.ok() }
//@ fn consume
//@ enditem
//@ file src/has_bounding_box_3d.rs
//@ trait HasBoundingBox3D
//@ header pub trait HasBoundingBox3D: Sized
//@ ghost
    /// the element has a bounding box
    spec fn has_bb(&self) -> bool;
    spec fn bb(&self) -> BoundingBox3D;
//@ fn bounding_box
//@ ret r
//@ spec
        requires self.has_bb(),
        ensures r == self.bb(), r.ok(),
//@ enditem
pub open spec fn all_bb3<HB: HasBoundingBox3D>(s: Seq<HB>) -> bool { forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).has_bb() && s[j].bb().ok() }
//@ file src/aa_bb_tree_3d.rs
//@ struct AABBTree3DLeaf
//@ enditem
//@ struct AABBTree3DBranch
//@ enditem
//@ enum AABBTree3D
//@ enditem
//@ enum Compare
//@ enditem
//@include norm3.inc
//@ file src/line_3d.rs
//@ struct Line3D
//@ enditem
/// the line meets the box (proved for whole numbers in c_ray)
pub uninterp spec fn hit(l: Line3D, b: BoundingBox3D) -> bool;
/// all coordinates are finite
pub uninterp spec fn plain(l: Line3D) -> bool;
/// a box that covers one the line meets is met as well (assumed: IEEE subtraction and division are monotone; proved for whole numbers in c_ray)
#[verifier::external_body]
pub proof fn hit_covers(l: Line3D, b: BoundingBox3D, a: BoundingBox3D) requires plain(l), b.covers(a), hit(l, a) ensures hit(l, b) { }
//@ file src/functions.rs
//@ freefn intersection trusted
//@ ret r
//@ spec
    ensures r.is_some() == hit(*l, *b),
//@ enditem
//@ file src/aa_bb_tree_3d.rs

impl<HB: HasBoundingBox3D + Clone> AABBTree3D<HB> {
    /// x is an element of some leaf
    pub open spec fn holds(&self, x: HB) -> bool decreases *self {
        match *self { AABBTree3D::Empty => false, AABBTree3D::Leaf(l) => l.holds(x), AABBTree3D::Branch(b) => b.left.holds(x) || b.right.holds(x) }
    }
    /// every node's box is valid and covers the boxes of all elements below
    pub open spec fn wf(&self) -> bool decreases *self {
        match *self { AABBTree3D::Empty => true, AABBTree3D::Leaf(l) => l.wf(), AABBTree3D::Branch(b) => b.left.wf() && b.right.wf() && b.bb.ok() && (forall|x: HB| #[trigger] b.left.holds(x) ==> x.has_bb() && b.bb.covers(x.bb())) && (forall|x: HB| #[trigger] b.right.holds(x) ==> x.has_bb() && b.bb.covers(x.bb())) }
    }
}
impl<HB: HasBoundingBox3D + Clone> AABBTree3DLeaf<HB> {
    pub open spec fn holds(&self, x: HB) -> bool { self.data@.contains(x) }
    pub open spec fn wf(&self) -> bool { self.bb.ok() && forall|x: HB| #[trigger] self.data@.contains(x) ==> x.has_bb() && self.bb.covers(x.bb()) }
}
impl<HB: HasBoundingBox3D + Clone> AABBTree3DBranch<HB> {
    pub open spec fn holds(&self, x: HB) -> bool { self.left.holds(x) || self.right.holds(x) }
    pub open spec fn wf(&self) -> bool { self.left.wf() && self.right.wf() && self.bb.ok() && (forall|x: HB| #[trigger] self.left.holds(x) ==> x.has_bb() && self.bb.covers(x.bb())) && (forall|x: HB| #[trigger] self.right.holds(x) ==> x.has_bb() && self.bb.covers(x.bb())) }
}
//@ impl AABBTree3DLeaf
//@ fn new
//@ ret r
//@ spec
        ensures r.data == data, r.bb == bb,
//@ fn any
//@ sigreplace `&dyn Fn(&HB) -> bool` => `&impl Fn(&HB) -> bool` ; a trait object replaced by a generic
//@ ret r
//@ spec
        requires forall|e: HB| self.holds(e) ==> #[trigger] call_requires(f, (&e,)),
        ensures r ==> exists|e: HB| self.holds(e) && #[trigger] call_ensures(f, (&e,), true), !r ==> forall|e: HB| self.holds(e) ==> #[trigger] call_ensures(f, (&e,), false),
//@ loop 0 iter it
//@ loop 0 inv
                invariant it.seq().len() == self.data@.len(), forall|i: int| 0 <= i < self.data@.len() ==> *(#[trigger] it.seq()[i]) == self.data@[i],
                    forall|e: HB| self.holds(e) ==> #[trigger] call_requires(f, (&e,)),
                    forall|i: int| 0 <= i < it.index@ ==> call_ensures(f, (&#[trigger] self.data@[i],), false),
//@ loop 0 start
                proof { assert(self.holds(self.data@[it.index@])); }
//@ fn for_each_collision_candidate
//@ sigreplace `&mut dyn FnMut(&HB)` => `&mut impl Visit<HB>` ; the callback is any visitor that records its calls
//@ spec
        requires self.wf(), bb.ok(),
        ensures addedv(old(f).seen(), final(f).seen(), |e: HB| self.holds(e) && e.bb().overlaps(*bb)),
//@ replace `f(x)` => `f.visit(x)` ; calling the visitor
//@ start
        let ghost r0 = f.seen();
        let ghost qh = |e: HB| e.bb().overlaps(*bb);
        let ghost p = |e: HB| self.holds(e) && e.bb().overlaps(*bb);
        proof {
            assert forall|e: HB| #[trigger] p(e) implies self.bb.overlaps(*bb) by { covers_hits3(self.bb, e.bb()); }
            if !self.bb.overlaps(*bb) { addedv_none(r0, p); }
        }
//@ loop 0 iter it
//@ loop 0 inv
                invariant it.seq().len() == self.data@.len(), forall|i: int| 0 <= i < self.data@.len() ==> *(#[trigger] it.seq()[i]) == self.data@[i],
                    self.wf(), bb.ok(), addedv(r0, f.seen(), |e: HB| self.data@.take(it.index@).contains(e) && qh(e)), qh == (|e: HB| e.bb().overlaps(*bb)),
//@ loop 0 before
            proof { addedv_none(r0, |e: HB| self.data@.take(0).contains(e) && qh(e)); }
//@ loop 0 start
                let ghost r1 = f.seen(); let ghost k = it.index@;
                proof { assert(self.data@.contains(self.data@[k])); }
//@ loop 0 end
                proof { scan_stepv(r0, r1, f.seen(), self.data@, k, qh); }
//@ loop 0 after
            proof { assert(self.data@.take(self.data@.len() as int) =~= self.data@); assert((|e: HB| self.data@.take(self.data@.len() as int).contains(e) && qh(e)) =~= p); }
//@ fn for_each_intersection_candidate
//@ sigreplace `&mut dyn FnMut(&HB)` => `&mut impl Visit<HB>` ; the callback is any visitor that records its calls
//@ spec
        requires self.wf(), plain(*line),
        ensures addedv(old(f).seen(), final(f).seen(), |e: HB| self.holds(e) && hit(*line, e.bb())),
//@ replace `f(x)` => `f.visit(x)` ; calling the visitor
//@ start
        let ghost r0 = f.seen();
        let ghost qh = |e: HB| hit(*line, e.bb());
        let ghost p = |e: HB| self.holds(e) && hit(*line, e.bb());
        proof {
            assert forall|e: HB| #[trigger] p(e) implies hit(*line, self.bb) by { hit_covers(*line, self.bb, e.bb()); }
            if !hit(*line, self.bb) { addedv_none(r0, p); }
        }
//@ loop 0 iter it
//@ loop 0 inv
                invariant it.seq().len() == self.data@.len(), forall|i: int| 0 <= i < self.data@.len() ==> *(#[trigger] it.seq()[i]) == self.data@[i],
                    self.wf(), plain(*line), addedv(r0, f.seen(), |e: HB| self.data@.take(it.index@).contains(e) && qh(e)), qh == (|e: HB| hit(*line, e.bb())),
//@ loop 0 before
            proof { addedv_none(r0, |e: HB| self.data@.take(0).contains(e) && qh(e)); }
//@ loop 0 start
                let ghost r1 = f.seen(); let ghost k = it.index@;
                proof { assert(self.data@.contains(self.data@[k])); }
//@ loop 0 end
                proof { scan_stepv(r0, r1, f.seen(), self.data@, k, qh); }
//@ loop 0 after
            proof { assert(self.data@.take(self.data@.len() as int) =~= self.data@); assert((|e: HB| self.data@.take(self.data@.len() as int).contains(e) && qh(e)) =~= p); }
//@ fn bb_colliding
//@ spec
        requires self.wf(), bb.ok(),
        ensures added(old(result)@, final(result)@, |e: HB| self.holds(e) && e.bb().overlaps(*bb)),
//@ start
        let ghost r0 = result@;
        let ghost qh = |e: HB| e.bb().overlaps(*bb);
        let ghost p = |e: HB| self.holds(e) && e.bb().overlaps(*bb);
        proof {
            assert forall|e: HB| #[trigger] p(e) implies self.bb.overlaps(*bb) by { covers_hits3(self.bb, e.bb()); }
            if !(self.bb.overlaps(*bb)) { added_none(r0, p); }
        }
//@ loop 0 iter it
//@ loop 0 inv
                invariant it.seq().len() == self.data@.len(), forall|i: int| 0 <= i < self.data@.len() ==> *(#[trigger] it.seq()[i]) == self.data@[i],
                    self.wf(), bb.ok(), added(r0, result@, |e: HB| self.data@.take(it.index@).contains(e) && qh(e)), qh == (|e: HB| e.bb().overlaps(*bb)),
//@ loop 0 before
            proof { added_none(r0, |e: HB| self.data@.take(0).contains(e) && qh(e)); }
//@ loop 0 start
                let ghost r1 = result@; let ghost k = it.index@;
                proof { assert(self.data@.contains(self.data@[k])); }
//@ loop 0 end
                proof { assert(qh(self.data@[k]) ==> result@.take(r1.len() as int) =~= r1); scan_step(r0, r1, result@, self.data@, k, qh); }
//@ loop 0 after
            proof { assert(self.data@.take(self.data@.len() as int) =~= self.data@); assert((|e: HB| self.data@.take(self.data@.len() as int).contains(e) && qh(e)) =~= p); }
//@ fn bb_crossing_x_value
//@ spec
        requires self.wf(), true,
        ensures added(old(result)@, final(result)@, |e: HB| self.holds(e) && e.bb().crosses(0, x)),
//@ start
        let ghost r0 = result@;
        let ghost qh = |e: HB| e.bb().crosses(0, x);
        let ghost p = |e: HB| self.holds(e) && e.bb().crosses(0, x);
        proof {
            assert forall|e: HB| #[trigger] p(e) implies self.bb.crosses(0, x) by { covers_hits3(self.bb, e.bb()); }
            if !(self.bb.crosses(0, x)) { added_none(r0, p); }
        }
//@ loop 0 iter it
//@ loop 0 inv
                invariant it.seq().len() == self.data@.len(), forall|i: int| 0 <= i < self.data@.len() ==> *(#[trigger] it.seq()[i]) == self.data@[i],
                    self.wf(), true, added(r0, result@, |e: HB| self.data@.take(it.index@).contains(e) && qh(e)), qh == (|e: HB| e.bb().crosses(0, x)),
//@ loop 0 before
            proof { added_none(r0, |e: HB| self.data@.take(0).contains(e) && qh(e)); }
//@ loop 0 start
                let ghost r1 = result@; let ghost k = it.index@;
                proof { assert(self.data@.contains(self.data@[k])); }
//@ loop 0 end
                proof { assert(qh(self.data@[k]) ==> result@.take(r1.len() as int) =~= r1); scan_step(r0, r1, result@, self.data@, k, qh); }
//@ loop 0 after
            proof { assert(self.data@.take(self.data@.len() as int) =~= self.data@); assert((|e: HB| self.data@.take(self.data@.len() as int).contains(e) && qh(e)) =~= p); }
//@ fn bb_crossing_y_value
//@ spec
        requires self.wf(), true,
        ensures added(old(result)@, final(result)@, |e: HB| self.holds(e) && e.bb().crosses(1, y)),
//@ start
        let ghost r0 = result@;
        let ghost qh = |e: HB| e.bb().crosses(1, y);
        let ghost p = |e: HB| self.holds(e) && e.bb().crosses(1, y);
        proof {
            assert forall|e: HB| #[trigger] p(e) implies self.bb.crosses(1, y) by { covers_hits3(self.bb, e.bb()); }
            if !(self.bb.crosses(1, y)) { added_none(r0, p); }
        }
//@ loop 0 iter it
//@ loop 0 inv
                invariant it.seq().len() == self.data@.len(), forall|i: int| 0 <= i < self.data@.len() ==> *(#[trigger] it.seq()[i]) == self.data@[i],
                    self.wf(), true, added(r0, result@, |e: HB| self.data@.take(it.index@).contains(e) && qh(e)), qh == (|e: HB| e.bb().crosses(1, y)),
//@ loop 0 before
            proof { added_none(r0, |e: HB| self.data@.take(0).contains(e) && qh(e)); }
//@ loop 0 start
                let ghost r1 = result@; let ghost k = it.index@;
                proof { assert(self.data@.contains(self.data@[k])); }
//@ loop 0 end
                proof { assert(qh(self.data@[k]) ==> result@.take(r1.len() as int) =~= r1); scan_step(r0, r1, result@, self.data@, k, qh); }
//@ loop 0 after
            proof { assert(self.data@.take(self.data@.len() as int) =~= self.data@); assert((|e: HB| self.data@.take(self.data@.len() as int).contains(e) && qh(e)) =~= p); }
//@ fn bb_crossing_z_value
//@ spec
        requires self.wf(), true,
        ensures added(old(result)@, final(result)@, |e: HB| self.holds(e) && e.bb().crosses(2, z)),
//@ start
        let ghost r0 = result@;
        let ghost qh = |e: HB| e.bb().crosses(2, z);
        let ghost p = |e: HB| self.holds(e) && e.bb().crosses(2, z);
        proof {
            assert forall|e: HB| #[trigger] p(e) implies self.bb.crosses(2, z) by { covers_hits3(self.bb, e.bb()); }
            if !(self.bb.crosses(2, z)) { added_none(r0, p); }
        }
//@ loop 0 iter it
//@ loop 0 inv
                invariant it.seq().len() == self.data@.len(), forall|i: int| 0 <= i < self.data@.len() ==> *(#[trigger] it.seq()[i]) == self.data@[i],
                    self.wf(), true, added(r0, result@, |e: HB| self.data@.take(it.index@).contains(e) && qh(e)), qh == (|e: HB| e.bb().crosses(2, z)),
//@ loop 0 before
            proof { added_none(r0, |e: HB| self.data@.take(0).contains(e) && qh(e)); }
//@ loop 0 start
                let ghost r1 = result@; let ghost k = it.index@;
                proof { assert(self.data@.contains(self.data@[k])); }
//@ loop 0 end
                proof { assert(qh(self.data@[k]) ==> result@.take(r1.len() as int) =~= r1); scan_step(r0, r1, result@, self.data@, k, qh); }
//@ loop 0 after
            proof { assert(self.data@.take(self.data@.len() as int) =~= self.data@); assert((|e: HB| self.data@.take(self.data@.len() as int).contains(e) && qh(e)) =~= p); }
//@ enditem
//@ impl AABBTree3DBranch
//@ fn new
//@ ret r
//@ spec
        ensures r.left == left, r.right == right, r.bb == bb,
            forall|x: HB| #[trigger] AABBTree3D::Branch(r).holds(x) == (left.holds(x) || right.holds(x)),
//@ fn any
//@ sigreplace `&dyn Fn(&HB) -> bool` => `&impl Fn(&HB) -> bool` ; a trait object replaced by a generic
//@ ret r
//@ spec
        requires forall|e: HB| self.holds(e) ==> #[trigger] call_requires(f, (&e,)),
        ensures r ==> exists|e: HB| self.holds(e) && #[trigger] call_ensures(f, (&e,), true), !r ==> forall|e: HB| self.holds(e) ==> #[trigger] call_ensures(f, (&e,), false),
        decreases *self, 0int,
//@ fn for_each_collision_candidate
//@ sigreplace `&mut dyn FnMut(&HB)` => `&mut impl Visit<HB>` ; the callback is any visitor that records its calls
//@ spec
        requires self.wf(), bb.ok(),
        ensures addedv(old(f).seen(), final(f).seen(), |e: HB| self.holds(e) && e.bb().overlaps(*bb)),
        decreases *self, 0int,
//@ start
        let ghost r0 = f.seen();
        let ghost qh = |e: HB| e.bb().overlaps(*bb);
        let ghost p = |e: HB| self.holds(e) && e.bb().overlaps(*bb);
        proof {
            assert forall|e: HB| #[trigger] p(e) implies self.bb.overlaps(*bb) by { covers_hits3(self.bb, e.bb()); }
            if !self.bb.overlaps(*bb) { addedv_none(r0, p); }
        }
//@ after `self.left.for_each_collision_candidate(bb, f);`
            let ghost r1 = f.seen();
//@ after `self.right.for_each_collision_candidate(bb, f);`
            proof { addedv_both(r0, r1, f.seen(), |e: HB| self.left.holds(e) && e.bb().overlaps(*bb), |e: HB| self.right.holds(e) && e.bb().overlaps(*bb), p); }
//@ fn for_each_intersection_candidate
//@ sigreplace `&mut dyn FnMut(&HB)` => `&mut impl Visit<HB>` ; the callback is any visitor that records its calls
//@ spec
        requires self.wf(), plain(*line),
        ensures addedv(old(f).seen(), final(f).seen(), |e: HB| self.holds(e) && hit(*line, e.bb())),
        decreases *self, 0int,
//@ start
        let ghost r0 = f.seen();
        let ghost qh = |e: HB| hit(*line, e.bb());
        let ghost p = |e: HB| self.holds(e) && hit(*line, e.bb());
        proof {
            assert forall|e: HB| #[trigger] p(e) implies hit(*line, self.bb) by { hit_covers(*line, self.bb, e.bb()); }
            if !hit(*line, self.bb) { addedv_none(r0, p); }
        }
//@ after `self.left.for_each_intersection_candidate(line, f);`
            let ghost r1 = f.seen();
//@ after `self.right.for_each_intersection_candidate(line, f);`
            proof { addedv_both(r0, r1, f.seen(), |e: HB| self.left.holds(e) && hit(*line, e.bb()), |e: HB| self.right.holds(e) && hit(*line, e.bb()), p); }
//@ fn bb_colliding
//@ spec
        requires self.wf(), bb.ok(),
        ensures added(old(result)@, final(result)@, |e: HB| self.holds(e) && e.bb().overlaps(*bb)),
        decreases *self, 0int,
//@ start
        let ghost r0 = result@;
        let ghost pl = |e: HB| self.left.holds(e) && e.bb().overlaps(*bb);
        let ghost pr = |e: HB| self.right.holds(e) && e.bb().overlaps(*bb);
        let ghost p = |e: HB| self.holds(e) && e.bb().overlaps(*bb);
        proof {
            assert forall|e: HB| #[trigger] p(e) implies self.bb.overlaps(*bb) by { covers_hits3(self.bb, e.bb()); }
            if !(self.bb.overlaps(*bb)) { added_none(r0, p); }
        }
//@ after `self.left.bb_colliding(bb, result);`
            let ghost r1 = result@;
//@ after `self.right.bb_colliding(bb, result);`
            proof { added_both(r0, r1, result@, pl, pr, p); }
//@ fn bb_crossing_x_value
//@ spec
        requires self.wf(), true,
        ensures added(old(result)@, final(result)@, |e: HB| self.holds(e) && e.bb().crosses(0, x)),
        decreases *self, 0int,
//@ start
        let ghost r0 = result@;
        let ghost pl = |e: HB| self.left.holds(e) && e.bb().crosses(0, x);
        let ghost pr = |e: HB| self.right.holds(e) && e.bb().crosses(0, x);
        let ghost p = |e: HB| self.holds(e) && e.bb().crosses(0, x);
        proof {
            assert forall|e: HB| #[trigger] p(e) implies self.bb.crosses(0, x) by { covers_hits3(self.bb, e.bb()); }
            if !(self.bb.crosses(0, x)) { added_none(r0, p); }
        }
//@ after `self.left.bb_crossing_x_value(x, result);`
            let ghost r1 = result@;
//@ after `self.right.bb_crossing_x_value(x, result);`
            proof { added_both(r0, r1, result@, pl, pr, p); }
//@ fn bb_crossing_y_value
//@ spec
        requires self.wf(), true,
        ensures added(old(result)@, final(result)@, |e: HB| self.holds(e) && e.bb().crosses(1, y)),
        decreases *self, 0int,
//@ start
        let ghost r0 = result@;
        let ghost pl = |e: HB| self.left.holds(e) && e.bb().crosses(1, y);
        let ghost pr = |e: HB| self.right.holds(e) && e.bb().crosses(1, y);
        let ghost p = |e: HB| self.holds(e) && e.bb().crosses(1, y);
        proof {
            assert forall|e: HB| #[trigger] p(e) implies self.bb.crosses(1, y) by { covers_hits3(self.bb, e.bb()); }
            if !(self.bb.crosses(1, y)) { added_none(r0, p); }
        }
//@ after `self.left.bb_crossing_y_value(y, result);`
            let ghost r1 = result@;
//@ after `self.right.bb_crossing_y_value(y, result);`
            proof { added_both(r0, r1, result@, pl, pr, p); }
//@ fn bb_crossing_z_value
//@ spec
        requires self.wf(), true,
        ensures added(old(result)@, final(result)@, |e: HB| self.holds(e) && e.bb().crosses(2, z)),
        decreases *self, 0int,
//@ start
        let ghost r0 = result@;
        let ghost pl = |e: HB| self.left.holds(e) && e.bb().crosses(2, z);
        let ghost pr = |e: HB| self.right.holds(e) && e.bb().crosses(2, z);
        let ghost p = |e: HB| self.holds(e) && e.bb().crosses(2, z);
        proof {
            assert forall|e: HB| #[trigger] p(e) implies self.bb.crosses(2, z) by { covers_hits3(self.bb, e.bb()); }
            if !(self.bb.crosses(2, z)) { added_none(r0, p); }
        }
//@ after `self.left.bb_crossing_z_value(z, result);`
            let ghost r1 = result@;
//@ after `self.right.bb_crossing_z_value(z, result);`
            proof { added_both(r0, r1, result@, pl, pr, p); }
//@ enditem
//@ impl AABBTree3D
//@ fn new
//@ ret r
//@ spec
        requires all_bb3(data@), forall|a: HB, b: HB| #[trigger] call_ensures(HB::clone, (&a,), b) ==> a == b,
        ensures r.wf(), forall|x: HB| #[trigger] r.holds(x) == data@.contains(x),
//@ fn any
//@ sigreplace `&dyn Fn(&HB) -> bool` => `&impl Fn(&HB) -> bool` ; a trait object replaced by a generic
//@ ret r
//@ spec
        requires forall|e: HB| self.holds(e) ==> #[trigger] call_requires(f, (&e,)),
        ensures r ==> exists|e: HB| self.holds(e) && #[trigger] call_ensures(f, (&e,), true), !r ==> forall|e: HB| self.holds(e) ==> #[trigger] call_ensures(f, (&e,), false),
        decreases *self, 1int,
//@ fn for_each_collision_candidate
//@ sigreplace `&mut dyn FnMut(&HB)` => `&mut impl Visit<HB>` ; the callback is any visitor that records its calls
//@ spec
        requires self.wf(), bb.ok(),
        ensures addedv(old(f).seen(), final(f).seen(), |e: HB| self.holds(e) && e.bb().overlaps(*bb)),
        decreases *self, 1int,
//@ start
        proof { match self { AABBTree3D::Empty => addedv_none(old(f).seen(), |e: HB| self.holds(e) && e.bb().overlaps(*bb)), _ => { } } }
//@ tailwrap
        proof {
            match self {
                AABBTree3D::Empty => { }
                AABBTree3D::Leaf(l) => { assert((|e: HB| l.holds(e) && e.bb().overlaps(*bb)) =~= (|e: HB| self.holds(e) && e.bb().overlaps(*bb))); }
                AABBTree3D::Branch(b) => { assert((|e: HB| b.holds(e) && e.bb().overlaps(*bb)) =~= (|e: HB| self.holds(e) && e.bb().overlaps(*bb))); }
            }
        }
//@ fn for_each_intersection_candidate
//@ sigreplace `&mut dyn FnMut(&HB)` => `&mut impl Visit<HB>` ; the callback is any visitor that records its calls
//@ spec
        requires self.wf(), plain(*line),
        ensures addedv(old(f).seen(), final(f).seen(), |e: HB| self.holds(e) && hit(*line, e.bb())),
        decreases *self, 1int,
//@ start
        proof { match self { AABBTree3D::Empty => addedv_none(old(f).seen(), |e: HB| self.holds(e) && hit(*line, e.bb())), _ => { } } }
//@ tailwrap
        proof {
            match self {
                AABBTree3D::Empty => { }
                AABBTree3D::Leaf(l) => { assert((|e: HB| l.holds(e) && hit(*line, e.bb())) =~= (|e: HB| self.holds(e) && hit(*line, e.bb()))); }
                AABBTree3D::Branch(b) => { assert((|e: HB| b.holds(e) && hit(*line, e.bb())) =~= (|e: HB| self.holds(e) && hit(*line, e.bb()))); }
            }
        }
//@ fn bb_colliding
//@ spec
        requires self.wf(), bb.ok(),
        ensures added(old(result)@, final(result)@, |e: HB| self.holds(e) && e.bb().overlaps(*bb)),
        decreases *self, 1int,
//@ start
        proof { match self { AABBTree3D::Empty => added_none(old(result)@, |e: HB| self.holds(e) && e.bb().overlaps(*bb)), _ => { } } }
//@ tailwrap
        proof {
            match self {
                AABBTree3D::Empty => { }
                AABBTree3D::Leaf(l) => { assert((|e: HB| l.holds(e) && e.bb().overlaps(*bb)) =~= (|e: HB| self.holds(e) && e.bb().overlaps(*bb))); }
                AABBTree3D::Branch(b) => { assert((|e: HB| b.holds(e) && e.bb().overlaps(*bb)) =~= (|e: HB| self.holds(e) && e.bb().overlaps(*bb))); }
            }
        }
//@ fn bb_crossing_x_value
//@ spec
        requires self.wf(), true,
        ensures added(old(result)@, final(result)@, |e: HB| self.holds(e) && e.bb().crosses(0, x)),
        decreases *self, 1int,
//@ start
        proof { match self { AABBTree3D::Empty => added_none(old(result)@, |e: HB| self.holds(e) && e.bb().crosses(0, x)), _ => { } } }
//@ tailwrap
        proof {
            match self {
                AABBTree3D::Empty => { }
                AABBTree3D::Leaf(l) => { assert((|e: HB| l.holds(e) && e.bb().crosses(0, x)) =~= (|e: HB| self.holds(e) && e.bb().crosses(0, x))); }
                AABBTree3D::Branch(b) => { assert((|e: HB| b.holds(e) && e.bb().crosses(0, x)) =~= (|e: HB| self.holds(e) && e.bb().crosses(0, x))); }
            }
        }
//@ fn bb_crossing_y_value
//@ spec
        requires self.wf(), true,
        ensures added(old(result)@, final(result)@, |e: HB| self.holds(e) && e.bb().crosses(1, y)),
        decreases *self, 1int,
//@ start
        proof { match self { AABBTree3D::Empty => added_none(old(result)@, |e: HB| self.holds(e) && e.bb().crosses(1, y)), _ => { } } }
//@ tailwrap
        proof {
            match self {
                AABBTree3D::Empty => { }
                AABBTree3D::Leaf(l) => { assert((|e: HB| l.holds(e) && e.bb().crosses(1, y)) =~= (|e: HB| self.holds(e) && e.bb().crosses(1, y))); }
                AABBTree3D::Branch(b) => { assert((|e: HB| b.holds(e) && e.bb().crosses(1, y)) =~= (|e: HB| self.holds(e) && e.bb().crosses(1, y))); }
            }
        }
//@ fn bb_crossing_z_value
//@ spec
        requires self.wf(), true,
        ensures added(old(result)@, final(result)@, |e: HB| self.holds(e) && e.bb().crosses(2, z)),
        decreases *self, 1int,
//@ start
        proof { match self { AABBTree3D::Empty => added_none(old(result)@, |e: HB| self.holds(e) && e.bb().crosses(2, z)), _ => { } } }
//@ tailwrap
        proof {
            match self {
                AABBTree3D::Empty => { }
                AABBTree3D::Leaf(l) => { assert((|e: HB| l.holds(e) && e.bb().crosses(2, z)) =~= (|e: HB| self.holds(e) && e.bb().crosses(2, z))); }
                AABBTree3D::Branch(b) => { assert((|e: HB| b.holds(e) && e.bb().crosses(2, z)) =~= (|e: HB| self.holds(e) && e.bb().crosses(2, z))); }
            }
        }
//@ fn new_rec
//@ ret r
//@ spec
        requires all_bb3(data@), depth <= maxdepth, forall|a: HB, b: HB| #[trigger] call_ensures(HB::clone, (&a,), b) ==> a == b,
        ensures r.wf(), forall|x: HB| #[trigger] r.holds(x) == data@.contains(x),
        decreases maxdepth - depth,
//@ loop 0 iter it
//@ loop 0 inv
                        invariant it.seq().len() == data@.len(), forall|i: int| 0 <= i < data@.len() ==> *(#[trigger] it.seq()[i]) == data@[i],
                            all_bb3(data@), forall|a: HB, b: HB| #[trigger] call_ensures(HB::clone, (&a,), b) ==> a == b,
                            forall|x: HB| #[trigger] coll__0@.contains(x) ==> data@.contains(x) && x.bb().lo((match comp { Compare::X => 0int, Compare::Y => 1int, Compare::Z => 2int })).ieee_lt(center.at((match comp { Compare::X => 0int, Compare::Y => 1int, Compare::Z => 2int }))),
                            forall|i: int| 0 <= i < it.index@ && (#[trigger] data@[i]).bb().lo((match comp { Compare::X => 0int, Compare::Y => 1int, Compare::Z => 2int })).ieee_lt(center.at((match comp { Compare::X => 0int, Compare::Y => 1int, Compare::Z => 2int }))) ==> coll__0@.contains(data@[i]),
//@ loop 0 start
                        let ghost idx = it.index@;
                        proof { assert(data@.contains(data@[idx])); }
//@ loop 0 end
                        proof { assert(elem__0 == data@[idx]); push_contains(coll__0@, elem__0); }
//@ loop 1 iter it
//@ loop 1 inv
                        invariant it.seq().len() == data@.len(), forall|i: int| 0 <= i < data@.len() ==> *(#[trigger] it.seq()[i]) == data@[i],
                            all_bb3(data@), forall|a: HB, b: HB| #[trigger] call_ensures(HB::clone, (&a,), b) ==> a == b,
                            forall|x: HB| #[trigger] coll__1@.contains(x) ==> data@.contains(x) && center.at((match comp { Compare::X => 0int, Compare::Y => 1int, Compare::Z => 2int })).ieee_le(x.bb().hi((match comp { Compare::X => 0int, Compare::Y => 1int, Compare::Z => 2int }))),
                            forall|i: int| 0 <= i < it.index@ && center.at((match comp { Compare::X => 0int, Compare::Y => 1int, Compare::Z => 2int })).ieee_le((#[trigger] data@[i]).bb().hi((match comp { Compare::X => 0int, Compare::Y => 1int, Compare::Z => 2int }))) ==> coll__1@.contains(data@[i]),
//@ loop 1 start
                        let ghost idx = it.index@;
                        proof { assert(data@.contains(data@[idx])); }
//@ loop 1 end
                        proof { assert(elem__1 == data@[idx]); push_contains(coll__1@, elem__1); }
//@ before `if dleft.is_empty()`
                    proof {
                        assert forall|j: int| 0 <= j < dleft@.len() implies (#[trigger] dleft@[j]).has_bb() && dleft@[j].bb().ok() by { assert(dleft@.contains(dleft@[j])); assert(bb.covers(dleft@[j].bb())); }
                        assert forall|j: int| 0 <= j < dright@.len() implies (#[trigger] dright@[j]).has_bb() && dright@[j].bb().ok() by { assert(dright@.contains(dright@[j])); assert(bb.covers(dright@[j].bb())); }
                        if dleft@.len() > 0 && dright@.len() > 0 {
                            let e = dleft@[0];
                            assert(dleft@.contains(e));
                            lt_facts(e.bb().lo((match comp { Compare::X => 0int, Compare::Y => 1int, Compare::Z => 2int })), center.at((match comp { Compare::X => 0int, Compare::Y => 1int, Compare::Z => 2int })));
                            assert forall|x: HB| #[trigger] data@.contains(x) implies dleft@.contains(x) || dright@.contains(x) by {
                                let j = choose|j: int| 0 <= j < data@.len() && data@[j] == x;
                                assert(data@[j].bb().ok());
                                lt_facts(x.bb().lo((match comp { Compare::X => 0int, Compare::Y => 1int, Compare::Z => 2int })), x.bb().hi((match comp { Compare::X => 0int, Compare::Y => 1int, Compare::Z => 2int })));
                                tri(x.bb().lo((match comp { Compare::X => 0int, Compare::Y => 1int, Compare::Z => 2int })), center.at((match comp { Compare::X => 0int, Compare::Y => 1int, Compare::Z => 2int }))); tri(center.at((match comp { Compare::X => 0int, Compare::Y => 1int, Compare::Z => 2int })), x.bb().lo((match comp { Compare::X => 0int, Compare::Y => 1int, Compare::Z => 2int }))); tri(center.at((match comp { Compare::X => 0int, Compare::Y => 1int, Compare::Z => 2int })), x.bb().hi((match comp { Compare::X => 0int, Compare::Y => 1int, Compare::Z => 2int })));
                                lt_le_trans(center.at((match comp { Compare::X => 0int, Compare::Y => 1int, Compare::Z => 2int })), x.bb().lo((match comp { Compare::X => 0int, Compare::Y => 1int, Compare::Z => 2int })), x.bb().hi((match comp { Compare::X => 0int, Compare::Y => 1int, Compare::Z => 2int }))); if center.at((match comp { Compare::X => 0int, Compare::Y => 1int, Compare::Z => 2int })).ieee_lt(x.bb().hi((match comp { Compare::X => 0int, Compare::Y => 1int, Compare::Z => 2int }))) { lt_facts(center.at((match comp { Compare::X => 0int, Compare::Y => 1int, Compare::Z => 2int })), x.bb().hi((match comp { Compare::X => 0int, Compare::Y => 1int, Compare::Z => 2int }))); }
                            }
                        }
                    }
//@ before `AABBTree3D::Branch(AABBTree3DBranch::new(`
                        proof {
                            assert(forall|x: HB| #[trigger] left.holds(x) ==> data@.contains(x));
                            assert(forall|x: HB| #[trigger] right.holds(x) ==> data@.contains(x));
                            assert(forall|x: HB| #[trigger] data@.contains(x) ==> left.holds(x) || right.holds(x));
                        }
//@ fn is_left_of
//@ ret r
//@ spec
        ensures r == (match *comp { Compare::X => bb.lo(0).ieee_lt(center.at(0)), Compare::Y => bb.lo(1).ieee_lt(center.at(1)), Compare::Z => bb.lo(2).ieee_lt(center.at(2)) }),
//@ fn is_right_of
//@ ret r
//@ spec
        ensures r == (match *comp { Compare::X => center.at(0).ieee_le(bb.hi(0)), Compare::Y => center.at(1).ieee_le(bb.hi(1)), Compare::Z => center.at(2).ieee_le(bb.hi(2)) }),
//@ fn bb_of
//@ ret r
//@ spec
        requires all_bb3(data@),
        ensures r.is_ok() == (data@.len() > 0), r.is_ok() ==> r->Ok_0.ok() && forall|x: HB| #[trigger] data@.contains(x) ==> x.has_bb() && r->Ok_0.covers(x.bb()),
//@ loop 0 iter it
//@ loop 0 inv
            invariant it.seq().len() == data@.len(), forall|i: int| 0 <= i < data@.len() ==> *(#[trigger] it.seq()[i]) == data@[i],
                all_bb3(data@), result.ok(), forall|i: int| 0 <= i < it.index@ ==> result.covers((#[trigger] data@[i]).bb()),
//@ loop 0 start
            let ghost b0 = result; let ghost k = it.index@;
//@ loop 0 end
            proof {
                merged_covers3(b0, data@[k].bb(), result);
                assert forall|i: int| 0 <= i < k + 1 implies result.covers((#[trigger] data@[i]).bb()) by { if i < k { covers_trans3(result, b0, data@[i].bb()); } }
            }
//@ enditem
} // verus!
fn main() {}

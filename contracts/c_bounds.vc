#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::ops::*;
use std::marker::PhantomData;
verus! {
//@include float.inc
//@include float32.inc
broadcast use {vstd::seq_lib::group_seq_properties, fl::ax, fl32::ax};
//@include base.inc
//@include num.inc
//@include pos.inc
//@include pos2.inc
//@include pos3.inc
//@include point2.inc
//@include point3.inc
//@include flemmas.inc
//@include order.inc
//@include listing.inc
pub proof fn same_limits(f: spec_fn(int) -> f64, g: spec_fn(int) -> f64, n: int)
    requires 1 <= n ==> forall|j: int| 0 <= j < n ==> #[trigger] f(j) == g(j),
    ensures 1 <= n ==> lo(f, n) == lo(g, n) && hi(f, n) == hi(g, n),
    decreases n
{ if n > 1 { same_limits(f, g, n - 1); assert(f(n - 1) == g(n - 1)); } else if n == 1 { assert(f(0) == g(0)); } }
/// a vector consumed by reference yields references to its elements in order (assumed: std's slice iterator)
#[verifier::external_body]
pub proof fn vec_listing<T>(v: &Vec<T>)
    ensures listing(v), v@.len() <= usize::MAX, elems(v).len() == v@.len(), forall|j: int| 0 <= j < v@.len() ==> *(#[trigger] elems(v)[j]) == v@[j],
{ }
pub uninterp spec fn f_abs(x: f64) -> f64;
pub assume_specification [f64::abs](x: f64) -> (r: f64) ensures r == f_abs(x), 0.0f64.ieee_lt(x) ==> r == x;
//@ file src/is_mergeable.rs
//@ trait IsMergeable
//@ header pub trait IsMergeable: Sized
//@ ghost
    spec fn merged(a: &Self, b: &Self, r: &Self) -> bool;
    spec fn mergeable(a: &Self, b: &Self) -> bool;
//@ fn consume
//@ spec
        requires Self::mergeable(old(self), &other),
        ensures Self::merged(old(self), &other, final(self)),
//@ fn combine
//@ ret r
//@ spec
        requires Self::mergeable(self, other),
        ensures Self::merged(self, other, &r),
//@ enditem
//@ file src/bounding_box_2d.rs
//@ struct BoundingBox2D
//@ enditem
impl Clone for BoundingBox2D { fn clone(&self) -> (r: Self) ensures r == *self { BoundingBox2D { min: self.min.clone(), max: self.max.clone() } } }
impl BoundingBox2D {
    pub open spec fn lo(&self, i: int) -> f64 { self.min.at(i) }
    pub open spec fn hi(&self, i: int) -> f64 { self.max.at(i) }
    /// the minimum is strictly below the maximum in every dimension
    pub open spec fn ok(&self) -> bool { self.lo(0).ieee_lt(self.hi(0)) && self.lo(1).ieee_lt(self.hi(1)) }
    pub open spec fn is(&self, a: spec_fn(int) -> f64, b: spec_fn(int) -> f64) -> bool { self.lo(0) == a(0) && self.hi(0) == b(0) && self.lo(1) == a(1) && self.hi(1) == b(1) }
}
pub open spec fn col2<P: Is2D>(s: Seq<P>, i: int) -> spec_fn(int) -> f64 { |j: int| s[j].at(i) }
pub open spec fn col2r<P: Is2D>(s: Seq<&P>, i: int) -> spec_fn(int) -> f64 { |j: int| s[j].at(i) }
//@ impl BoundingBox2D
//@ fn new
//@ ret r
//@ spec
        ensures r.is_ok() == (min.at(0).ieee_lt(max.at(0)) && min.at(1).ieee_lt(max.at(1))),
            r.is_ok() ==> r->Ok_0.is(|i: int| min.at(i), |i: int| max.at(i)),
//@ start
        proof { if min.at(0).ieee_lt(max.at(0)) { lt_facts(min.at(0), max.at(0)); } if min.at(1).ieee_lt(max.at(1)) { lt_facts(min.at(1), max.at(1)); } }
//@ fn from_iterator
//@ fattrs
#[verifier::exec_allows_no_decreases_clause]
//@ ret r
//@ spec
        requires listing(source), elems(source).len() <= usize::MAX,
        ensures r.is_ok() == (elems(source).len() >= 2 && lo(col2r(elems(source), 0), elems(source).len() as int).ieee_lt(hi(col2r(elems(source), 0), elems(source).len() as int)) && lo(col2r(elems(source), 1), elems(source).len() as int).ieee_lt(hi(col2r(elems(source), 1), elems(source).len() as int))),
            r.is_ok() ==> r->Ok_0.is(|i: int| lo(col2r(elems(source), i), elems(source).len() as int), |i: int| hi(col2r(elems(source), i), elems(source).len() as int)),
//@ start
        let ghost mut k: int = 0;
//@ loop 0 gen
//@ loop 0 inv
            invariant_except_break 0 <= k <= elems(source).len(), it__0.remaining() == elems(source).skip(k), it__0.obeys_prophetic_iter_laws(), it__0.will_return_none(),
                count == k, elems(source).len() <= usize::MAX, k > 0 ==> minx == lo(col2r(elems(source), 0), k) && maxx == hi(col2r(elems(source), 0), k), k > 0 ==> miny == lo(col2r(elems(source), 1), k) && maxy == hi(col2r(elems(source), 1), k),
            ensures k == elems(source).len(), k > 0 ==> minx == lo(col2r(elems(source), 0), k) && maxx == hi(col2r(elems(source), 0), k), k > 0 ==> miny == lo(col2r(elems(source), 1), k) && maxy == hi(col2r(elems(source), 1), k), count == k
//@ loop 0 start
                proof { k = k + 1; }
//@ fn from_into_iterator
//@ fattrs
#[verifier::exec_allows_no_decreases_clause]
//@ ret r
//@ spec
        requires listing(source), elems(source).len() <= usize::MAX,
        ensures r.is_ok() == (elems(source).len() >= 2 && lo(col2(elems(source), 0), elems(source).len() as int).ieee_lt(hi(col2(elems(source), 0), elems(source).len() as int)) && lo(col2(elems(source), 1), elems(source).len() as int).ieee_lt(hi(col2(elems(source), 1), elems(source).len() as int))),
            r.is_ok() ==> r->Ok_0.is(|i: int| lo(col2(elems(source), i), elems(source).len() as int), |i: int| hi(col2(elems(source), i), elems(source).len() as int)),
//@ start
        let ghost mut k: int = 0;
//@ loop 0 gen
//@ loop 0 inv
            invariant_except_break 0 <= k <= elems(source).len(), it__0.remaining() == elems(source).skip(k), it__0.obeys_prophetic_iter_laws(), it__0.will_return_none(),
                count == k, elems(source).len() <= usize::MAX, k > 0 ==> minx == lo(col2(elems(source), 0), k) && maxx == hi(col2(elems(source), 0), k), k > 0 ==> miny == lo(col2(elems(source), 1), k) && maxy == hi(col2(elems(source), 1), k),
            ensures k == elems(source).len(), k > 0 ==> minx == lo(col2(elems(source), 0), k) && maxx == hi(col2(elems(source), 0), k), k > 0 ==> miny == lo(col2(elems(source), 1), k) && maxy == hi(col2(elems(source), 1), k), count == k
//@ loop 0 start
                proof { k = k + 1; }
//@ fn min_p
//@ ret r
//@ spec
        ensures r == self.min,
//@ fn max_p
//@ ret r
//@ spec
        ensures r == self.max,
//@ fn size_x
//@ ret r
//@ spec
        requires self.ok(),
        ensures r.val == self.max.at(0).ieee_sub(self.min.at(0)), pos(r.val),
//@ start
        proof { diff_pos(self.min.at(0), self.max.at(0)); }
//@ fn size_y
//@ ret r
//@ spec
        requires self.ok(),
        ensures r.val == self.max.at(1).ieee_sub(self.min.at(1)), pos(r.val),
//@ start
        proof { diff_pos(self.min.at(1), self.max.at(1)); }
//@ fn sizes
//@ ret r
//@ spec
        requires self.ok(),
        ensures r@[0].val == self.max.at(0).ieee_sub(self.min.at(0)), r@[1].val == self.max.at(1).ieee_sub(self.min.at(1)),
//@ fn center_bb
//@ ret r
//@ spec
        ensures r.at(0) == self.min.at(0).ieee_add(self.max.at(0).ieee_sub(self.min.at(0)).ieee_div(2.0f64)), r.at(1) == self.min.at(1).ieee_add(self.max.at(1).ieee_sub(self.min.at(1)).ieee_div(2.0f64)),
//@ fn corners
//@ ret r
//@ spec
        ensures r@[0].at(0) == self.min.at(0), r@[0].at(1) == self.min.at(1), r@[1].at(0) == self.min.at(0), r@[1].at(1) == self.max.at(1), r@[2].at(0) == self.max.at(0), r@[2].at(1) == self.min.at(1), r@[3].at(0) == self.max.at(0), r@[3].at(1) == self.max.at(1),
//@ enditem
//@ impl IsMergeable for BoundingBox2D
//@ ghost
    open spec fn merged(a: &Self, b: &Self, r: &Self) -> bool {
        r.is(|i: int| if b.min.at(i).ieee_lt(a.min.at(i)) { b.min.at(i) } else { a.min.at(i) }, |i: int| if a.max.at(i).ieee_lt(b.max.at(i)) { b.max.at(i) } else { a.max.at(i) })
    }
    open spec fn mergeable(a: &Self, b: &Self) -> bool { a.ok() && b.ok() }
//@ fn consume
//@ fn combine
//@ enditem
/// the merged box is a valid box, has both inside (not strictly), and is the smallest such box
pub proof fn merged_is_smallest_2(a: BoundingBox2D, b: BoundingBox2D, r: BoundingBox2D)
    requires a.ok(), b.ok(), BoundingBox2D::merged(&a, &b, &r),
    ensures r.ok(), forall|i: int| 0 <= i < 2 ==> #[trigger] r.lo(i).ieee_le(a.lo(i)) && r.lo(i).ieee_le(b.lo(i)) && a.hi(i).ieee_le(r.hi(i)) && b.hi(i).ieee_le(r.hi(i))
        && (r.lo(i) == a.lo(i) || r.lo(i) == b.lo(i)) && (r.hi(i) == a.hi(i) || r.hi(i) == b.hi(i)),
{
    assert forall|i: int| 0 <= i < 2 implies #[trigger] r.lo(i).ieee_le(a.lo(i)) && r.lo(i).ieee_le(b.lo(i)) && a.hi(i).ieee_le(r.hi(i)) && b.hi(i).ieee_le(r.hi(i))
        && (r.lo(i) == a.lo(i) || r.lo(i) == b.lo(i)) && (r.hi(i) == a.hi(i) || r.hi(i) == b.hi(i)) && r.lo(i).ieee_lt(r.hi(i)) by {
        assert(i == 0 || i == 1 || i == 2);
        let (p, q, s, t) = (a.lo(i), b.lo(i), a.hi(i), b.hi(i));
        lt_facts(p, s); lt_facts(q, t);
        tri(p, q); tri(q, p); tri(s, t); tri(t, s); tri(p, p); tri(q, q); tri(s, s); tri(t, t);
        assert(r.lo(i) == (if q.ieee_lt(p) { q } else { p }) && r.hi(i) == (if s.ieee_lt(t) { t } else { s }));
        lt_le_trans(q, p, s); lt_le_trans(q, t, s); lt_le_trans(p, s, t); lt_le_trans(q, p, t);
    }
    assert(r.lo(0).ieee_le(a.lo(0)) && r.lo(1).ieee_le(a.lo(1)));
    assert(r.lo(0).ieee_lt(r.hi(0)) && r.lo(1).ieee_lt(r.hi(1)));
}
/// a box of NaN-free positions has the smallest and largest coordinates as limits
pub proof fn tight_2<P: Is2D>(s: Seq<P>, b: BoundingBox2D)
    requires s.len() >= 2, b.is(|i: int| lo(col2(s, i), s.len() as int), |i: int| hi(col2(s, i), s.len() as int)),
        forall|i: int, j: int| 0 <= i < 2 && 0 <= j < s.len() ==> !nan(#[trigger] s[j].at(i)),
    ensures forall|i: int, j: int| 0 <= i < 2 && 0 <= j < s.len() ==> b.lo(i).ieee_le(#[trigger] s[j].at(i)) && s[j].at(i).ieee_le(b.hi(i)),
        (exists|j: int| 0 <= j < s.len() && #[trigger] s[j].at(0) == b.lo(0)) && (exists|j: int| 0 <= j < s.len() && #[trigger] s[j].at(0) == b.hi(0)), (exists|j: int| 0 <= j < s.len() && #[trigger] s[j].at(1) == b.lo(1)) && (exists|j: int| 0 <= j < s.len() && #[trigger] s[j].at(1) == b.hi(1)),
{
    { let f = col2(s, 0); assert(forall|j: int| f(j) == s[j].at(0)); limits_are_tight(f, s.len() as int);
        let j = choose|j: int| 0 <= j < s.len() && #[trigger] f(j) == lo(f, s.len() as int); assert(s[j].at(0) == b.lo(0));
        let k = choose|k: int| 0 <= k < s.len() && #[trigger] f(k) == hi(f, s.len() as int); assert(s[k].at(0) == b.hi(0)); } { let f = col2(s, 1); assert(forall|j: int| f(j) == s[j].at(1)); limits_are_tight(f, s.len() as int);
        let j = choose|j: int| 0 <= j < s.len() && #[trigger] f(j) == lo(f, s.len() as int); assert(s[j].at(1) == b.lo(1));
        let k = choose|k: int| 0 <= k < s.len() && #[trigger] f(k) == hi(f, s.len() as int); assert(s[k].at(1) == b.hi(1)); }
}
//@ file src/bounding_box_3d.rs
//@ struct BoundingBox3D
//@ enditem
impl Clone for BoundingBox3D { fn clone(&self) -> (r: Self) ensures r == *self { BoundingBox3D { min: self.min.clone(), max: self.max.clone() } } }
impl BoundingBox3D {
    pub open spec fn lo(&self, i: int) -> f64 { self.min.at(i) }
    pub open spec fn hi(&self, i: int) -> f64 { self.max.at(i) }
    /// the minimum is strictly below the maximum in every dimension
    pub open spec fn ok(&self) -> bool { self.lo(0).ieee_lt(self.hi(0)) && self.lo(1).ieee_lt(self.hi(1)) && self.lo(2).ieee_lt(self.hi(2)) }
    pub open spec fn is(&self, a: spec_fn(int) -> f64, b: spec_fn(int) -> f64) -> bool { self.lo(0) == a(0) && self.hi(0) == b(0) && self.lo(1) == a(1) && self.hi(1) == b(1) && self.lo(2) == a(2) && self.hi(2) == b(2) }
}
pub open spec fn col3<P: Is3D>(s: Seq<P>, i: int) -> spec_fn(int) -> f64 { |j: int| s[j].at(i) }
pub open spec fn col3r<P: Is3D>(s: Seq<&P>, i: int) -> spec_fn(int) -> f64 { |j: int| s[j].at(i) }
//@ impl BoundingBox3D
//@ fn new
//@ ret r
//@ spec
        ensures r.is_ok() == (min.at(0).ieee_lt(max.at(0)) && min.at(1).ieee_lt(max.at(1)) && min.at(2).ieee_lt(max.at(2))),
            r.is_ok() ==> r->Ok_0.is(|i: int| min.at(i), |i: int| max.at(i)),
//@ start
        proof { if min.at(0).ieee_lt(max.at(0)) { lt_facts(min.at(0), max.at(0)); } if min.at(1).ieee_lt(max.at(1)) { lt_facts(min.at(1), max.at(1)); } if min.at(2).ieee_lt(max.at(2)) { lt_facts(min.at(2), max.at(2)); } }
//@ fn from_iterator
//@ fattrs
#[verifier::exec_allows_no_decreases_clause]
//@ ret r
//@ spec
        requires listing(source), elems(source).len() <= usize::MAX,
        ensures r.is_ok() == (elems(source).len() >= 2 && lo(col3r(elems(source), 0), elems(source).len() as int).ieee_lt(hi(col3r(elems(source), 0), elems(source).len() as int)) && lo(col3r(elems(source), 1), elems(source).len() as int).ieee_lt(hi(col3r(elems(source), 1), elems(source).len() as int)) && lo(col3r(elems(source), 2), elems(source).len() as int).ieee_lt(hi(col3r(elems(source), 2), elems(source).len() as int))),
            r.is_ok() ==> r->Ok_0.is(|i: int| lo(col3r(elems(source), i), elems(source).len() as int), |i: int| hi(col3r(elems(source), i), elems(source).len() as int)),
//@ start
        let ghost mut k: int = 0;
//@ loop 0 gen
//@ loop 0 inv
            invariant_except_break 0 <= k <= elems(source).len(), it__0.remaining() == elems(source).skip(k), it__0.obeys_prophetic_iter_laws(), it__0.will_return_none(),
                count == k, elems(source).len() <= usize::MAX, k > 0 ==> minx == lo(col3r(elems(source), 0), k) && maxx == hi(col3r(elems(source), 0), k), k > 0 ==> miny == lo(col3r(elems(source), 1), k) && maxy == hi(col3r(elems(source), 1), k), k > 0 ==> minz == lo(col3r(elems(source), 2), k) && maxz == hi(col3r(elems(source), 2), k),
            ensures k == elems(source).len(), k > 0 ==> minx == lo(col3r(elems(source), 0), k) && maxx == hi(col3r(elems(source), 0), k), k > 0 ==> miny == lo(col3r(elems(source), 1), k) && maxy == hi(col3r(elems(source), 1), k), k > 0 ==> minz == lo(col3r(elems(source), 2), k) && maxz == hi(col3r(elems(source), 2), k), count == k
//@ loop 0 start
                proof { k = k + 1; }
//@ fn from_into_iterator
//@ fattrs
#[verifier::exec_allows_no_decreases_clause]
//@ ret r
//@ spec
        requires listing(source), elems(source).len() <= usize::MAX,
        ensures r.is_ok() == (elems(source).len() >= 2 && lo(col3(elems(source), 0), elems(source).len() as int).ieee_lt(hi(col3(elems(source), 0), elems(source).len() as int)) && lo(col3(elems(source), 1), elems(source).len() as int).ieee_lt(hi(col3(elems(source), 1), elems(source).len() as int)) && lo(col3(elems(source), 2), elems(source).len() as int).ieee_lt(hi(col3(elems(source), 2), elems(source).len() as int))),
            r.is_ok() ==> r->Ok_0.is(|i: int| lo(col3(elems(source), i), elems(source).len() as int), |i: int| hi(col3(elems(source), i), elems(source).len() as int)),
//@ start
        let ghost mut k: int = 0;
//@ loop 0 gen
//@ loop 0 inv
            invariant_except_break 0 <= k <= elems(source).len(), it__0.remaining() == elems(source).skip(k), it__0.obeys_prophetic_iter_laws(), it__0.will_return_none(),
                count == k, elems(source).len() <= usize::MAX, k > 0 ==> minx == lo(col3(elems(source), 0), k) && maxx == hi(col3(elems(source), 0), k), k > 0 ==> miny == lo(col3(elems(source), 1), k) && maxy == hi(col3(elems(source), 1), k), k > 0 ==> minz == lo(col3(elems(source), 2), k) && maxz == hi(col3(elems(source), 2), k),
            ensures k == elems(source).len(), k > 0 ==> minx == lo(col3(elems(source), 0), k) && maxx == hi(col3(elems(source), 0), k), k > 0 ==> miny == lo(col3(elems(source), 1), k) && maxy == hi(col3(elems(source), 1), k), k > 0 ==> minz == lo(col3(elems(source), 2), k) && maxz == hi(col3(elems(source), 2), k), count == k
//@ loop 0 start
                proof { k = k + 1; }
//@ fn min_p
//@ ret r
//@ spec
        ensures r == self.min,
//@ fn max_p
//@ ret r
//@ spec
        ensures r == self.max,
//@ fn size_x
//@ ret r
//@ spec
        requires self.ok(),
        ensures r.val == self.max.at(0).ieee_sub(self.min.at(0)), pos(r.val),
//@ start
        proof { diff_pos(self.min.at(0), self.max.at(0)); }
//@ fn size_y
//@ ret r
//@ spec
        requires self.ok(),
        ensures r.val == self.max.at(1).ieee_sub(self.min.at(1)), pos(r.val),
//@ start
        proof { diff_pos(self.min.at(1), self.max.at(1)); }
//@ fn size_z
//@ ret r
//@ spec
        requires self.ok(),
        ensures r.val == self.max.at(2).ieee_sub(self.min.at(2)), pos(r.val),
//@ start
        proof { diff_pos(self.min.at(2), self.max.at(2)); }
//@ fn sizes
//@ ret r
//@ spec
        requires self.ok(),
        ensures r@[0].val == self.max.at(0).ieee_sub(self.min.at(0)), r@[1].val == self.max.at(1).ieee_sub(self.min.at(1)), r@[2].val == self.max.at(2).ieee_sub(self.min.at(2)),
//@ fn center_bb
//@ ret r
//@ spec
        ensures r.at(0) == self.min.at(0).ieee_add(self.max.at(0).ieee_sub(self.min.at(0)).ieee_div(2.0f64)), r.at(1) == self.min.at(1).ieee_add(self.max.at(1).ieee_sub(self.min.at(1)).ieee_div(2.0f64)), r.at(2) == self.min.at(2).ieee_add(self.max.at(2).ieee_sub(self.min.at(2)).ieee_div(2.0f64)),
//@ fn corners
//@ ret r
//@ spec
        ensures r@[0].at(0) == self.min.at(0), r@[0].at(1) == self.min.at(1), r@[0].at(2) == self.min.at(2), r@[1].at(0) == self.min.at(0), r@[1].at(1) == self.min.at(1), r@[1].at(2) == self.max.at(2), r@[2].at(0) == self.min.at(0), r@[2].at(1) == self.max.at(1), r@[2].at(2) == self.min.at(2), r@[3].at(0) == self.min.at(0), r@[3].at(1) == self.max.at(1), r@[3].at(2) == self.max.at(2), r@[4].at(0) == self.max.at(0), r@[4].at(1) == self.min.at(1), r@[4].at(2) == self.min.at(2), r@[5].at(0) == self.max.at(0), r@[5].at(1) == self.min.at(1), r@[5].at(2) == self.max.at(2), r@[6].at(0) == self.max.at(0), r@[6].at(1) == self.max.at(1), r@[6].at(2) == self.min.at(2), r@[7].at(0) == self.max.at(0), r@[7].at(1) == self.max.at(1), r@[7].at(2) == self.max.at(2),
//@ enditem
//@ impl IsMergeable for BoundingBox3D
//@ ghost
    open spec fn merged(a: &Self, b: &Self, r: &Self) -> bool {
        r.is(|i: int| if b.min.at(i).ieee_lt(a.min.at(i)) { b.min.at(i) } else { a.min.at(i) }, |i: int| if a.max.at(i).ieee_lt(b.max.at(i)) { b.max.at(i) } else { a.max.at(i) })
    }
    open spec fn mergeable(a: &Self, b: &Self) -> bool { a.ok() && b.ok() }
//@ fn consume
//@ fn combine
//@ enditem
/// the merged box is a valid box, has both inside (not strictly), and is the smallest such box
pub proof fn merged_is_smallest_3(a: BoundingBox3D, b: BoundingBox3D, r: BoundingBox3D)
    requires a.ok(), b.ok(), BoundingBox3D::merged(&a, &b, &r),
    ensures r.ok(), forall|i: int| 0 <= i < 3 ==> #[trigger] r.lo(i).ieee_le(a.lo(i)) && r.lo(i).ieee_le(b.lo(i)) && a.hi(i).ieee_le(r.hi(i)) && b.hi(i).ieee_le(r.hi(i))
        && (r.lo(i) == a.lo(i) || r.lo(i) == b.lo(i)) && (r.hi(i) == a.hi(i) || r.hi(i) == b.hi(i)),
{
    assert forall|i: int| 0 <= i < 3 implies #[trigger] r.lo(i).ieee_le(a.lo(i)) && r.lo(i).ieee_le(b.lo(i)) && a.hi(i).ieee_le(r.hi(i)) && b.hi(i).ieee_le(r.hi(i))
        && (r.lo(i) == a.lo(i) || r.lo(i) == b.lo(i)) && (r.hi(i) == a.hi(i) || r.hi(i) == b.hi(i)) && r.lo(i).ieee_lt(r.hi(i)) by {
        assert(i == 0 || i == 1 || i == 2);
        let (p, q, s, t) = (a.lo(i), b.lo(i), a.hi(i), b.hi(i));
        lt_facts(p, s); lt_facts(q, t);
        tri(p, q); tri(q, p); tri(s, t); tri(t, s); tri(p, p); tri(q, q); tri(s, s); tri(t, t);
        assert(r.lo(i) == (if q.ieee_lt(p) { q } else { p }) && r.hi(i) == (if s.ieee_lt(t) { t } else { s }));
        lt_le_trans(q, p, s); lt_le_trans(q, t, s); lt_le_trans(p, s, t); lt_le_trans(q, p, t);
    }
    assert(r.lo(0).ieee_le(a.lo(0)) && r.lo(1).ieee_le(a.lo(1)) && r.lo(2).ieee_le(a.lo(2)));
    assert(r.lo(0).ieee_lt(r.hi(0)) && r.lo(1).ieee_lt(r.hi(1)) && r.lo(2).ieee_lt(r.hi(2)));
}
/// a box of NaN-free positions has the smallest and largest coordinates as limits
pub proof fn tight_3<P: Is3D>(s: Seq<P>, b: BoundingBox3D)
    requires s.len() >= 2, b.is(|i: int| lo(col3(s, i), s.len() as int), |i: int| hi(col3(s, i), s.len() as int)),
        forall|i: int, j: int| 0 <= i < 3 && 0 <= j < s.len() ==> !nan(#[trigger] s[j].at(i)),
    ensures forall|i: int, j: int| 0 <= i < 3 && 0 <= j < s.len() ==> b.lo(i).ieee_le(#[trigger] s[j].at(i)) && s[j].at(i).ieee_le(b.hi(i)),
        (exists|j: int| 0 <= j < s.len() && #[trigger] s[j].at(0) == b.lo(0)) && (exists|j: int| 0 <= j < s.len() && #[trigger] s[j].at(0) == b.hi(0)), (exists|j: int| 0 <= j < s.len() && #[trigger] s[j].at(1) == b.lo(1)) && (exists|j: int| 0 <= j < s.len() && #[trigger] s[j].at(1) == b.hi(1)), (exists|j: int| 0 <= j < s.len() && #[trigger] s[j].at(2) == b.lo(2)) && (exists|j: int| 0 <= j < s.len() && #[trigger] s[j].at(2) == b.hi(2)),
{
    { let f = col3(s, 0); assert(forall|j: int| f(j) == s[j].at(0)); limits_are_tight(f, s.len() as int);
        let j = choose|j: int| 0 <= j < s.len() && #[trigger] f(j) == lo(f, s.len() as int); assert(s[j].at(0) == b.lo(0));
        let k = choose|k: int| 0 <= k < s.len() && #[trigger] f(k) == hi(f, s.len() as int); assert(s[k].at(0) == b.hi(0)); } { let f = col3(s, 1); assert(forall|j: int| f(j) == s[j].at(1)); limits_are_tight(f, s.len() as int);
        let j = choose|j: int| 0 <= j < s.len() && #[trigger] f(j) == lo(f, s.len() as int); assert(s[j].at(1) == b.lo(1));
        let k = choose|k: int| 0 <= k < s.len() && #[trigger] f(k) == hi(f, s.len() as int); assert(s[k].at(1) == b.hi(1)); } { let f = col3(s, 2); assert(forall|j: int| f(j) == s[j].at(2)); limits_are_tight(f, s.len() as int);
        let j = choose|j: int| 0 <= j < s.len() && #[trigger] f(j) == lo(f, s.len() as int); assert(s[j].at(2) == b.lo(2));
        let k = choose|k: int| 0 <= k < s.len() && #[trigger] f(k) == hi(f, s.len() as int); assert(s[k].at(2) == b.hi(2)); }
}
//@ file src/has_bounding_box_2d.rs
//@ trait HasBoundingBox2D
//@ fn bounding_box
//@ ret r
//@ spec
        requires self.bb_req(), self.has_bb(),
        ensures r.is(|i: int| self.bb_lo(i), |i: int| self.bb_hi(i)), r.ok(),
//@ enditem
//@ trait HasBoundingBox2DMaybe
//@ ghost
    /// the limits can be represented (shapes whose size vanishes next to their position have none)
    spec fn bb_req(&self) -> bool;
    spec fn has_bb(&self) -> bool;
    spec fn bb_lo(&self, i: int) -> f64;
    spec fn bb_hi(&self, i: int) -> f64;
//@ fn bounding_box_maybe
//@ ret r
//@ spec
        requires self.bb_req(),
        ensures r.is_some() == self.has_bb(), r.is_some() ==> r->Some_0.is(|i: int| self.bb_lo(i), |i: int| self.bb_hi(i)) && r->Some_0.ok(),
//@ enditem
//@ struct HasBoundingBox2DConverted
//@ enditem
impl<T: HasBoundingBox2DMaybe> HasBoundingBox2DConverted<T> { pub open spec fn inner(&self) -> T { self.data } }
//@ impl HasBoundingBox2DConverted
//@ fn new
//@ ret r
//@ spec
        requires data.bb_req(),
        ensures r.is_some() == data.has_bb(), r.is_some() ==> r->Some_0.inner() == data,
//@ fn get
//@ ret r
//@ spec
        ensures *r == self.inner(),
//@ enditem
//@ impl HasBoundingBox2DMaybe for HasBoundingBox2DConverted
//@ ghost
    open spec fn bb_req(&self) -> bool { self.data.bb_req() }
    open spec fn has_bb(&self) -> bool { self.data.has_bb() }
    open spec fn bb_lo(&self, i: int) -> f64 { self.data.bb_lo(i) }
    open spec fn bb_hi(&self, i: int) -> f64 { self.data.bb_hi(i) }
//@ fn bounding_box_maybe
//@ enditem
//@ impl HasBoundingBox2D for HasBoundingBox2DConverted
//@ fn bounding_box
//@ enditem
//@ file src/bounding_box_2d.rs
//@ impl HasBoundingBox2D for BoundingBox2D
//@ fn bounding_box
//@ enditem
//@ impl HasBoundingBox2DMaybe for BoundingBox2D
//@ ghost
    open spec fn bb_req(&self) -> bool { self.ok() }
    open spec fn has_bb(&self) -> bool { true }
    open spec fn bb_lo(&self, i: int) -> f64 { self.lo(i) }
    open spec fn bb_hi(&self, i: int) -> f64 { self.hi(i) }
//@ fn bounding_box_maybe
//@ enditem
//@ file src/box_2d.rs
//@ struct Box2D
//@ enditem
impl Box2D { pub open spec fn half(&self, i: int) -> f64 { if i == 0 { self.size_x.val.ieee_div(2.0f64) } else { self.size_y.val.ieee_div(2.0f64) } } }
//@ impl HasBoundingBox2D for Box2D
//@ fn bounding_box
//@ enditem
//@ impl HasBoundingBox2DMaybe for Box2D
//@ ghost
    open spec fn bb_req(&self) -> bool { self.bb_lo(0).ieee_lt(self.bb_hi(0)) && self.bb_lo(1).ieee_lt(self.bb_hi(1))  }
    open spec fn has_bb(&self) -> bool { true }
    open spec fn bb_lo(&self, i: int) -> f64 { self.center.at(i).ieee_sub(self.half(i)) }
    open spec fn bb_hi(&self, i: int) -> f64 { self.center.at(i).ieee_add(self.half(i)) }
//@ fn bounding_box_maybe
//@ enditem
//@ file src/circle.rs
//@ struct Circle
//@ enditem
//@ impl HasBoundingBox2D for Circle
//@ fn bounding_box
//@ enditem
//@ impl HasBoundingBox2DMaybe for Circle
//@ ghost
    open spec fn bb_req(&self) -> bool { self.bb_lo(0).ieee_lt(self.bb_hi(0)) && self.bb_lo(1).ieee_lt(self.bb_hi(1))  }
    open spec fn has_bb(&self) -> bool { true }
    open spec fn bb_lo(&self, i: int) -> f64 { self.center.at(i).ieee_sub(self.radius.val) }
    open spec fn bb_hi(&self, i: int) -> f64 { self.center.at(i).ieee_add(self.radius.val) }
//@ fn bounding_box_maybe
//@ enditem
//@ file src/filter_box_2d.rs
//@ struct FilterBox2D
//@ enditem
//@ impl HasBoundingBox2D for FilterBox2D
//@ fn bounding_box
//@ enditem
//@ impl HasBoundingBox2DMaybe for FilterBox2D
//@ ghost
    open spec fn bb_req(&self) -> bool { self.box_2d.bb_req() }
    open spec fn has_bb(&self) -> bool { true }
    open spec fn bb_lo(&self, i: int) -> f64 { self.box_2d.bb_lo(i) }
    open spec fn bb_hi(&self, i: int) -> f64 { self.box_2d.bb_hi(i) }
//@ fn bounding_box_maybe
//@ enditem
//@ file src/filter_circle.rs
//@ struct FilterCircle
//@ enditem
//@ impl HasBoundingBox2D for FilterCircle
//@ fn bounding_box
//@ enditem
//@ impl HasBoundingBox2DMaybe for FilterCircle
//@ ghost
    open spec fn bb_req(&self) -> bool { self.circle.bb_req() }
    open spec fn has_bb(&self) -> bool { true }
    open spec fn bb_lo(&self, i: int) -> f64 { self.circle.bb_lo(i) }
    open spec fn bb_hi(&self, i: int) -> f64 { self.circle.bb_hi(i) }
//@ fn bounding_box_maybe
//@ enditem
//@ file src/point_cloud_2d.rs
//@ struct PointCloud2D
//@ enditem
//@ impl HasBoundingBox2DMaybe for PointCloud2D
//@ ghost
    open spec fn bb_req(&self) -> bool { true }
    open spec fn has_bb(&self) -> bool { self.data@.len() >= 2 && self.bb_lo(0).ieee_lt(self.bb_hi(0)) && self.bb_lo(1).ieee_lt(self.bb_hi(1))  }
    open spec fn bb_lo(&self, i: int) -> f64 { lo(col2(self.data@, i), self.data@.len() as int) }
    open spec fn bb_hi(&self, i: int) -> f64 { hi(col2(self.data@, i), self.data@.len() as int) }
//@ fn bounding_box_maybe
//@ start
        proof { vec_listing(&self.data); same_limits(col2r(elems(&self.data), 0), col2(self.data@, 0), self.data@.len() as int); same_limits(col2r(elems(&self.data), 1), col2(self.data@, 1), self.data@.len() as int); }
//@ enditem
//@ file src/polygon_2d.rs
//@ struct Polygon2D
//@ enditem
//@ impl HasBoundingBox2DMaybe for Polygon2D
//@ ghost
    open spec fn bb_req(&self) -> bool { self.pc.bb_req() }
    open spec fn has_bb(&self) -> bool { self.pc.has_bb() }
    open spec fn bb_lo(&self, i: int) -> f64 { self.pc.bb_lo(i) }
    open spec fn bb_hi(&self, i: int) -> f64 { self.pc.bb_hi(i) }
//@ fn bounding_box_maybe
//@ enditem
//@ file src/has_bounding_box_3d.rs
//@ trait HasBoundingBox3D
//@ fn bounding_box
//@ ret r
//@ spec
        requires self.bb_req(), self.has_bb(),
        ensures r.is(|i: int| self.bb_lo(i), |i: int| self.bb_hi(i)), r.ok(),
//@ enditem
//@ trait HasBoundingBox3DMaybe
//@ ghost
    /// the limits can be represented (shapes whose size vanishes next to their position have none)
    spec fn bb_req(&self) -> bool;
    spec fn has_bb(&self) -> bool;
    spec fn bb_lo(&self, i: int) -> f64;
    spec fn bb_hi(&self, i: int) -> f64;
//@ fn bounding_box_maybe
//@ ret r
//@ spec
        requires self.bb_req(),
        ensures r.is_some() == self.has_bb(), r.is_some() ==> r->Some_0.is(|i: int| self.bb_lo(i), |i: int| self.bb_hi(i)) && r->Some_0.ok(),
//@ enditem
//@ struct HasBoundingBox3DConverted
//@ enditem
impl<T: HasBoundingBox3DMaybe> HasBoundingBox3DConverted<T> { pub open spec fn inner(&self) -> T { self.data } }
//@ impl HasBoundingBox3DConverted
//@ fn new
//@ ret r
//@ spec
        requires data.bb_req(),
        ensures r.is_some() == data.has_bb(), r.is_some() ==> r->Some_0.inner() == data,
//@ fn get
//@ ret r
//@ spec
        ensures *r == self.inner(),
//@ enditem
//@ impl HasBoundingBox3DMaybe for HasBoundingBox3DConverted
//@ ghost
    open spec fn bb_req(&self) -> bool { self.data.bb_req() }
    open spec fn has_bb(&self) -> bool { self.data.has_bb() }
    open spec fn bb_lo(&self, i: int) -> f64 { self.data.bb_lo(i) }
    open spec fn bb_hi(&self, i: int) -> f64 { self.data.bb_hi(i) }
//@ fn bounding_box_maybe
//@ enditem
//@ impl HasBoundingBox3D for HasBoundingBox3DConverted
//@ fn bounding_box
//@ enditem
//@ file src/bounding_box_3d.rs
//@ impl HasBoundingBox3D for BoundingBox3D
//@ fn bounding_box
//@ enditem
//@ impl HasBoundingBox3DMaybe for BoundingBox3D
//@ ghost
    open spec fn bb_req(&self) -> bool { self.ok() }
    open spec fn has_bb(&self) -> bool { true }
    open spec fn bb_lo(&self, i: int) -> f64 { self.lo(i) }
    open spec fn bb_hi(&self, i: int) -> f64 { self.hi(i) }
//@ fn bounding_box_maybe
//@ enditem
//@ file src/box_3d.rs
//@ struct Box3D
//@ enditem
impl Box3D { pub open spec fn half(&self, i: int) -> f64 { if i == 0 { self.size_x.val.ieee_div(2.0f64) } else if i == 1 { self.size_y.val.ieee_div(2.0f64) } else { self.size_z.val.ieee_div(2.0f64) } } }
//@ impl HasBoundingBox3D for Box3D
//@ fn bounding_box
//@ enditem
//@ impl HasBoundingBox3DMaybe for Box3D
//@ ghost
    open spec fn bb_req(&self) -> bool { self.bb_lo(0).ieee_lt(self.bb_hi(0)) && self.bb_lo(1).ieee_lt(self.bb_hi(1)) && self.bb_lo(2).ieee_lt(self.bb_hi(2))  }
    open spec fn has_bb(&self) -> bool { true }
    open spec fn bb_lo(&self, i: int) -> f64 { self.center.at(i).ieee_sub(self.half(i)) }
    open spec fn bb_hi(&self, i: int) -> f64 { self.center.at(i).ieee_add(self.half(i)) }
//@ fn bounding_box_maybe
//@ enditem
//@ file src/sphere.rs
//@ struct Sphere
//@ enditem
//@ impl HasBoundingBox3D for Sphere
//@ fn bounding_box
//@ enditem
//@ impl HasBoundingBox3DMaybe for Sphere
//@ ghost
    open spec fn bb_req(&self) -> bool { self.bb_lo(0).ieee_lt(self.bb_hi(0)) && self.bb_lo(1).ieee_lt(self.bb_hi(1)) && self.bb_lo(2).ieee_lt(self.bb_hi(2))  }
    open spec fn has_bb(&self) -> bool { true }
    open spec fn bb_lo(&self, i: int) -> f64 { self.center.at(i).ieee_sub(self.radius.val) }
    open spec fn bb_hi(&self, i: int) -> f64 { self.center.at(i).ieee_add(self.radius.val) }
//@ fn bounding_box_maybe
//@ enditem
//@ file src/filter_box_3d.rs
//@ struct FilterBox3D
//@ enditem
//@ impl HasBoundingBox3D for FilterBox3D
//@ fn bounding_box
//@ enditem
//@ impl HasBoundingBox3DMaybe for FilterBox3D
//@ ghost
    open spec fn bb_req(&self) -> bool { self.box_3d.bb_req() }
    open spec fn has_bb(&self) -> bool { true }
    open spec fn bb_lo(&self, i: int) -> f64 { self.box_3d.bb_lo(i) }
    open spec fn bb_hi(&self, i: int) -> f64 { self.box_3d.bb_hi(i) }
//@ fn bounding_box_maybe
//@ enditem
//@ file src/filter_sphere.rs
//@ struct FilterSphere
//@ enditem
//@ impl HasBoundingBox3D for FilterSphere
//@ fn bounding_box
//@ enditem
//@ impl HasBoundingBox3DMaybe for FilterSphere
//@ ghost
    open spec fn bb_req(&self) -> bool { self.sphere.bb_req() }
    open spec fn has_bb(&self) -> bool { true }
    open spec fn bb_lo(&self, i: int) -> f64 { self.sphere.bb_lo(i) }
    open spec fn bb_hi(&self, i: int) -> f64 { self.sphere.bb_hi(i) }
//@ fn bounding_box_maybe
//@ enditem
//@ file src/point_cloud_3d.rs
//@ struct PointCloud3D
//@ enditem
//@ impl HasBoundingBox3DMaybe for PointCloud3D
//@ ghost
    open spec fn bb_req(&self) -> bool { true }
    open spec fn has_bb(&self) -> bool { self.data@.len() >= 2 && self.bb_lo(0).ieee_lt(self.bb_hi(0)) && self.bb_lo(1).ieee_lt(self.bb_hi(1)) && self.bb_lo(2).ieee_lt(self.bb_hi(2))  }
    open spec fn bb_lo(&self, i: int) -> f64 { lo(col3(self.data@, i), self.data@.len() as int) }
    open spec fn bb_hi(&self, i: int) -> f64 { hi(col3(self.data@, i), self.data@.len() as int) }
//@ fn bounding_box_maybe
//@ start
        proof { vec_listing(&self.data); same_limits(col3r(elems(&self.data), 0), col3(self.data@, 0), self.data@.len() as int); same_limits(col3r(elems(&self.data), 1), col3(self.data@, 1), self.data@.len() as int); same_limits(col3r(elems(&self.data), 2), col3(self.data@, 2), self.data@.len() as int); }
//@ enditem
//@ file src/polygon_3d.rs
//@ struct Polygon3D
//@ enditem
//@ impl HasBoundingBox3DMaybe for Polygon3D
//@ ghost
    open spec fn bb_req(&self) -> bool { self.pc.bb_req() }
    open spec fn has_bb(&self) -> bool { self.pc.has_bb() }
    open spec fn bb_lo(&self, i: int) -> f64 { self.pc.bb_lo(i) }
    open spec fn bb_hi(&self, i: int) -> f64 { self.pc.bb_hi(i) }
//@ fn bounding_box_maybe
//@ enditem
//@ file src/mesh_3d.rs
//@ struct Mesh3D
//@ replace `ID: IsDataContainer<P>,` => `` ; not needed for the bounding box
//@ replace `IC: IsIndexContainer,` => `` ; as above
//@ enditem
//@ impl HasBoundingBox3DMaybe for Mesh3D
//@ header impl<P: Is3D, ID: HasBoundingBox3DMaybe, IC> HasBoundingBox3DMaybe for Mesh3D<P, ID, IC>
//@ ghost
    open spec fn bb_req(&self) -> bool { self.pc.bb_req() }
    open spec fn has_bb(&self) -> bool { self.pc.has_bb() }
    open spec fn bb_lo(&self, i: int) -> f64 { self.pc.bb_lo(i) }
    open spec fn bb_hi(&self, i: int) -> f64 { self.pc.bb_hi(i) }
//@ fn bounding_box_maybe
//@ enditem
/// `[&a, &b].iter().map(|x| *x)`: the references in order (assumed: std's slice iterator and map)
#[verifier::external_body]
pub fn two<'a, P>(a: &'a P, b: &'a P) -> (r: Vec<&'a P>) ensures listing(r), elems(r) == seq![a, b] { vec![a, b] }
#[verifier::external_body]
pub fn three<'a, P>(a: &'a P, b: &'a P, c: &'a P) -> (r: Vec<&'a P>) ensures listing(r), elems(r) == seq![a, b, c] { vec![a, b, c] }
//@ file src/line_segment_2d.rs
//@ struct LineSegment2D
//@ enditem
//@ impl HasBoundingBox2DMaybe for LineSegment2D
//@ ghost
    open spec fn bb_req(&self) -> bool { true }
    open spec fn has_bb(&self) -> bool { self.bb_lo(0).ieee_lt(self.bb_hi(0)) && self.bb_lo(1).ieee_lt(self.bb_hi(1)) }
    open spec fn bb_lo(&self, i: int) -> f64 { lo(col2(seq![self.start, self.end], i), 2) }
    open spec fn bb_hi(&self, i: int) -> f64 { hi(col2(seq![self.start, self.end], i), 2) }
//@ fn bounding_box_maybe
//@ replace `[&self.start, &self.end].iter().map(|x| *x)` => `two(&self.start, &self.end)` ; iterator over the two references
//@ start
        proof {
            same_limits(col2r(seq![&self.start, &self.end], 0), col2(seq![self.start, self.end], 0), 2); same_limits(col2r(seq![&self.start, &self.end], 1), col2(seq![self.start, self.end], 1), 2); }
//@ enditem
//@ file src/line_segment_3d.rs
//@ struct LineSegment3D
//@ enditem
//@ impl HasBoundingBox3DMaybe for LineSegment3D
//@ ghost
    open spec fn bb_req(&self) -> bool { true }
    open spec fn has_bb(&self) -> bool { self.bb_lo(0).ieee_lt(self.bb_hi(0)) && self.bb_lo(1).ieee_lt(self.bb_hi(1)) && self.bb_lo(2).ieee_lt(self.bb_hi(2)) }
    open spec fn bb_lo(&self, i: int) -> f64 { lo(col3(seq![self.start, self.end], i), 2) }
    open spec fn bb_hi(&self, i: int) -> f64 { hi(col3(seq![self.start, self.end], i), 2) }
//@ fn bounding_box_maybe
//@ replace `[&self.start, &self.end].iter().map(|x| *x)` => `two(&self.start, &self.end)` ; iterator over the two references
//@ start
        proof {
            same_limits(col3r(seq![&self.start, &self.end], 0), col3(seq![self.start, self.end], 0), 2); same_limits(col3r(seq![&self.start, &self.end], 1), col3(seq![self.start, self.end], 1), 2); same_limits(col3r(seq![&self.start, &self.end], 2), col3(seq![self.start, self.end], 2), 2); }
//@ enditem
//@ file src/tri_face_3d.rs
//@ struct TriFace3D
//@ enditem
impl TriFace3D {
    pub open spec fn tri_lo(&self, i: int) -> f64 { lo(col3(seq![self.a, self.b, self.c], i), 3) }
    pub open spec fn tri_hi(&self, i: int) -> f64 { hi(col3(seq![self.a, self.b, self.c], i), 3) }
    /// what the constructor ensures
    pub open spec fn ok(&self) -> bool { self.tri_lo(0).ieee_lt(self.tri_hi(0)) && self.tri_lo(1).ieee_lt(self.tri_hi(1)) && self.tri_lo(2).ieee_lt(self.tri_hi(2)) }
}
//@ impl TriFace3D
//@ fn new
//@ ret r
//@ spec
        ensures r.is_ok() == (TriFace3D { a, b, c }).ok(), r.is_ok() ==> r->Ok_0.a == a && r->Ok_0.b == b && r->Ok_0.c == c,
//@ replace `[&a, &b, &c].iter().map(|x| *x)` => `three(&a, &b, &c)` ; iterator over the three references
//@ start
        proof { same_limits(col3r(seq![&a, &b, &c], 0), col3(seq![a, b, c], 0), 3); same_limits(col3r(seq![&a, &b, &c], 1), col3(seq![a, b, c], 1), 3); same_limits(col3r(seq![&a, &b, &c], 2), col3(seq![a, b, c], 2), 3); }
//@ fn a
//@ ret r
//@ spec
        ensures *r == self.a,
//@ fn b
//@ ret r
//@ spec
        ensures *r == self.b,
//@ fn c
//@ ret r
//@ spec
        ensures *r == self.c,
//@ enditem
//@ impl HasBoundingBox3D for TriFace3D
//@ fn bounding_box
//@ replace `[&self.a, &self.b, &self.c].iter().map(|x| *x)` => `three(&self.a, &self.b, &self.c)` ; iterator over the three references
//@ start
        proof { let (a, b, c) = (self.a, self.b, self.c);
            same_limits(col3r(seq![&a, &b, &c], 0), col3(seq![a, b, c], 0), 3); same_limits(col3r(seq![&a, &b, &c], 1), col3(seq![a, b, c], 1), 3); same_limits(col3r(seq![&a, &b, &c], 2), col3(seq![a, b, c], 2), 3); }
//@ enditem
//@ impl HasBoundingBox3DMaybe for TriFace3D
//@ ghost
    open spec fn bb_req(&self) -> bool { self.ok() }
    open spec fn has_bb(&self) -> bool { true }
    open spec fn bb_lo(&self, i: int) -> f64 { self.tri_lo(i) }
    open spec fn bb_hi(&self, i: int) -> f64 { self.tri_hi(i) }
//@ fn bounding_box_maybe
//@ enditem
pub open spec fn lo32(f: spec_fn(int) -> f32, n: int) -> f32 decreases n {
    if n <= 1 { f(0) } else { let m = lo32(f, n - 1); if f(n - 1).ieee_lt(m) { f(n - 1) } else { m } }
}
pub open spec fn hi32(f: spec_fn(int) -> f32, n: int) -> f32 decreases n {
    if n <= 1 { f(0) } else { let m = hi32(f, n - 1); if m.ieee_lt(f(n - 1)) { f(n - 1) } else { m } }
}
/// widening the smallest / largest stored coordinate gives the smallest / largest widened coordinate
pub proof fn widened_limits(f: spec_fn(int) -> f32, g: spec_fn(int) -> f64, n: int)
    requires 1 <= n, forall|j: int| 0 <= j < n ==> #[trigger] g(j) == fl32::up(f(j)),
    ensures lo(g, n) == fl32::up(lo32(f, n)), hi(g, n) == fl32::up(hi32(f, n)),
    decreases n
{
    if n > 1 {
        widened_limits(f, g, n - 1);
        assert(g(n - 1) == fl32::up(f(n - 1)));
        fl32::up_keeps_order(f(n - 1), lo32(f, n - 1));
        fl32::up_keeps_order(hi32(f, n - 1), f(n - 1));
    } else { assert(g(0) == fl32::up(f(0))); }
}
//@ file src/point_cloud_3d_f32.rs
//@ struct PointCloud3Df32
//@ enditem
pub open spec fn col32(s: Seq<f32>, i: int) -> spec_fn(int) -> f32 { |j: int| s[3 * j + i] }
pub open spec fn col64(s: Seq<f32>, i: int) -> spec_fn(int) -> f64 { |j: int| fl32::up(s[3 * j + i]) }
//@ impl HasBoundingBox3DMaybe for PointCloud3Df32
//@ ghost
    open spec fn bb_req(&self) -> bool { true }
    open spec fn has_bb(&self) -> bool { self.data@.len() / 3 >= 2 && self.bb_lo(0).ieee_lt(self.bb_hi(0)) && self.bb_lo(1).ieee_lt(self.bb_hi(1)) && self.bb_lo(2).ieee_lt(self.bb_hi(2)) }
    open spec fn bb_lo(&self, i: int) -> f64 { lo(col64(self.data@, i), self.data@.len() as int / 3) }
    open spec fn bb_hi(&self, i: int) -> f64 { hi(col64(self.data@, i), self.data@.len() as int / 3) }
//@ fn bounding_box_maybe
//@ replace `let [x, y, z] = [d[3 * i + 0], d[3 * i + 1], d[3 * i + 2]];` => `let x = d[3 * i + 0]; let y = d[3 * i + 1]; let z = d[3 * i + 2];` ; array pattern written out
//@ loop 0 inv
            invariant d == &self.data, self.data@.len() <= usize::MAX, n_p == self.data@.len() / 3, n_p >= 2,
                minx == lo32(col32(self.data@, 0), i as int), maxx == hi32(col32(self.data@, 0), i as int),
                miny == lo32(col32(self.data@, 1), i as int), maxy == hi32(col32(self.data@, 1), i as int),
                minz == lo32(col32(self.data@, 2), i as int), maxz == hi32(col32(self.data@, 2), i as int),
//@ loop 0 after
        proof { widened_limits(col32(self.data@, 0), col64(self.data@, 0), n_p as int); widened_limits(col32(self.data@, 1), col64(self.data@, 1), n_p as int); widened_limits(col32(self.data@, 2), col64(self.data@, 2), n_p as int); }
//@ enditem
pub struct Norm3D { x: f64, y: f64, z: f64 }
//@ file src/box_unaligned_3d.rs
//@ struct BoxUnaligned3D
//@ enditem
impl BoxUnaligned3D {
    /// the eight corners (for_each_point is verified in c_collide)
    pub uninterp spec fn corners(&self) -> Seq<Point3D>;
}
/// `b.for_each_point(&mut |p: &Point3D| v.push(p.clone()))`
#[verifier::external_body]
pub fn put_corners(b: &BoxUnaligned3D, v: &mut Vec<Point3D>) ensures final(v)@ == old(v)@ + b.corners(), b.corners().len() == 8 { unimplemented!() }
//@ impl HasBoundingBox3DMaybe for BoxUnaligned3D
//@ ghost
    open spec fn bb_req(&self) -> bool { self.bb_lo(0).ieee_lt(self.bb_hi(0)) && self.bb_lo(1).ieee_lt(self.bb_hi(1)) && self.bb_lo(2).ieee_lt(self.bb_hi(2)) }
    open spec fn has_bb(&self) -> bool { true }
    open spec fn bb_lo(&self, i: int) -> f64 { lo(col3(self.corners(), i), 8) }
    open spec fn bb_hi(&self, i: int) -> f64 { hi(col3(self.corners(), i), 8) }
//@ fn bounding_box_maybe
//@ enditem
//@ impl HasBoundingBox3D for BoxUnaligned3D
//@ fn bounding_box
//@ replace `self.for_each_point(&mut |p: &Point3D| corners.push(p.clone()));` => `put_corners(self, &mut corners);` ; see put_corners
//@ tail
        proof {
            let c = corners@; assert(c =~= self.corners()); vec_listing(&corners);
            same_limits(col3r(elems(&corners), 0), col3(c, 0), 8); same_limits(col3r(elems(&corners), 1), col3(c, 1), 8); same_limits(col3r(elems(&corners), 2), col3(c, 2), 8);
        }
//@ enditem
fn main() {}
}

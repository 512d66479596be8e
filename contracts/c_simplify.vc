#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::ops::*;
verus! {
//@include float.inc
broadcast use {vstd::seq_lib::group_seq_properties, fl::ax};
//@include base.inc
//@include num.inc
//@include pos.inc
//@include pos2.inc
//@include flemmas.inc
pub uninterp spec fn f_abs(x: f64) -> f64;
pub assume_specification [f64::abs](x: f64) -> (r: f64) ensures r == f_abs(x);
pub open spec fn clone_ok<P: Clone>() -> bool { forall|a: P, b: P| #[trigger] call_ensures(P::clone, (&a,), b) ==> a == b }
//@ file src/point_cloud_2d.rs
//@ struct PointCloud2D
//@ enditem
/// the derived clone, whose points are not relied on
impl<P: Is2D + Clone> Clone for PointCloud2D<P> { fn clone(&self) -> (r: Self) ensures r.data@.len() == self.data@.len(), forall|i: int| 0 <= i < self.data@.len() ==> cloned(self.data@[i], #[trigger] r.data@[i]) { PointCloud2D { data: self.data.clone() } } }
//@ impl IsRandomAccessible for PointCloud2D
//@ header impl<P: Is2D> PointCloud2D<P>
//@ fn len
//@ ret r
//@ spec
        ensures r == self.data@.len(),
//@ enditem
//@ impl IsMergeable for PointCloud2D
//@ header impl<P: Is2D + Clone> PointCloud2D<P>
//@ fn consume
//@ spec
        requires clone_ok::<P>(),
        ensures final(self).data@ == old(self).data@ + other.data@,
//@ start
        let ghost (s0, s1) = (self.data@, other.data@);
//@ loop 0 iter it
//@ loop 0 inv
            invariant clone_ok::<P>(), it.seq() == s1, self.data@ == s0 + s1.take(it.index@),
//@ loop 0 start
            proof { assert(s1.take(it.index@ + 1) =~= s1.take(it.index@).push(p)); }
//@ loop 0 after
        proof { assert(s1.take(s1.len() as int) =~= s1); }
//@ fn combine
//@ ret r
//@ spec
        requires clone_ok::<P>(),
        ensures r.data@ == self.data@ + other.data@,
//@ tail
        proof { assert(result.data@ =~= self.data@ + other.data@); }
//@ enditem
/// `v.iter().cloned().take(n).collect()` (assumed: std)
#[verifier::external_body]
pub fn first_cloned<P: Clone>(v: &Vec<P>, n: usize) -> (r: Vec<P>)
    ensures r@.len() == (if n <= v@.len() { n as int } else { v@.len() as int }), forall|i: int| 0 <= i < r@.len() ==> cloned(v@[i], #[trigger] r@[i])
{ v.iter().cloned().take(n).collect() }
/// `v.into_iter().skip(n).collect()` (assumed: std)
#[verifier::external_body]
pub fn without_first<P>(v: Vec<P>, n: usize) -> (r: Vec<P>) ensures n <= v@.len() ==> r@ == v@.skip(n as int), n > v@.len() ==> r@.len() == 0 { v.into_iter().skip(n).collect() }
/// `v.into_iter().take(n).collect()` (assumed: std)
#[verifier::external_body]
pub fn only_first<P>(v: Vec<P>, n: usize) -> (r: Vec<P>) ensures n <= v@.len() ==> r@ == v@.take(n as int), n > v@.len() ==> r@ == v@ { v.into_iter().take(n).collect() }
//@ file src/douglas_peucker_2d.rs
/// the distance of a point from the line through two others (from the point they are if they are equal), as computed
#[verifier::opaque]
pub open spec fn line_dist<P: Is2D, Q: Is2D, R: Is2D>(p: P, a: Q, b: R) -> f64 {
    let (dx, dy, px, py) = (b.at(0).ieee_sub(a.at(0)), b.at(1).ieee_sub(a.at(1)), p.at(0).ieee_sub(a.at(0)), p.at(1).ieee_sub(a.at(1)));
    let l = dx.ieee_mul(dx).ieee_add(dy.ieee_mul(dy));
    if l.ieee_eq(0.0f64) { f_sqrt(px.ieee_mul(px).ieee_add(py.ieee_mul(py))) } else { f_abs(dx.ieee_mul(py).ieee_sub(dy.ieee_mul(px))).ieee_div(f_sqrt(l)) }
}
//@ freefn distance_point_line
//@ ret r
//@ spec
    ensures r == line_dist(*p, *l1, *l2),
//@ start
    proof { reveal(line_dist); }
//@ enditem
/// all points strictly between i and j are within the tolerance of the line from i to j
pub open spec fn close<P: Is2D>(s: Seq<P>, i: int, j: int, eps: f64) -> bool { forall|k: int| i < k < j ==> (#[trigger] line_dist(s[k], s[i], s[j])).ieee_le(eps) }
/// r are the points of s at the ids m: from the first to the last, what is left out is close
#[verifier::opaque]
pub open spec fn kept<P: Is2D>(s: Seq<P>, r: Seq<P>, m: Seq<int>, eps: f64) -> bool {
    &&& m.len() == r.len() && m.len() >= 2 && m[0] == 0 && m.last() == s.len() - 1
    &&& forall|k: int| 0 <= k < m.len() ==> 0 <= #[trigger] m[k] < s.len() && r[k] == s[m[k]]
    &&& forall|k: int| 0 <= k < m.len() - 1 ==> #[trigger] m[k] < m[k + 1] && close(s, m[k], m[k + 1], eps)
}
pub open spec fn simplified<P: Is2D>(s: Seq<P>, r: Seq<P>, eps: f64) -> bool { exists|m: Seq<int>| #[trigger] kept(s, r, m, eps) }
pub open spec fn measurable<P: Is2D>(s: Seq<P>) -> bool { forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() ==> !nan(#[trigger] line_dist(s[i], s[j], s[k])) }
/// two simplified halves that share the point at i
pub proof fn joined<P: Is2D>(s: Seq<P>, i: int, a: Seq<P>, b: Seq<P>, eps: f64)
    requires 0 < i < s.len() - 1, simplified(s.take(i + 1), a, eps), simplified(s.skip(i), b, eps)
    ensures simplified(s, a.take(a.len() - 1) + b, eps), a.len() > 0
{
    reveal(kept);
    let m = choose|m: Seq<int>| #[trigger] kept(s.take(i + 1), a, m, eps);
    let n = choose|n: Seq<int>| #[trigger] kept(s.skip(i), b, n, eps);
    let r = a.take(a.len() - 1) + b;
    let o = m.take(m.len() - 1) + n.map_values(|x: int| x + i);
    let l = m.len() - 1;
    assert forall|k: int| 0 <= k < o.len() implies 0 <= #[trigger] o[k] < s.len() && r[k] == s[o[k]] by {
        if k < l { assert(o[k] == m[k]); } else { assert(o[k] == n[k - l] + i); }
    }
    assert forall|k: int| 0 <= k < o.len() - 1 implies #[trigger] o[k] < o[k + 1] && close(s, o[k], o[k + 1], eps) by {
        if k < l {
            assert(o[k] == m[k] && m[k] < m[k + 1]); assert(close(s.take(i + 1), m[k], m[k + 1], eps));
            if k + 1 == l { assert(m[k + 1] == i); assert(o[k + 1] == n[0] + i); } else { assert(o[k + 1] == m[k + 1]); }
            assert forall|h: int| o[k] < h < o[k + 1] implies (#[trigger] line_dist(s[h], s[o[k]], s[o[k + 1]])).ieee_le(eps) by {
                let t = s.take(i + 1);
                assert(line_dist(t[h], t[m[k]], t[m[k + 1]]).ieee_le(eps));
            }
        } else {
            let q = k - l;
            assert(o[k] == n[q] + i && n[q] < n[q + 1] && o[k + 1] == n[q + 1] + i); assert(close(s.skip(i), n[q], n[q + 1], eps));
            assert forall|h: int| o[k] < h < o[k + 1] implies (#[trigger] line_dist(s[h], s[o[k]], s[o[k + 1]])).ieee_le(eps) by {
                let t = s.skip(i);
                assert(line_dist(t[h - i], t[n[q]], t[n[q + 1]]).ieee_le(eps));
            }
        }
    }
    assert(o[0] == 0) by { if l > 0 { assert(o[0] == m[0]); } }
    assert(o.last() == s.len() - 1);
    assert(kept(s, r, o, eps));
}
pub proof fn ends_only<P: Is2D>(s: Seq<P>, r: Seq<P>, eps: f64)
    requires s.len() >= 2, r.len() == 2, r[0] == s[0], r[1] == s.last(), close(s, 0, s.len() - 1, eps)
    ensures simplified(s, r, eps)
{ reveal(kept); assert(kept(s, r, seq![0int, s.len() - 1], eps)); }
pub proof fn bound_by<P: Is2D>(s: Seq<P>, i: int, j: int, h: int, d: f64, e: f64)
    requires forall|k: int| i < k < h ==> (#[trigger] line_dist(s[k], s[i], s[j])).ieee_le(d), d.ieee_le(e)
    ensures forall|k: int| i < k < h ==> (#[trigger] line_dist(s[k], s[i], s[j])).ieee_le(e)
{ assert forall|k: int| i < k < h implies (#[trigger] line_dist(s[k], s[i], s[j])).ieee_le(e) by { le_trans(line_dist(s[k], s[i], s[j]), d, e); } }
pub proof fn zero(e: f64) ensures 0.0f64.ieee_le(e) ==> !nan(e) { assert(0.0f64.ieee_le(e) ==> e.ieee_eq(e)) by(bit_vector); }
/// both cases of the contract, for at least two points
pub proof fn small<P: Is2D>(s: Seq<P>, r: Seq<P>, eps: f64)
    requires s.len() >= 2, s.len() <= 2 ==> r == s, s.len() > 2 ==> simplified(s, r, eps)
    ensures simplified(s, r, eps)
{ if s.len() == 2 { ends_only(s, r, eps); } }
//@ freefn douglas_peucker_2d
//@ replace `pc.data.iter().cloned().take($1).collect()` => `first_cloned(&pc.data, $1)` ; the iterator chain is the trusted body of first_cloned
//@ replace `pc.data.into_iter().skip($1).collect()` => `without_first(pc.data, $1)` ; the iterator chain is the trusted body of without_first
//@ replace `pc1.data.into_iter().take($1).collect()` => `only_first(pc1.data, $1)` ; the iterator chain is the trusted body of only_first
//@ ret r
//@ spec
    requires clone_ok::<P>(), 0.0f64.ieee_le(epsilon), measurable(pc.data@),
    ensures pc.data@.len() <= 2 ==> r.data@ == pc.data@, pc.data@.len() > 2 ==> simplified(pc.data@, r.data@, epsilon),
    decreases pc.data@.len(),
//@ start
    let ghost s = pc.data@;
    proof { assert(!nan(0.0f64)) by { assert(0.0f64.ieee_eq(0.0f64)) by(bit_vector); } assert(0.0f64.ieee_le(0.0f64)) by(bit_vector); }
//@ loop 0 inv
        invariant pc.data@ == s, end == s.len() - 1, s.len() > 2, measurable(s), !nan(dmax), 0 <= index < end, index < i || index == 0, 0.0f64.ieee_le(dmax), index == 0 ==> dmax == 0.0f64,
            forall|k: int| 1 <= k < i ==> (#[trigger] line_dist(s[k], s[0], s[end as int])).ieee_le(dmax),
//@ loop 0 start
        proof {
            let x = line_dist(s[i as int], s[0], s[end as int]);
            tri(dmax, x); tri(x, dmax); tri(x, x); tri(dmax, dmax);
            if dmax.ieee_lt(x) { lt_facts(dmax, x); bound_by(s, 0, end as int, i as int, dmax, x); le_trans(0.0f64, dmax, x); }
        }
//@ before `if index > 0`
    proof { zero(epsilon); tri(dmax, epsilon); if dmax.ieee_le(epsilon) { bound_by(s, 0, end as int, end as int, dmax, epsilon); } }
//@ before `pc1 = douglas_peucker_2d(pc1, epsilon)`
        proof { assert(pc1.data@ =~= s.take(index + 1)); assert forall|i: int, j: int, k: int| 0 <= i <= index && 0 <= j <= index && 0 <= k <= index implies !nan(#[trigger] line_dist(pc1.data@[i], pc1.data@[j], pc1.data@[k])) by { assert(!nan(line_dist(s[i], s[j], s[k]))); } }
//@ before `pc2 = douglas_peucker_2d(pc2, epsilon)`
        proof { assert forall|i: int, j: int, k: int| 0 <= i < pc2.data@.len() && 0 <= j < pc2.data@.len() && 0 <= k < pc2.data@.len() implies !nan(#[trigger] line_dist(pc2.data@[i], pc2.data@[j], pc2.data@[k])) by { assert(!nan(line_dist(s[i + index], s[j + index], s[k + index]))); } }
//@ before `let n_take`
        let ghost (a, b) = (pc1.data@, pc2.data@);
        proof { small(s.take(index + 1), a, epsilon); small(s.skip(index as int), b, epsilon); joined(s, index as int, a, b, epsilon); }
//@ tailwrap
    proof { if s.len() > 2 && pc.data@.len() == 2 && pc.data@[0] == s[0] && pc.data@[1] == s.last() && close(s, 0, s.len() - 1, epsilon) { ends_only(s, pc.data@, epsilon); } }
//@ enditem
} // verus!
fn main() {}

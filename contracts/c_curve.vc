#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::ops::*;
use std::marker::PhantomData;
verus! {
//@include float.inc
broadcast use {vstd::seq_lib::group_seq_properties, fl::ax};
//@include base.inc
//@include num.inc
//@include pos.inc
//@include pos2.inc
//@include pos3.inc
//@include point2.inc
//@include point3.inc
//@include flemmas.inc
//@include dist3.inc
//@ file src/distances_2d.rs
//@ freefn dist_2d
//@ ret r
//@ spec
    ensures r == f_sqrt(sqr_dist2(p, q)),
//@ enditem
//@ freefn sqr_dist_2d
//@ ret r
//@ spec
    ensures r == sqr_dist2(p, q),
//@ enditem
/// the sum of the squared coordinate differences
pub open spec fn sqr_dist2<P: Is2D, Q: Is2D>(p: &P, q: &Q) -> f64 { sq(p.at(0).ieee_sub(q.at(0))).ieee_add(sq(p.at(1).ieee_sub(q.at(1)))) }
/// the number of positions as a float (assumed: std's cast)
pub uninterp spec fn u2f(x: usize) -> f64;
#[verifier::external_body]
pub fn as_f64(x: usize) -> (r: f64) ensures r == u2f(x) { x as f64 }
//@ file src/has_length.rs
//@ trait HasLength
//@ ghost
    spec fn len_of(&self) -> f64;
//@ fn length
//@ ret r
//@ spec
        ensures r == self.len_of(),
//@ enditem
/// the distances from position to position, up to the n-th
pub open spec fn path2<P: Is2D>(s: Seq<P>, n: int) -> f64 decreases n { if n <= 1 { 0.0f64 } else { path2(s, n - 1).ieee_add(f_sqrt(sqr_dist2(&s[n - 1], &s[n - 2]))) } }
//@ file src/point_cloud_2d.rs
//@ struct PointCloud2D
//@ enditem
//@ impl PointCloud2D
//@ fn with_capacity
//@ ret r
//@ spec
        ensures r.data@ == Seq::<P>::empty(),
//@ enditem
//@ file src/is_pushable.rs
//@ trait IsPushable
//@ header pub trait IsPushable<T>
//@ ghost
    spec fn listed(&self) -> Seq<T>;
//@ fn push
//@ spec
        ensures final(self).listed() == old(self).listed().push(x),
//@ enditem
//@ file src/point_cloud_2d.rs
//@ impl IsPushable for PointCloud2D
//@ ghost
    open spec fn listed(&self) -> Seq<P> { self.data@ }
//@ fn push
//@ enditem
//@ impl HasLength for PointCloud2D
//@ ghost
    open spec fn len_of(&self) -> f64 { path2(self.data@, self.data@.len() as int) }
//@ floatassign
//@ fn length
//@ loop 0 inv
            invariant length == path2(self.data@, i as int),
//@ enditem
pub uninterp spec fn f_sin(x: f64) -> f64;
pub assume_specification [f64::sin](x: f64) -> (r: f64) ensures r == f_sin(x);
pub uninterp spec fn f_cos(x: f64) -> f64;
pub assume_specification [f64::cos](x: f64) -> (r: f64) ensures r == f_cos(x);
pub uninterp spec fn f_abs(x: f64) -> f64;
pub assume_specification [f64::abs](x: f64) -> (r: f64) ensures r == f_abs(x);
pub uninterp spec fn f_pi() -> f64;
/// the constant PI (assumed: some number)
#[verifier::external_body]
pub fn pi() -> (r: f64) ensures r == f_pi() { std::f64::consts::PI }
#[derive(Clone, Copy)]
pub struct Rad(pub f64);
/// the distance of n values which cover the length, both ends included
pub open spec fn spaced(length: f64, n: int) -> f64 { if n < 2 { 0.0f64 } else { length.ieee_div(u2f((n - 1) as usize)) } }
//@ file src/utils.rs
//@ freefn spacing
//@ replace `(n - 1) as f64` => `as_f64(n - 1)` ; Verus has no cast to floats
//@ ret r
//@ spec
    ensures r == spaced(length, n as int),
//@ enditem
pub open spec fn half(x: f64) -> f64 { x.ieee_div(2.0f64) }
/// p is at x, y
pub open spec fn is_at<P: Is2D>(p: P, x: f64, y: f64) -> bool { p.at(0) == x && p.at(1) == y }
/// the value after i steps
pub open spec fn after(start: f64, step: f64, i: int) -> f64 { start.ieee_add(u2f(i as usize).ieee_mul(step)) }
pub open spec fn on_involute<P: Is2D>(p: P, x: f64, y: f64, d: f64, t: f64) -> bool {
    is_at(p, x.ieee_add(half(d).ieee_mul(f_cos(t).ieee_add(t.ieee_mul(f_sin(t))))), y.ieee_add(half(d).ieee_mul(f_sin(t).ieee_sub(t.ieee_mul(f_cos(t))))))
}
pub open spec fn on_circle<P: Is2D>(p: P, x: f64, y: f64, d: f64, t: f64) -> bool { is_at(p, x.ieee_add(half(d).ieee_mul(f_cos(t))), y.ieee_add(half(d).ieee_mul(f_sin(t)))) }
/// (turned by an angle of zero)
pub open spec fn on_ellipse<P: Is2D>(p: P, x: f64, y: f64, a: f64, b: f64, t: f64) -> bool {
    is_at(p, x.ieee_add(a.ieee_mul(f_cos(t)).ieee_mul(f_cos(0.0f64))).ieee_sub(b.ieee_mul(f_sin(t)).ieee_mul(f_sin(0.0f64))),
        y.ieee_add(a.ieee_mul(f_cos(t)).ieee_mul(f_sin(0.0f64))).ieee_add(b.ieee_mul(f_sin(t)).ieee_mul(f_cos(0.0f64))))
}
//@ file src/factory_2d.rs
//@ freefn rectangle
//@ ret r
//@ spec
    ensures r.data@.len() == 4,
        is_at(r.data@[0], center.at(0).ieee_sub(half(width.val)), center.at(1).ieee_sub(half(height.val))),
        is_at(r.data@[1], center.at(0).ieee_add(half(width.val)), center.at(1).ieee_sub(half(height.val))),
        is_at(r.data@[2], center.at(0).ieee_add(half(width.val)), center.at(1).ieee_add(half(height.val))),
        is_at(r.data@[3], center.at(0).ieee_sub(half(width.val)), center.at(1).ieee_add(half(height.val))),
//@ enditem
//@ freefn involut_circle
//@ replace `(i as f64)` => `as_f64(i)` ; Verus has no cast to floats
//@ ret r
//@ spec
    ensures r.data@.len() == n_points, forall|j: int| 0 <= j < n_points ==> on_involute(#[trigger] r.data@[j], center.at(0), center.at(1), diameter.val, after(start.0, spaced(f_abs(end.0.ieee_sub(start.0)), n_points as int), j)),
//@ start
    proof { fl::at(end.0, start.0); }
//@ loop 0 inv
        invariant pc.data@.len() == i, p_dist == spaced(f_abs(end.0.ieee_sub(start.0)), n_points as int), d == diameter.val, forall|j: int| 0 <= j < i ==> on_involute(#[trigger] pc.data@[j], center.at(0), center.at(1), diameter.val, after(start.0, p_dist, j)),
//@ loop 0 start
        proof { fl::at(start.0, u2f(i).ieee_mul(p_dist)); }
//@ enditem
//@ freefn arc
//@ replace `(i as f64)` => `as_f64(i)` ; Verus has no cast to floats
//@ ret r
//@ spec
    ensures r.data@.len() == n_points, forall|j: int| 0 <= j < n_points ==> on_circle(#[trigger] r.data@[j], center.at(0), center.at(1), diameter.val, after(start.0, spaced(f_abs(end.0.ieee_sub(start.0)), n_points as int), j)),
//@ start
    proof { fl::at(end.0, start.0); }
//@ loop 0 inv
        invariant pc.data@.len() == i, p_dist == spaced(f_abs(end.0.ieee_sub(start.0)), n_points as int), d == diameter.val, forall|j: int| 0 <= j < i ==> on_circle(#[trigger] pc.data@[j], center.at(0), center.at(1), diameter.val, after(start.0, p_dist, j)),
//@ loop 0 start
        proof { fl::at(start.0, u2f(i).ieee_mul(p_dist)); }
//@ enditem
//@ freefn ellipse
//@ replace `(i as f64)` => `as_f64(i)` ; Verus has no cast to floats
//@ replace `PI` => `pi()` ; see pi
//@ ret r
//@ spec
    ensures r.data@.len() == n_points, forall|j: int| 0 <= j < n_points ==> on_ellipse(#[trigger] r.data@[j], center.at(0), center.at(1), ap.val, bp.val, u2f(j as usize).ieee_mul(spaced(2.0f64.ieee_mul(f_pi()), n_points as int))),
//@ loop 0 inv
        invariant pc.data@.len() == i, p_dist == spaced(2.0f64.ieee_mul(f_pi()), n_points as int), a == ap.val, b == bp.val, angle == 0.0f64, forall|j: int| 0 <= j < i ==> on_ellipse(#[trigger] pc.data@[j], center.at(0), center.at(1), ap.val, bp.val, u2f(j as usize).ieee_mul(p_dist)),
//@ enditem
/// the binomial coefficient, factor by factor
pub open spec fn choose_k(n: int, k: int) -> f64 decreases k { if k <= 0 { 1.0f64 } else { choose_k(n, k - 1).ieee_mul(u2f((n - (k - 1)) as usize)).ieee_div(u2f(k as usize)) } }
/// the weight of base point i of n + 1
pub open spec fn weight(n: int, i: int, t: f64) -> f64 { choose_k(n, i).ieee_mul(f_powi(t, i as i32)).ieee_mul(f_powi(1.0f64.ieee_sub(t), (n - i) as i32)) }
/// the weighted sum of the first k coordinates
pub open spec fn weighted<P: Is2D>(s: Seq<P>, d: int, n: int, t: f64, k: int) -> f64 decreases k { if k <= 0 { 0.0f64 } else { weighted(s, d, n, t, k - 1).ieee_add(weight(n, k - 1, t).ieee_mul(s[k - 1].at(d))) } }
//@ file src/interpolate_2d.rs
//@ freefn binominal_coefficient
//@ replace `(n - i) as f64` => `as_f64(n - i)` ; Verus has no cast to floats
//@ replace `(i + 1) as f64` => `as_f64(i + 1)` ; as above
//@ ret r
//@ spec
    requires k <= n,
    ensures r == choose_k(n as int, k as int),
//@ loop 0 inv
        invariant k <= n, result == choose_k(n as int, i as int),
//@ enditem
//@ freefn bernstein_polynomial
//@ ret r
//@ spec
    requires i <= n,
    ensures r == weight(n as int, i as int, t),
//@ enditem
//@ freefn control_polygon
//@ floatassign
//@ ret r
//@ spec
    requires n_points < path.data@.len(), n_points < usize::MAX,
    ensures is_at(r, weighted(path.data@, 0, n_points as int, t, n_points + 1), weighted(path.data@, 1, n_points as int, t, n_points + 1)),
//@ loop 0 inv
        invariant n_points < path.data@.len(), n_points < usize::MAX, x == weighted(path.data@, 0, n_points as int, t, i as int), y == weighted(path.data@, 1, n_points as int, t, i as int),
//@ enditem
pub open spec fn on_bezier<P: Is2D>(p: P, s: Seq<P>, t: f64) -> bool { is_at(p, weighted(s, 0, s.len() - 1, t, s.len() as int), weighted(s, 1, s.len() - 1, t, s.len() as int)) }
//@ freefn interpolate_bezier
//@ replace `base_points.len()` => `base_points.data.len()` ; the body of len
//@ replace `(n_points as f64)` => `as_f64(n_points)` ; Verus has no cast to floats
//@ replace `(i as f64)` => `as_f64(i)` ; as above
//@ ret r
//@ spec
    ensures r.is_ok() == (base_points.data@.len() >= 2),
        r.is_ok() ==> r->Ok_0.data@.len() == n_points && forall|j: int| 0 <= j < n_points ==> on_bezier(#[trigger] r->Ok_0.data@[j], base_points.data@, u2f(j as usize).ieee_mul(1.0f64.ieee_div(u2f(n_points)))),
//@ loop 0 inv
        invariant base_points.data@.len() >= 2, p_dist == 1.0f64.ieee_div(u2f(n_points)), pc.data@.len() == i, forall|j: int| 0 <= j < i ==> on_bezier(#[trigger] pc.data@[j], base_points.data@, u2f(j as usize).ieee_mul(p_dist)),
//@ enditem
/// segment k (its end) is the first one which reaches the distance, or the last one
pub open spec fn reached<P: Is2D>(s: Seq<P>, d: f64, k: int) -> bool { 1 <= k < s.len() && (k == s.len() - 1 || d.ieee_le(path2(s, k + 1))) && forall|j: int| 1 <= j < k ==> !d.ieee_le(#[trigger] path2(s, j + 1)) }
/// the part of segment k before the distance
pub open spec fn share<P: Is2D>(s: Seq<P>, d: f64, k: int) -> f64 { if path2(s, k + 1).ieee_eq(path2(s, k)) { 0.0f64 } else { d.ieee_sub(path2(s, k)).ieee_div(path2(s, k + 1).ieee_sub(path2(s, k))) } }
pub open spec fn between(a: f64, b: f64, t: f64) -> f64 { a.ieee_add(t.ieee_mul(b.ieee_sub(a))) }
pub open spec fn on_lines<P: Is2D>(p: P, s: Seq<P>, d: f64) -> bool { exists|k: int| #[trigger] reached(s, d, k) && is_at(p, between(s[k - 1].at(0), s[k].at(0), share(s, d, k)), between(s[k - 1].at(1), s[k].at(1), share(s, d, k))) }
pub open spec fn eased(t: f64) -> f64 { 1.0f64.ieee_sub(f_cos(t.ieee_mul(f_pi()))).ieee_div(2.0f64) }
pub open spec fn on_waves<P: Is2D>(p: P, s: Seq<P>, d: f64) -> bool {
    exists|k: int| #[trigger] reached(s, d, k) && is_at(p, between(s[k - 1].at(0), s[k].at(0), share(s, d, k)), s[k - 1].at(1).ieee_mul(1.0f64.ieee_sub(eased(share(s, d, k)))).ieee_add(s[k].at(1).ieee_mul(eased(share(s, d, k)))))
}
/// the distance along the base points at which point j is
pub open spec fn stop<P: Is2D>(s: Seq<P>, n: int, j: int) -> f64 { spaced(path2(s, s.len() as int), n).ieee_mul(u2f(j as usize)) }
//@ freefn interpolate_cosine
//@ floatassign
//@ replace `base_points.len()` => `base_points.data.len()` ; the body of len
//@ replace `let ref p_prev = base_points.data[j - 1];` => `let p_prev = &base_points.data[j - 1];` ; the same pattern
//@ replace `let ref p_now = base_points.data[j];` => `let p_now = &base_points.data[j];` ; as above
//@ replace `(i as f64)` => `as_f64(i)` ; Verus has no cast to floats
//@ replace `PI` => `pi()` ; see pi
//@ ret r
//@ spec
    ensures r.is_ok() == (base_points.data@.len() >= 2),
        r.is_ok() ==> r->Ok_0.data@.len() == n_points && forall|j: int| 0 <= j < n_points ==> on_waves(#[trigger] r->Ok_0.data@[j], base_points.data@, stop(base_points.data@, n_points as int, j)),
//@ loop 0 inv
        invariant base_points.data@.len() >= 2, p_dist == spaced(path2(base_points.data@, base_points.data@.len() as int), n_points as int), pc.data@.len() == i, forall|j: int| 0 <= j < i ==> on_waves(#[trigger] pc.data@[j], base_points.data@, stop(base_points.data@, n_points as int, j)),
//@ loop 1 inv
            invariant_except_break pc.data@.len() == i, traveled == path2(base_points.data@, j as int), traveled_before == traveled, forall|k: int| 1 <= k < j ==> !stop(base_points.data@, n_points as int, i as int).ieee_le(#[trigger] path2(base_points.data@, k + 1)), j < base_points.data@.len(),
            invariant base_points.data@.len() >= 2, i < n_points, p_dist == spaced(path2(base_points.data@, base_points.data@.len() as int), n_points as int), pc.data@.len() >= i, forall|k: int| 0 <= k < i ==> on_waves(#[trigger] pc.data@[k], base_points.data@, stop(base_points.data@, n_points as int, k)),
            ensures pc.data@.len() == i + 1, on_waves(pc.data@[i as int], base_points.data@, stop(base_points.data@, n_points as int, i as int)),
//@ loop 1 start
                proof { let (s, d) = (base_points.data@, stop(base_points.data@, n_points as int, i as int)); if j == s.len() - 1 || d.ieee_le(path2(s, j + 1)) { assert(reached(s, d, j as int)); } }
//@ enditem
//@ freefn interpolation_linear
//@ floatassign
//@ replace `base_points.len()` => `base_points.data.len()` ; the body of len
//@ replace `let ref p_prev = base_points.data[j - 1];` => `let p_prev = &base_points.data[j - 1];` ; the same pattern
//@ replace `let ref p_now = base_points.data[j];` => `let p_now = &base_points.data[j];` ; as above
//@ replace `(i as f64)` => `as_f64(i)` ; Verus has no cast to floats
//@ ret r
//@ spec
    ensures r.is_ok() == (base_points.data@.len() >= 2),
        r.is_ok() ==> r->Ok_0.data@.len() == n_points && forall|j: int| 0 <= j < n_points ==> on_lines(#[trigger] r->Ok_0.data@[j], base_points.data@, stop(base_points.data@, n_points as int, j)),
//@ loop 0 inv
        invariant base_points.data@.len() >= 2, p_dist == spaced(path2(base_points.data@, base_points.data@.len() as int), n_points as int), pc.data@.len() == i, forall|j: int| 0 <= j < i ==> on_lines(#[trigger] pc.data@[j], base_points.data@, stop(base_points.data@, n_points as int, j)),
//@ loop 1 inv
            invariant_except_break pc.data@.len() == i, traveled == path2(base_points.data@, j as int), traveled_before == traveled, forall|k: int| 1 <= k < j ==> !stop(base_points.data@, n_points as int, i as int).ieee_le(#[trigger] path2(base_points.data@, k + 1)), j < base_points.data@.len(),
            invariant base_points.data@.len() >= 2, i < n_points, p_dist == spaced(path2(base_points.data@, base_points.data@.len() as int), n_points as int), pc.data@.len() >= i, forall|k: int| 0 <= k < i ==> on_lines(#[trigger] pc.data@[k], base_points.data@, stop(base_points.data@, n_points as int, k)),
            ensures pc.data@.len() == i + 1, on_lines(pc.data@[i as int], base_points.data@, stop(base_points.data@, n_points as int, i as int)),
//@ loop 1 start
                proof { let (s, d) = (base_points.data@, stop(base_points.data@, n_points as int, i as int)); if j == s.len() - 1 || d.ieee_le(path2(s, j + 1)) { assert(reached(s, d, j as int)); } }
//@ enditem
} fn main() {}

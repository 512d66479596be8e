#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::cmp::Ordering;
use std::ops::*;
verus! {
//@include float.inc
broadcast use {vstd::seq_lib::group_seq_properties, vstd::seq_lib::group_to_multiset_ensures, fl::ax, ord::ax_pcmp};
//@include base.inc
//@include num.inc
//@include pos.inc
//@include pos2.inc
//@include flemmas.inc
//@include sort.inc
// ---- points with integer coordinates
pub type Z = (int, int);
pub open spec fn sub(a: Z, b: Z) -> Z { (a.0 - b.0, a.1 - b.1) }
pub open spec fn cross(a: Z, b: Z) -> int { a.0 * b.1 - a.1 * b.0 }
/// positive if a, b, c turn left
pub open spec fn det(a: Z, b: Z, c: Z) -> int { cross(sub(b, a), sub(c, a)) }
/// to the right, or above
pub open spec fn right(v: Z) -> bool { v.0 > 0 || v.0 == 0 && v.1 > 0 }
pub open spec fn lex(a: Z, b: Z) -> bool { a.0 < b.0 || a.0 == b.0 && a.1 < b.1 }
pub open spec fn lexle(a: Z, b: Z) -> bool { a == b || lex(a, b) }
/// among vectors to the right, turning left is transitive
pub proof fn turn_trans(n: Z, v: Z, w: Z)
    requires right(n), right(v), right(w), cross(n, v) >= 0, cross(v, w) >= 0
    ensures cross(n, w) >= 0, cross(n, v) > 0 || cross(v, w) > 0 ==> cross(n, w) > 0
{
    let (a, b, c) = (cross(n, v), cross(v, w), cross(n, w));
    assert(c * v.0 == a * w.0 + b * n.0) by(nonlinear_arith) requires a == n.0 * v.1 - n.1 * v.0, b == v.0 * w.1 - v.1 * w.0, c == n.0 * w.1 - n.1 * w.0;
    assert(c * v.1 == a * w.1 + b * n.1) by(nonlinear_arith) requires a == n.0 * v.1 - n.1 * v.0, b == v.0 * w.1 - v.1 * w.0, c == n.0 * w.1 - n.1 * w.0;
    assert(a * w.0 >= 0) by(nonlinear_arith) requires a >= 0, w.0 >= 0;
    assert(b * n.0 >= 0) by(nonlinear_arith) requires b >= 0, n.0 >= 0;
    if v.0 > 0 {
        assert(c >= 0) by(nonlinear_arith) requires c * v.0 >= 0, v.0 > 0;
        if a > 0 && w.0 > 0 { assert(a * w.0 > 0) by(nonlinear_arith) requires a > 0, w.0 > 0; }
        if b > 0 && n.0 > 0 { assert(b * n.0 > 0) by(nonlinear_arith) requires b > 0, n.0 > 0; }
        if c == 0 {
            assert(c * v.0 == 0) by(nonlinear_arith) requires c == 0;
            // then w (if a > 0) or n (if b > 0) points straight up, and the turns contradict it
            if a > 0 { assert(w.0 == 0); assert(a * w.1 > 0) by(nonlinear_arith) requires a > 0, w.1 > 0; assert(c * v.1 == 0) by(nonlinear_arith) requires c == 0; assert(b * n.1 < 0);
                assert(b * n.0 == 0); if b > 0 { assert(n.0 == 0) by(nonlinear_arith) requires b * n.0 == 0, b > 0; assert(b * n.1 > 0) by(nonlinear_arith) requires b > 0, n.1 > 0; } else { assert(b * n.1 == 0) by(nonlinear_arith) requires b == 0; } }
            if b > 0 { assert(n.0 == 0); assert(b * n.1 > 0) by(nonlinear_arith) requires b > 0, n.1 > 0; assert(c * v.1 == 0) by(nonlinear_arith) requires c == 0; assert(a * w.1 < 0);
                assert(a * w.0 == 0); if a > 0 { assert(w.0 == 0); } else { assert(a * w.1 == 0) by(nonlinear_arith) requires a == 0; } }
        }
    } else {
        assert(v.0 == 0 && v.1 > 0);
        assert(c * v.0 == 0) by(nonlinear_arith) requires v.0 == 0;
        assert(a * w.0 == 0 && b * n.0 == 0);
        // a == n.0 * v.1 and b == -v.1 * w.0
        assert(v.1 * w.0 >= 0) by(nonlinear_arith) requires v.1 > 0, w.0 >= 0;
        assert(v.0 * w.1 == 0) by(nonlinear_arith) requires v.0 == 0;
        assert(n.1 * v.0 == 0) by(nonlinear_arith) requires v.0 == 0;
        assert(b == 0);
        assert(w.0 == 0) by(nonlinear_arith) requires v.1 * w.0 == 0, v.1 > 0;
        assert(n.1 * w.0 == 0) by(nonlinear_arith) requires w.0 == 0;
        assert(c == n.0 * w.1);
        assert(n.0 * w.1 >= 0) by(nonlinear_arith) requires n.0 >= 0, w.1 > 0;
        if a > 0 { assert(n.0 > 0) by(nonlinear_arith) requires n.0 * v.1 > 0, v.1 > 0; assert(n.0 * w.1 > 0) by(nonlinear_arith) requires n.0 > 0, w.1 > 0; }
    }
}
/// the vectors of a determinant: det(a, b, c) in terms of the steps between the points
pub proof fn det_steps(a: Z, b: Z, c: Z)
    ensures det(a, b, c) == cross(sub(b, a), sub(c, b)), det(a, b, c) == cross(sub(c, b), sub(a, b)), det(a, b, c) == -cross(sub(b, a), sub(b, c)), det(a, c, b) == -det(a, b, c), det(b, c, a) == det(a, b, c), det(c, a, b) == det(a, b, c),
        det(a, b, b) == 0, det(a, a, b) == 0, det(a, b, a) == 0,
{
    let (p, q, r, s) = (b.0 - a.0, b.1 - a.1, c.0 - b.0, c.1 - b.1);
    assert(p * (s + q) - q * (r + p) == p * s - q * r) by(nonlinear_arith);
    assert(p * -s - q * -r == -(p * s - q * r)) by(nonlinear_arith);
    assert(r * -q - s * -p == p * s - q * r) by(nonlinear_arith);
    assert((r + p) * q - (s + q) * p == -(p * s - q * r)) by(nonlinear_arith);
    assert(r * -q - s * -p == p * s - q * r) by(nonlinear_arith);
    assert(-(r + p) * -s - -(s + q) * -r == p * s - q * r) by(nonlinear_arith);
    assert(p * q - q * p == 0) by(nonlinear_arith);
    assert(0 * s == 0 && 0 * r == 0 && p * 0 == 0 && q * 0 == 0 );
    assert(sub(b, b) == (0int, 0int)); assert(sub(a, a) == (0int, 0int));
    assert(cross(sub(b, a), sub(c, a)) == p * (s + q) - q * (r + p));
    assert(cross(sub(c, a), sub(b, a)) == (r + p) * q - (s + q) * p);
    assert(cross(sub(c, b), sub(a, b)) == r * -q - s * -p);
    assert(cross(sub(a, c), sub(b, c)) == -(r + p) * -s - -(s + q) * -r);
}
// ---- the monotone chain
#[verifier::opaque]
pub open spec fn in_order(p: Seq<Z>) -> bool { forall|i: int, j: int| 0 <= i <= j < p.len() ==> lexle(#[trigger] p[i], #[trigger] p[j]) }
pub open spec fn flat(p: Seq<Z>) -> bool { forall|j: int| 0 <= j < p.len() ==> #[trigger] p[j] == p[0] }
pub open spec fn up(s: Seq<Z>, k: int) -> bool { lex(s[k], s[k + 1]) }
pub open spec fn turn(s: Seq<Z>, k: int) -> bool { det(s[k], s[k + 1], s[k + 2]) > 0 }
pub open spec fn beside(s: Seq<Z>, k: int, p: Z) -> bool { det(s[k], s[k + 1], p) >= 0 }
/// strictly increasing, always turning left, and with all points left of or on each of its edges
pub open spec fn good(s: Seq<Z>, p: Seq<Z>) -> bool {
    &&& forall|k: int| 0 <= k < s.len() - 1 ==> #[trigger] up(s, k)
    &&& forall|k: int| 0 <= k < s.len() - 2 ==> #[trigger] turn(s, k)
    &&& forall|k: int, j: int| 0 <= k < s.len() - 1 && 0 <= j < p.len() ==> #[trigger] beside(s, k, p[j])
}
/// as long as all points are equal the chain is no more than one of them, maybe twice
pub open spec fn equal(s: Seq<Z>, p: Seq<Z>) -> bool { flat(p) && s.len() <= 2 && flat(s) }
#[verifier::opaque]
pub open spec fn chain(s: Seq<Z>, p: Seq<Z>) -> bool {
    p.len() > 0 && s.len() > 0 && s[0] == p[0] && s.last() == p.last() && (equal(s, p) || good(s, p))
}
/// while the chain is cut back for the next point r
#[verifier::opaque]
pub open spec fn cutting(s: Seq<Z>, p: Seq<Z>, r: Z) -> bool {
    &&& p.len() > 0 && s.len() > 0 && s[0] == p[0] && (equal(s, p) || good(s, p))
    &&& in_order(p) && lexle(s.last(), r) && forall|j: int| 0 <= j < p.len() ==> lexle(#[trigger] p[j], r)
    &&& forall|j: int| 0 <= j < p.len() && lexle(s.last(), p[j]) ==> det(s.last(), r, #[trigger] p[j]) >= 0
}
pub proof fn cut_start(s: Seq<Z>, p: Seq<Z>, r: Z)
    requires chain(s, p), in_order(p.push(r))
    ensures cutting(s, p, r)
{ reveal(chain); reveal(cutting); reveal(in_order);
    let q = p.push(r);
    assert forall|i: int, j: int| 0 <= i <= j < p.len() implies lexle(#[trigger] p[i], #[trigger] p[j]) by { assert(lexle(q[i], q[j])); }
    assert forall|j: int| 0 <= j < p.len() implies lexle(#[trigger] p[j], r) by { assert(lexle(q[j], q[p.len() as int])); }
    assert forall|j: int| 0 <= j < p.len() && lexle(s.last(), p[j]) implies det(s.last(), r, #[trigger] p[j]) >= 0 by {
        assert(lexle(p[j], p[p.len() - 1]));
        det_steps(s.last(), r, p[j]);
        assert(p[j] == s.last());
    }
}
pub proof fn cut_pop(s: Seq<Z>, p: Seq<Z>, r: Z)
    requires cutting(s, p, r), s.len() >= 2, det(s[s.len() - 2], s.last(), r) <= 0
    ensures cutting(s.drop_last(), p, r)
{ reveal(cutting); reveal(in_order);
    let t = s.drop_last();
    let (a, b) = (s[s.len() - 2], s.last());
    assert(t.last() == a);
    if !good(s, p) {
        assert forall|j: int| 0 <= j < p.len() && lexle(t.last(), p[j]) implies det(t.last(), r, #[trigger] p[j]) >= 0 by { assert(p[j] == p[0]); assert(s[s.len() - 2] == s[0]); det_steps(a, r, p[j]); }
        assert(flat(t)) by { assert forall|j: int| 0 <= j < t.len() implies #[trigger] t[j] == t[0] by { assert(s[j] == s[0]); } }
    } else {
        let m = s.len() - 2;
        assert(up(s, m));
        assert forall|k: int| 0 <= k < t.len() - 1 implies #[trigger] up(t, k) by { assert(up(s, k)); }
        assert forall|k: int| 0 <= k < t.len() - 2 implies #[trigger] turn(t, k) by { assert(turn(s, k)); }
        assert forall|k: int, j: int| 0 <= k < t.len() - 1 && 0 <= j < p.len() implies #[trigger] beside(t, k, p[j]) by { assert(beside(s, k, p[j])); }
        assert forall|j: int| 0 <= j < p.len() && lexle(t.last(), p[j]) implies det(t.last(), r, #[trigger] p[j]) >= 0 by {
            let x = p[j];
            assert(beside(s, m, x));
            if lexle(b, x) { between_after(a, b, x, r); } else { between_before(a, b, x, r); }
        }
    }
}
/// a < b <= x <= r; b above the line from a to r, x above the line from b to r
pub proof fn between_after(a: Z, b: Z, x: Z, r: Z)
    requires lex(a, b), lexle(b, x), lexle(x, r), det(a, b, r) <= 0, det(b, r, x) >= 0
    ensures det(a, r, x) >= 0
{
    let (u, z, w) = (sub(b, a), sub(r, b), sub(r, x));
    det_steps(a, r, x); det_steps(b, r, x); det_steps(a, b, r);
    if x == r { } else {
        // det(a, b, r) = cross(u, z), det(b, r, x) = cross(w, z) up to sign
        assert(det(a, b, r) == cross(u, z));
        anti(u, z);
        assert(cross(z, u) >= 0);
        assert(det(b, r, x) == cross(w, z)) by { let (c, d) = (sub(x, r), sub(b, r)); assert(det(r, x, b) == cross(c, d)); det_steps(r, x, b); neg2(w, z); assert(c == neg(w) && d == neg(z)); }
        turn_trans(w, z, u);
        // det(a, r, x) = cross(w, a to r) = cross(w, u) + cross(w, z)
        let (c, d) = (sub(x, r), sub(a, r));
        assert(det(r, x, a) == cross(c, d)); det_steps(r, x, a);
        assert(c == neg(w) && d == neg((u.0 + z.0, u.1 + z.1)));
        neg2(w, (u.0 + z.0, u.1 + z.1));
        cross_add(w, u, z);
    }
}
/// a <= x < b <= r; x above the line from a to b, b above the line from a to r
pub proof fn between_before(a: Z, b: Z, x: Z, r: Z)
    requires lex(a, b), lexle(a, x), lex(x, b), lexle(b, r), det(a, b, r) <= 0, det(a, b, x) >= 0
    ensures det(a, r, x) >= 0
{
    det_steps(a, r, x);
    if x != a {
        let (u, q, z) = (sub(b, a), sub(x, a), sub(r, a));
        anti(u, z);
        turn_trans(z, u, q);
    }
}
pub open spec fn neg(v: Z) -> Z { (-v.0, -v.1) }
pub proof fn anti(v: Z, w: Z) ensures cross(v, w) == -cross(w, v) { assert(v.0 * w.1 - v.1 * w.0 == -(w.0 * v.1 - w.1 * v.0)) by(nonlinear_arith); }
pub proof fn neg2(v: Z, w: Z) ensures cross(neg(v), neg(w)) == cross(v, w) { assert(-v.0 * -w.1 - -v.1 * -w.0 == v.0 * w.1 - v.1 * w.0) by(nonlinear_arith); }
pub proof fn cross_add(v: Z, a: Z, b: Z) ensures cross(v, (a.0 + b.0, a.1 + b.1)) == cross(v, a) + cross(v, b), cross((a.0 + b.0, a.1 + b.1), v) == cross(a, v) + cross(b, v) {
    assert(v.0 * (a.1 + b.1) - v.1 * (a.0 + b.0) == (v.0 * a.1 - v.1 * a.0) + (v.0 * b.1 - v.1 * b.0)) by(nonlinear_arith);
    assert((a.0 + b.0) * v.1 - (a.1 + b.1) * v.0 == (a.0 * v.1 - a.1 * v.0) + (b.0 * v.1 - b.1 * v.0)) by(nonlinear_arith);
}
/// a point left of the last edge of a chain and after it is left of all its edges
pub proof fn left_of_all(s: Seq<Z>, r: Z, k: int)
    requires s.len() >= 2, 0 <= k < s.len() - 1, lex(s.last(), r), det(s[s.len() - 2], s.last(), r) > 0,
        forall|k: int| 0 <= k < s.len() - 1 ==> #[trigger] up(s, k), forall|k: int| 0 <= k < s.len() - 2 ==> #[trigger] turn(s, k),
    ensures det(s[k], s[k + 1], r) > 0, lex(s[k + 1], r),
    decreases s.len() - k
{
    if k < s.len() - 2 {
        left_of_all(s, r, k + 1);
        assert(up(s, k) && up(s, k + 1) && turn(s, k));
        det_steps(s[k], s[k + 1], s[k + 2]); det_steps(s[k], s[k + 1], r);
        turn_trans(sub(s[k + 1], s[k]), sub(s[k + 2], s[k + 1]), sub(r, s[k + 1]));
    }
}
/// x before the last point t of a chain and beside its last edge a, t; r after t and left of that edge
pub proof fn before_top(a: Z, t: Z, x: Z, r: Z)
    requires lex(a, t), lex(x, t), lex(t, r), det(a, t, x) >= 0, det(a, t, r) > 0
    ensures det(t, r, x) >= 0
{
    let (u, v, w) = (sub(t, a), sub(r, t), sub(t, x));
    det_steps(a, t, r); det_steps(a, t, x); det_steps(t, r, x);
    anti(u, w);
    turn_trans(w, u, v);
    // det(t, r, x) = cross(v, x - t) = cross(w, v)
    det_steps(x, t, r); assert(det(x, t, r) == cross(w, v));
}
pub proof fn cut_push(s: Seq<Z>, p: Seq<Z>, r: Z)
    requires cutting(s, p, r), s.len() >= 2 ==> det(s[s.len() - 2], s.last(), r) > 0
    ensures chain(s.push(r), p.push(r))
{ reveal(chain); reveal(cutting); reveal(in_order);
    let (t, q, m) = (s.push(r), p.push(r), s.len() - 1);
    let top = s.last();
    if s.len() >= 2 { det_steps(s[s.len() - 2], top, r); assert(top != r); }
    if s.len() == 2 && !good(s, p) { assert(s[1] == s[0]); det_steps(s[0], s[0], r); assert(false); }
    assert(lexle(p[0], r));
    if top == r {
        assert(s.len() == 1);
        assert forall|j: int| 0 <= j < q.len() implies #[trigger] q[j] == q[0] by { if j < p.len() { assert(lexle(p[0], p[j])); assert(lexle(p[j], r)); } }
        assert(flat(t));
    } else {
        assert forall|k: int| 0 <= k < t.len() - 1 implies #[trigger] up(t, k) by { if k < m { assert(up(s, k)); } }
        assert forall|k: int| 0 <= k < t.len() - 2 implies #[trigger] turn(t, k) by { if k < m - 1 { assert(turn(s, k)); } }
        assert forall|k: int, j: int| 0 <= k < t.len() - 1 && 0 <= j < q.len() implies #[trigger] beside(t, k, q[j]) by {
            if k < m {
                if j < p.len() { assert(beside(s, k, p[j])); } else { left_of_all(s, r, k); }
            } else if j == p.len() { det_steps(top, r, r); det_steps(top, r, top); }
            else {
                let x = p[j];
                assert(det(top, r, x) >= 0) by {
                    if !lexle(top, x) {
                        if s.len() == 1 { assert(lexle(p[0], p[j])); }
                        else { assert(beside(s, m - 1, x)); assert(up(s, m - 1)); assert(lexle(x, r)); before_top(s[m - 1], top, x, r); }
                    }
                }
            }
        }
    }
}
// ---- both chains together
pub proof fn increasing(s: Seq<Z>, i: int, j: int)
    requires 0 <= i < j < s.len(), forall|k: int| 0 <= k < s.len() - 1 ==> #[trigger] up(s, k)
    ensures lex(s[i], s[j])
    decreases j
{ assert(up(s, j - 1)); if i < j - 1 { increasing(s, i, j - 1); } }
/// the points between the ends of a chain are strictly on its outer side
pub proof fn bulge(s: Seq<Z>, i: int)
    requires 0 < i < s.len() - 1, forall|k: int| 0 <= k < s.len() - 1 ==> #[trigger] up(s, k), forall|k: int| 0 <= k < s.len() - 2 ==> #[trigger] turn(s, k),
    ensures det(s[0], s[i], s.last()) > 0
{ rising(s, i); bulge_to(s, i, s.len() - 1); det_steps(s[0], s[i], s.last()); }
pub proof fn rising(s: Seq<Z>, i: int)
    requires 0 < i < s.len() - 1, forall|k: int| 0 <= k < s.len() - 1 ==> #[trigger] up(s, k), forall|k: int| 0 <= k < s.len() - 2 ==> #[trigger] turn(s, k),
    ensures cross(sub(s[i], s[0]), sub(s[i + 1], s[i])) > 0
    decreases i
{
    assert(up(s, i - 1) && up(s, i) && turn(s, i - 1));
    det_steps(s[i - 1], s[i], s[i + 1]);
    let (e, f) = (sub(s[i], s[i - 1]), sub(s[i + 1], s[i]));
    if i > 1 {
        rising(s, i - 1); increasing(s, 0, i - 1);
        let d = sub(s[i - 1], s[0]);
        turn_trans(d, e, f);
        cross_add(f, d, e);
        assert(sub(s[i], s[0]) == (d.0 + e.0, d.1 + e.1));
    }
}
pub proof fn bulge_to(s: Seq<Z>, i: int, j: int)
    requires 0 < i < j < s.len(), forall|k: int| 0 <= k < s.len() - 1 ==> #[trigger] up(s, k), forall|k: int| 0 <= k < s.len() - 2 ==> #[trigger] turn(s, k), cross(sub(s[i], s[0]), sub(s[i + 1], s[i])) > 0
    ensures cross(sub(s[i], s[0]), sub(s[j], s[i])) > 0, cross(sub(s[i], s[0]), sub(s[j], s[j - 1])) > 0
    decreases j
{
    if j > i + 1 {
        bulge_to(s, i, j - 1); increasing(s, 0, i);
        assert(up(s, j - 2) && up(s, j - 1) && turn(s, j - 2));
        det_steps(s[j - 2], s[j - 1], s[j]);
        let (d, e, f, g) = (sub(s[i], s[0]), sub(s[j - 1], s[j - 2]), sub(s[j], s[j - 1]), sub(s[j - 1], s[i]));
        turn_trans(d, e, f);
        cross_add(d, g, f);
        assert(sub(s[j], s[i]) == (g.0 + f.0, g.1 + f.1));
    }
}
pub open spec fn next(k: int, n: int) -> int { if k + 1 == n { 0 } else { k + 1 } }
/// every point is left of or on every edge of h, and nothing is listed twice
#[verifier::opaque]
pub open spec fn encloses(h: Seq<Z>, p: Seq<Z>) -> bool {
    &&& forall|k: int, j: int| 0 <= k < h.len() && 0 <= j < p.len() ==> det(#[trigger] h[k], h[next(k, h.len() as int)], #[trigger] p[j]) >= 0
    &&& forall|i: int, j: int| 0 <= i < j < h.len() ==> #[trigger] h[i] != #[trigger] h[j]
}
/// the points seen upside down, from the last to the first
pub open spec fn turned(p: Seq<Z>) -> Seq<Z> { Seq::new(p.len(), |j: int| neg(p[p.len() - 1 - j])) }
pub open spec fn joined(s: Seq<Z>, u: Seq<Z>) -> Seq<Z> { s.drop_last() + u.drop_last().map_values(|z: Z| neg(z)) }
pub proof fn neg_det(a: Z, b: Z, c: Z) ensures det(neg(a), neg(b), neg(c)) == det(a, b, c) {
    neg2(sub(b, a), sub(c, a)); assert(sub(neg(b), neg(a)) == neg(sub(b, a)) && sub(neg(c), neg(a)) == neg(sub(c, a)));
}
/// the vertices of the two chains in the joined list
pub proof fn joined_at(s: Seq<Z>, u: Seq<Z>, k: int)
    requires s.len() >= 2, u.len() >= 2, s[0] == neg(u.last()), s.last() == neg(u[0]), 0 <= k < s.len() - 1 + u.len() - 1
    ensures joined(s, u).len() == s.len() - 1 + u.len() - 1,
        k < s.len() - 1 ==> joined(s, u)[k] == s[k] && joined(s, u)[next(k, s.len() - 1 + u.len() - 1)] == s[k + 1],
        k >= s.len() - 1 ==> joined(s, u)[k] == neg(u[k - (s.len() - 1)]) && joined(s, u)[next(k, s.len() - 1 + u.len() - 1)] == neg(u[k - (s.len() - 1) + 1]),
{
    let (h, a, b) = (joined(s, u), s.len() - 1, u.len() - 1);
    assert(h[a] == neg(u[0])); assert(h[0] == s[0]);
    if a <= k < a + b - 1 { assert(h[k + 1] == neg(u[k + 1 - a])); }
}
pub proof fn both_edges(s: Seq<Z>, u: Seq<Z>, p: Seq<Z>, k: int, j: int)
    requires good(s, p), good(u, turned(p)), s.len() >= 2, u.len() >= 2, s[0] == neg(u.last()), s.last() == neg(u[0]), 0 <= k < joined(s, u).len(), 0 <= j < p.len()
    ensures det(joined(s, u)[k], joined(s, u)[next(k, joined(s, u).len() as int)], p[j]) >= 0
{
    let (q, h, n, a) = (turned(p), joined(s, u), p.len() as int, s.len() - 1);
    joined_at(s, u, k);
    if k < a { assert(beside(s, k, p[j])); }
    else { let i = k - a; assert(q[n - 1 - j] == neg(p[j])); assert(beside(u, i, q[n - 1 - j])); neg_det(neg(u[i]), neg(u[i + 1]), p[j]); assert(neg(neg(u[i])) == u[i] && neg(neg(u[i + 1])) == u[i + 1]); }
}
pub proof fn both_distinct(s: Seq<Z>, u: Seq<Z>, p: Seq<Z>, i: int, j: int)
    requires good(s, p), good(u, turned(p)), s.len() >= 2, u.len() >= 2, s[0] == neg(u.last()), s.last() == neg(u[0]), 0 <= i < j < joined(s, u).len()
    ensures joined(s, u)[i] != joined(s, u)[j]
{
    let (a, b) = (s.len() - 1, u.len() - 1);
    joined_at(s, u, i); joined_at(s, u, j);
    if j < a { increasing(s, i, j); }
    else if i >= a { increasing(u, i - a, j - a); }
    else { apart(s, u, i, j - a); }
}
pub proof fn apart(s: Seq<Z>, u: Seq<Z>, i: int, k: int)
    requires s.len() >= 2, u.len() >= 2, s[0] == neg(u.last()), s.last() == neg(u[0]), 0 <= i < s.len() - 1, 0 <= k < u.len() - 1,
        forall|k: int| 0 <= k < s.len() - 1 ==> #[trigger] up(s, k), forall|k: int| 0 <= k < s.len() - 2 ==> #[trigger] turn(s, k),
        forall|k: int| 0 <= k < u.len() - 1 ==> #[trigger] up(u, k), forall|k: int| 0 <= k < u.len() - 2 ==> #[trigger] turn(u, k),
    ensures s[i] != neg(u[k])
{
    let (x, a, b) = (s[i], s.len() - 1, u.len() - 1);
    if k == 0 { increasing(s, i, a); }
    else if i == 0 { increasing(u, k, b); }
    else {
        bulge(s, i); bulge(u, k);
        neg_det(u[0], u[k], u[b]);
        det_steps(s[0], x, s[a]); det_steps(s[a], x, s[0]);
    }
}
pub proof fn both(s: Seq<Z>, u: Seq<Z>, p: Seq<Z>)
    requires chain(s, p), chain(u, turned(p)), p.len() > 0, p[0] != p.last()
    ensures encloses(joined(s, u), p), joined(s, u).len() >= 2, s.len() >= 2, u.len() >= 2
{ reveal(chain); reveal(encloses);
    let (q, h, n) = (turned(p), joined(s, u), p.len() as int);
    assert(q[0] == neg(p.last()) && q.last() == neg(p[0]));
    assert(q[0] != q.last());
    assert(good(s, p)) by { if flat(p) { assert(p[n - 1] == p[0]); } }
    assert(good(u, q)) by { if flat(q) { assert(q[n - 1] == q[0]); } }
    assert(s.len() >= 2 && u.len() >= 2);
    joined_at(s, u, 0);
    assert forall|k: int, j: int| 0 <= k < h.len() && 0 <= j < p.len() implies det(#[trigger] h[k], h[next(k, h.len() as int)], #[trigger] p[j]) >= 0 by { both_edges(s, u, p, k, j); }
    assert forall|i: int, j: int| 0 <= i < j < h.len() implies #[trigger] h[i] != #[trigger] h[j] by { both_distinct(s, u, p, i, j); }
}
// ---- coordinates
pub open spec fn fin(x: f64) -> bool { x.ieee_sub(x).ieee_eq(0.0f64) }
/// every finite float is a whole multiple of 2^-1074: how often it holds that
pub uninterp spec fn units(x: f64) -> int;
/// the order of finite floats is the order of these multiples (assumed: IEEE)
pub axiom fn ax_units(x: f64, y: f64) requires fin(x), fin(y) ensures x.ieee_lt(y) == (units(x) < units(y)), x.ieee_eq(y) == (units(x) == units(y));
pub open spec fn z<P: Is2D>(p: P) -> Z { (units(p.at(0)), units(p.at(1))) }
pub open spec fn zs<P: Is2D>(s: Seq<P>) -> Seq<Z> { s.map_values(|p: P| z(p)) }
pub open spec fn mzs<P: Is2D>(s: Seq<P>) -> Seq<Z> { s.map_values(|p: P| neg(z(p))) }
pub open spec fn ccw_f<A: Is2D, B: Is2D, C: Is2D>(a: A, b: B, c: C) -> f64 {
    b.at(0).ieee_sub(a.at(0)).ieee_mul(c.at(1).ieee_sub(a.at(1))).ieee_sub(b.at(1).ieee_sub(a.at(1)).ieee_mul(c.at(0).ieee_sub(a.at(0))))
}
/// finite coordinates for which the orientation test gives the right sign
#[verifier::opaque]
pub open spec fn exact<P: Is2D>(s: Seq<P>) -> bool {
    &&& forall|p: P| #[trigger] s.contains(p) ==> fin(p.at(0)) && fin(p.at(1))
    &&& forall|a: P, b: P, c: P| s.contains(a) && s.contains(b) && s.contains(c) ==> (#[trigger] ccw_f(a, b, c)).ieee_le(0.0f64) == (det(z(a), z(b), z(c)) <= 0)
}
pub open spec fn clone_ok<P: Clone>() -> bool { forall|a: P, b: P| #[trigger] call_ensures(P::clone, (&a,), b) ==> a == b }
pub open spec fn hull<P: Is2D>(s: Seq<P>, h: Seq<P>) -> bool {
    &&& forall|k: int| 0 <= k < h.len() ==> s.contains(#[trigger] h[k])
    &&& (s.len() > 0) == (h.len() > 0)
    &&& h.len() == 1 ==> forall|p: P| #[trigger] s.contains(p) ==> z(p) == z(h[0])
    &&& h.len() > 1 ==> encloses(zs(h), zs(s))
}
pub proof fn turn_test<P: Is2D>(l: Seq<P>, a: P, b: P, c: P)
    requires exact(l), l.contains(a), l.contains(b), l.contains(c)
    ensures ccw_f(a, b, c).ieee_le(0.0f64) == (det(z(a), z(b), z(c)) <= 0)
{ reveal(exact); }
pub open spec fn order(a: Z, b: Z) -> Ordering { if lex(a, b) { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
/// comparing coordinates compares points
pub proof fn units_order<P: Is2D>(l: Seq<P>)
    requires exact(l)
    ensures forall|a: P, b: P| l.contains(a) && l.contains(b) ==> #[trigger] compared(a, b) == Some(order(z(a), z(b))),
        forall|a: P, b: P| l.contains(a) && l.contains(b) ==> (a.at(0).ieee_eq(b.at(0)) && a.at(1).ieee_eq(b.at(1))) == (#[trigger] z(a) == #[trigger] z(b)),
{ reveal(exact);
    assert forall|a: P, b: P| l.contains(a) && l.contains(b) implies #[trigger] compared(a, b) == Some(order(z(a), z(b))) by {
        ax_units(a.at(0), b.at(0)); ax_units(a.at(1), b.at(1)); ax_units(b.at(0), a.at(0)); ax_units(b.at(1), a.at(1));
    }
    assert forall|a: P, b: P| l.contains(a) && l.contains(b) implies (a.at(0).ieee_eq(b.at(0)) && a.at(1).ieee_eq(b.at(1))) == (#[trigger] z(a) == #[trigger] z(b)) by {
        ax_units(a.at(0), b.at(0)); ax_units(a.at(1), b.at(1));
    }
}
pub open spec fn compared<P: Is2D>(a: P, b: P) -> Option<Ordering> { if a.at(0).ieee_eq(b.at(0)) { pcmp(a.at(1), b.at(1)) } else { pcmp(a.at(0), b.at(0)) } }
pub proof fn all_equal<P: Is2D>(l: Seq<P>, s: Seq<P>)
    requires in_order(zs(s)), s.len() > 0, z(s[0]) == z(s.last()), forall|x: P| #[trigger] l.contains(x) ==> s.contains(x)
    ensures forall|x: P| #[trigger] l.contains(x) ==> z(x) == z(s[0])
{ reveal(in_order);
    let p = zs(s);
    assert forall|x: P| #[trigger] l.contains(x) implies z(x) == z(s[0]) by {
        let k = choose|k: int| 0 <= k < s.len() && s[k] == x;
        assert(lexle(p[0], p[k]) && lexle(p[k], p[s.len() - 1]));
    }
}
pub proof fn enclosed<P: Is2D>(h: Seq<Z>, l: Seq<P>, s: Seq<P>)
    requires encloses(h, zs(s)), forall|x: P| #[trigger] l.contains(x) ==> s.contains(x)
    ensures encloses(h, zs(l))
{ reveal(encloses);
    let (p, q) = (zs(s), zs(l));
    assert forall|k: int, j: int| 0 <= k < h.len() && 0 <= j < q.len() implies det(#[trigger] h[k], h[next(k, h.len() as int)], #[trigger] q[j]) >= 0 by {
        assert(l.contains(l[j])); let i = choose|i: int| 0 <= i < s.len() && s[i] == l[j];
        assert(q[j] == p[i]);
    }
}
pub proof fn first_of(p: Seq<Z>, i: int)
    requires in_order(p), 0 <= i < p.len()
    ensures in_order(p.take(i).push(p[i]))
{ reveal(in_order);
    let q = p.take(i).push(p[i]);
    assert forall|a: int, b: int| 0 <= a <= b < q.len() implies lexle(#[trigger] q[a], #[trigger] q[b]) by { assert(lexle(p[a], p[b])); }
}
pub proof fn one(p: Seq<Z>) requires p.len() > 0 ensures chain(Seq::empty().push(p[0]), p.take(1)) { reveal(chain);
    let s = Seq::empty().push(p[0]);
    assert(s =~= p.take(1)); assert(flat(s) && flat(p.take(1)));
}
/// a sequence with elements of type T
pub trait Listed<T> { spec fn list(&self) -> Seq<T>; }
//@ file src/is_random_accessible.rs
//@ trait IsRandomAccessible
//@ header pub trait IsRandomAccessible<T>: Listed<T>
//@ fn len
//@ ret r
//@ spec
        ensures r == self.list().len(),
//@ enditem
/// `&ra[i]` (the Index implementations are verified under C21)
#[verifier::external_body]
pub fn item<T, RA: IsRandomAccessible<T>>(ra: &RA, i: usize) -> (r: &T) requires i < ra.list().len() ensures *r == ra.list()[i as int] { unimplemented!() }
/// `v.extend(w)` (assumed: std)
#[verifier::external_body]
pub fn append_all<T>(v: &mut Vec<T>, w: Vec<T>) ensures final(v)@ == old(v)@ + w@ { v.extend(w) }
/// `(0..n).rev()` (assumed: std)
#[verifier::external_body]
pub fn down(n: usize) -> (r: Vec<usize>) ensures r@.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] r@[k] == n - 1 - k { (0..n).rev().collect() }
//@ file src/point_cloud_2d.rs
//@ struct PointCloud2D
//@ enditem
//@ impl PointCloud2D
//@ fn new
//@ ret r
//@ spec
        ensures r.data@ == Seq::<P>::empty(),
//@ fn append_ra
//@ replace `ra[i]` => `item(ra, i)` ; indexing of a random accessible collection
//@ spec
        requires clone_ok::<P>(),
        ensures final(self).data@ == old(self).data@ + ra.list(),
//@ start
        let ghost (d, l) = (self.data@, ra.list());
//@ loop 0 inv
            invariant clone_ok::<P>(), l == ra.list(), n == l.len(), self.data@ == d + l.take(i as int),
//@ loop 0 start
            proof { assert(l.take(i + 1) =~= l.take(i as int).push(l[i as int])); }
//@ loop 0 after
        proof { assert(l.take(l.len() as int) =~= l); }
//@ enditem
//@ file src/convex_hull_2d.rs
//@ freefn ccw
//@ ret r
//@ spec
    ensures r == ccw_f(*p1, *p2, *p3),
//@ enditem
//@ freefn convex_hull_2d
//@ replace `sorted[$1]` => `sorted.data[$1]` ; PointCloud2D::index returns this (unit c_containers)
//@ replace `result.extend($1)` => `append_all(&mut result, $1)` ; the trusted body of append_all
//@ replace `(0..$1).rev()` => `down($1).into_iter()` ; the trusted body of down
//@ ret r
//@ spec
    requires clone_ok::<P>(), exact(ra.list()),
    ensures hull(ra.list(), r@),
//@ start
    let ghost l = ra.list();
    proof { units_order(l); }
//@ closure 0 o: Ordering
        ensures o == (match compared(*a, *b) { Some(x) => x, None => Ordering::Equal })
//@ after `sorted.data.sort_by`
    let ghost s = sorted.data@;
    let ghost p = zs(s);
    proof {
        s.to_multiset_ensures(); l.to_multiset_ensures();
        assert forall|x: P| #[trigger] s.contains(x) == l.contains(x) by { assert(s.to_multiset().contains(x) == l.to_multiset().contains(x)); }
        assert(in_order(p)) by { reveal(in_order); assert forall|i: int, j: int| 0 <= i <= j < p.len() implies lexle(#[trigger] p[i], #[trigger] p[j]) by { assert(s.contains(s[i]) && s.contains(s[j])); } }
        assert(s.len() == n);
        assert forall|k: int| 0 <= k < s.len() implies l.contains(#[trigger] s[k]) by { assert(s.contains(s[k])); }
    }
//@ before `return vec!`
    proof { all_equal(l, s); }
//@ before `let mut lower`
    let ghost q = turned(p);
    proof {
        if n > 0 { assert(p[0] != p[n - 1]); }
        assert(in_order(q)) by { reveal(in_order); assert forall|i: int, j: int| 0 <= i <= j < q.len() implies lexle(#[trigger] q[i], #[trigger] q[j]) by { assert(lexle(p[n - 1 - j], p[n - 1 - i])); } }
    }
//@ loop 0 inv
        invariant s == sorted.data@, n == s.len(), p == zs(s), in_order(p), exact(l), clone_ok::<P>(), forall|k: int| 0 <= k < s.len() ==> l.contains(#[trigger] s[k]),
            forall|k: int| 0 <= k < lower@.len() ==> l.contains(#[trigger] lower@[k]), if i == 0 { lower@.len() == 0 } else { chain(zs(lower@), p.take(i as int)) },
//@ loop 0 start
        proof { if i > 0 { first_of(p, i as int); cut_start(zs(lower@), p.take(i as int), p[i as int]); } }
//@ loop 1 inv
        invariant s == sorted.data@, n == s.len(), p == zs(s), i < n, exact(l), l.contains(s[i as int]),
            forall|k: int| 0 <= k < lower@.len() ==> l.contains(#[trigger] lower@[k]), if i == 0 { lower@.len() == 0 } else { cutting(zs(lower@), p.take(i as int), p[i as int]) },
        decreases lower@.len()
//@ loop 1 start
            proof { let m = lower@.len(); let (a, b, c) = (lower@[m - 2], lower@[m - 1], s[i as int]); turn_test(l, a, b, c); cut_pop(zs(lower@), p.take(i as int), p[i as int]); }
            let ghost w = lower@;
//@ loop 1 end
            proof { assert(zs(lower@) =~= zs(w).drop_last()); }
//@ loop 1 after
        let ghost w = lower@;
        proof {
            let m = lower@.len();
            if m >= 2 { let (a, b, c) = (lower@[m - 2], lower@[m - 1], s[i as int]); turn_test(l, a, b, c); }
            if i > 0 { cut_push(zs(w), p.take(i as int), p[i as int]); } else { one(p); }
        }
//@ loop 0 end
        proof { assert(zs(lower@) =~= zs(w).push(p[i as int])); assert(p.take(i + 1) =~= p.take(i as int).push(p[i as int])); }
//@ loop 0 after
    proof { assert(p.take(n as int) =~= p); }
    let ghost low = lower@;
//@ loop 2 iter it
//@ loop 2 inv
        invariant s == sorted.data@, n == s.len(), p == zs(s), q == turned(p), in_order(q), exact(l), clone_ok::<P>(), forall|k: int| 0 <= k < s.len() ==> l.contains(#[trigger] s[k]),
            it.seq().len() == n, forall|k: int| 0 <= k < n ==> #[trigger] it.seq()[k] == n - 1 - k,
            forall|k: int| 0 <= k < upper@.len() ==> l.contains(#[trigger] upper@[k]), if it.index@ == 0 { upper@.len() == 0 } else { chain(mzs(upper@), q.take(it.index@)) },
//@ loop 2 start
        let ghost j = it.index@ as int;
        proof { assert(q[j] == neg(z(s[i as int]))); if j > 0 { first_of(q, j); cut_start(mzs(upper@), q.take(j), q[j]); } }
//@ loop 3 inv
        invariant s == sorted.data@, n == s.len(), p == zs(s), i < n, exact(l), l.contains(s[i as int]), q[j] == neg(z(s[i as int])), 0 <= j < q.len(),
            forall|k: int| 0 <= k < upper@.len() ==> l.contains(#[trigger] upper@[k]), if j == 0 { upper@.len() == 0 } else { cutting(mzs(upper@), q.take(j), q[j]) },
        decreases upper@.len()
//@ loop 3 start
            proof { let m = upper@.len(); let (a, b, c) = (upper@[m - 2], upper@[m - 1], s[i as int]); turn_test(l, a, b, c); neg_det(z(a), z(b), z(c)); cut_pop(mzs(upper@), q.take(j), q[j]); }
            let ghost w = upper@;
//@ loop 3 end
            proof { assert(mzs(upper@) =~= mzs(w).drop_last()); }
//@ loop 3 after
        let ghost w = upper@;
        proof {
            let m = upper@.len();
            if m >= 2 { let (a, b, c) = (upper@[m - 2], upper@[m - 1], s[i as int]); turn_test(l, a, b, c); neg_det(z(a), z(b), z(c)); }
            if j > 0 { cut_push(mzs(w), q.take(j), q[j]); } else { one(q); }
        }
//@ loop 2 end
        proof { assert(mzs(upper@) =~= mzs(w).push(q[j])); assert(q.take(j + 1) =~= q.take(j).push(q[j])); }
//@ loop 2 after
    proof { assert(q.take(n as int) =~= q); if n > 0 { both(zs(lower@), mzs(upper@), p); } }
    let ghost upp = upper@;
//@ tail
    proof {
        if n > 0 {
            assert(result@ =~= low.drop_last() + upp.drop_last());
            assert(zs(result@) =~= joined(zs(low), mzs(upp)));
            assert(encloses(zs(result@), p));
            enclosed(zs(result@), l, s);
        }
    }
//@ enditem
} // verus!
fn main() {}

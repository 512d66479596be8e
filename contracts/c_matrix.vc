#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::marker::PhantomData;
use std::ops::*;
verus! {
//@include float.inc
//@include whole.inc
broadcast use {vstd::seq_lib::group_seq_properties, fl::ax, wh::ax};
//@include base.inc
#[derive(Clone, Copy)]
pub struct Rad(pub f64);
pub uninterp spec fn f_sin(x: f64) -> f64;
pub assume_specification [f64::tan](x: f64) -> (r: f64);
pub uninterp spec fn f_cos(x: f64) -> f64;
pub assume_specification [f64::sin](x: f64) -> (r: f64) ensures r == f_sin(x);
pub assume_specification [f64::cos](x: f64) -> (r: f64) ensures r == f_cos(x);
/// `clone` of this type yields an equal value
pub open spec fn clone_ok<P: Clone>() -> bool { forall|a: P, b: P| #[trigger] cloned(a, b) ==> a == b }
/// ghost only: the coordinates of a position
pub trait Coords { spec fn at(&self, i: int) -> f64; }
// ---- Matrix3
//@ file src/matrix3.rs
//@ struct Matrix3
//@ enditem
/// the entries as integers
pub open spec fn z3(m: Matrix3) -> Z { |i: int, j: int| val(m.data[i][j]) }
/// all entries are whole numbers
pub open spec fn whole3(m: Matrix3) -> bool { forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> whole(#[trigger] m.data[i][j]) }
/// all entries are whole numbers of at most b
pub open spec fn upto3(m: Matrix3, b: int) -> bool { forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> whole(#[trigger] m.data[i][j]) && -b <= val(m.data[i][j]) <= b }
/// m holds exactly these integers
pub open spec fn is3(m: Matrix3, a: Z) -> bool { forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> is(#[trigger] m.data[i][j], a(i, j)) }
/// the product of integer matrices
pub open spec fn mul3(a: Z, b: Z) -> Z { |i: int, j: int| a(i, 0) * b(0, j) + a(i, 1) * b(1, j) + a(i, 2) * b(2, j) }
/// the sum of the magnitudes added up for entry i, j of the product
pub open spec fn mag3(a: Z, b: Z, i: int, j: int) -> int { abs(a(i, 0) * b(0, j)) + abs(a(i, 1) * b(1, j)) + abs(a(i, 2) * b(2, j)) }
/// entry i, j of the product a * b
pub open spec fn entry3(a: Matrix3, b: Matrix3, i: int, j: int, x: f64) -> bool { whole3(a) && whole3(b) && mag3(z3(a), z3(b), i, j) <= lim() ==> is(x, mul3(z3(a), z3(b))(i, j)) }
/// r is the product of a and b (for whole numbers small enough to be exact)
pub open spec fn product3(a: Matrix3, b: Matrix3, r: Matrix3) -> bool { forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> entry3(a, b, i, j, #[trigger] r.data[i][j]) }
/// products of matrices with small entries are exact
pub proof fn product_upto3(a: Matrix3, b: Matrix3, r: Matrix3, p: int, q: int)
    requires product3(a, b, r), upto3(a, p), upto3(b, q), 0 <= p, 0 <= q, 3 * (p * q) <= lim()
    ensures upto3(r, 3 * (p * q)), is3(r, mul3(z3(a), z3(b)))
{
    assert forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 implies whole(#[trigger] r.data[i][j]) && -(3 * (p * q)) <= val(r.data[i][j]) <= 3 * (p * q) && val(r.data[i][j]) == mul3(z3(a), z3(b))(i, j) by {
        assert(whole(a.data[i][0]) && whole(b.data[0][j])); bounded(val(a.data[i][0]), val(b.data[0][j]), p, q);
        assert(whole(a.data[i][1]) && whole(b.data[1][j])); bounded(val(a.data[i][1]), val(b.data[1][j]), p, q);
        assert(whole(a.data[i][2]) && whole(b.data[2][j])); bounded(val(a.data[i][2]), val(b.data[2][j]), p, q);
        assert(whole3(a) && whole3(b));
        assert(entry3(a, b, i, j, r.data[i][j]));
    }
}
/// three factors
pub proof fn triple3(a: Matrix3, b: Matrix3, c: Matrix3, t: Matrix3, r: Matrix3, za: Z, zb: Z, zc: Z)
    requires is3(a, za), is3(b, zb), is3(c, zc), is3(t, mul3(z3(a), z3(b))), is3(r, mul3(z3(t), z3(c)))
    ensures is3(r, mul3(mul3(za, zb), zc))
{
    assert forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 implies val(#[trigger] r.data[i][j]) == mul3(mul3(za, zb), zc)(i, j) by {
        let ab = mul3(za, zb);
        assert(val(t.data[i][0]) == ab(i, 0)) by { assert(is(t.data[i][0], mul3(z3(a), z3(b))(i, 0))); assert(is(a.data[i][0], za(i, 0)) && is(b.data[0][0], zb(0, 0))); assert(is(a.data[i][1], za(i, 1)) && is(b.data[1][0], zb(1, 0))); assert(is(a.data[i][2], za(i, 2)) && is(b.data[2][0], zb(2, 0))); } assert(val(t.data[i][1]) == ab(i, 1)) by { assert(is(t.data[i][1], mul3(z3(a), z3(b))(i, 1))); assert(is(a.data[i][0], za(i, 0)) && is(b.data[0][1], zb(0, 1))); assert(is(a.data[i][1], za(i, 1)) && is(b.data[1][1], zb(1, 1))); assert(is(a.data[i][2], za(i, 2)) && is(b.data[2][1], zb(2, 1))); } assert(val(t.data[i][2]) == ab(i, 2)) by { assert(is(t.data[i][2], mul3(z3(a), z3(b))(i, 2))); assert(is(a.data[i][0], za(i, 0)) && is(b.data[0][2], zb(0, 2))); assert(is(a.data[i][1], za(i, 1)) && is(b.data[1][2], zb(1, 2))); assert(is(a.data[i][2], za(i, 2)) && is(b.data[2][2], zb(2, 2))); }
        assert(is(c.data[0][j], zc(0, j))); assert(is(c.data[1][j], zc(1, j))); assert(is(c.data[2][j], zc(2, j)));
        assert(is(r.data[i][j], mul3(z3(t), z3(c))(i, j)));
    }
}

/// the matrix that moves by the given distances
pub open spec fn translates3(r: Matrix3, x: f64, y: f64) -> bool { forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] r.data[i][j] == (if j < 2 { if i == j { 1.0f64 } else { 0.0f64 } } else if i == 0 { x } else if i == 1 { y } else { 1.0f64 }) }
/// the matrix that scales by the given factors
pub open spec fn scales3(r: Matrix3, x: f64, y: f64) -> bool { forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] r.data[i][j] == (if i != j { 0.0f64 } else if i == 0 { x } else if i == 1 { y } else { 1.0f64 }) }
/// the matrix that rotates
pub open spec fn rotates3(r: Matrix3, rad: Rad) -> bool { forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] r.data[i][j] == (if i == 2 || j == 2 { if i == j { 1.0f64 } else { 0.0f64 } } else if i == j { f_cos(rad.0) } else if i == 0 { f_sin(rad.0).ieee_neg() } else { f_sin(rad.0) }) }
//@ file src/matrix3.rs
//@ impl Matrix3
//@ fn identity
//@ ret r
//@ spec
        ensures forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] r.data[i][j] == (if i == j { 1.0f64 } else { 0.0f64 }),
//@ fn zeroes
//@ ret r
//@ spec
        ensures forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] r.data[i][j] == 0.0f64,
//@ fn translation
//@ ret r
//@ spec
        ensures translates3(r, x, y),
//@ fn scale
//@ ret r
//@ spec
        ensures scales3(r, x, y),
//@ fn rotation
//@ negate
//@ ret r
//@ spec
        ensures rotates3(r, rad),
//@ enditem
//@ impl Default for Matrix3
//@ fn default
//@ ret r
//@ spec
        ensures forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] r.data[i][j] == (if i == j { 1.0f64 } else { 0.0f64 }),
//@ enditem
impl vstd::std_specs::ops::MulSpecImpl<Matrix3> for Matrix3 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: Matrix3) -> bool { true }
    open spec fn mul_spec(self, other: Matrix3) -> Matrix3 { arbitrary() }
}
//@ impl Mul for Matrix3
//@ type Output
//@ fn mul
//@ ret r
//@ spec
        ensures product3(self, other, r),
//@ loop 0 inv
            invariant forall|a: int, b: int| 0 <= a < i && 0 <= b < 3 ==> entry3(self, other, a, b, #[trigger] result.data[a][b]),
//@ loop 1 inv
                invariant 0 <= i < 3, forall|a: int, b: int| 0 <= b < 3 && (0 <= a < i || a == i && b < j) ==> entry3(self, other, a, b, #[trigger] result.data[a][b]),
//@ enditem
impl<'a> vstd::std_specs::ops::MulSpecImpl<&'a Matrix3> for Matrix3 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: &'a Matrix3) -> bool { true }
    open spec fn mul_spec(self, other: &'a Matrix3) -> Matrix3 { arbitrary() }
}
//@ impl Mul<&Matrix3> for Matrix3
//@ type Output
//@ fn mul
//@ ret r
//@ spec
        ensures product3(self, *other, r),
//@ loop 0 inv
            invariant forall|a: int, b: int| 0 <= a < i && 0 <= b < 3 ==> entry3(self, *other, a, b, #[trigger] result.data[a][b]),
//@ loop 1 inv
                invariant 0 <= i < 3, forall|a: int, b: int| 0 <= b < 3 && (0 <= a < i || a == i && b < j) ==> entry3(self, *other, a, b, #[trigger] result.data[a][b]),
//@ enditem
impl<'a> vstd::std_specs::ops::MulSpecImpl<&'a Matrix3> for &'a Matrix3 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: &'a Matrix3) -> bool { true }
    open spec fn mul_spec(self, other: &'a Matrix3) -> Matrix3 { arbitrary() }
}
//@ impl Mul for &Matrix3
//@ type Output
//@ fn mul
//@ ret r
//@ spec
        ensures product3(*self, *other, r),
//@ loop 0 inv
            invariant forall|a: int, b: int| 0 <= a < i && 0 <= b < 3 ==> entry3(*self, *other, a, b, #[trigger] result.data[a][b]),
//@ loop 1 inv
                invariant 0 <= i < 3, forall|a: int, b: int| 0 <= b < 3 && (0 <= a < i || a == i && b < j) ==> entry3(*self, *other, a, b, #[trigger] result.data[a][b]),
//@ enditem
impl vstd::std_specs::ops::MulSpecImpl<f64> for Matrix3 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: f64) -> bool { true }
    open spec fn mul_spec(self, other: f64) -> Matrix3 { arbitrary() }
}
//@ impl Mul<f64> for Matrix3
//@ type Output
//@ fn mul
//@ ret r
//@ spec
        ensures forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] r.data[i][j] == other.ieee_mul(self.data[i][j]),
//@ loop 0 inv
            invariant forall|a: int, b: int| 0 <= a < i && 0 <= b < 3 ==> #[trigger] result.data[a][b] == other.ieee_mul(self.data[a][b]),
//@ loop 1 inv
                invariant 0 <= i < 3, forall|a: int, b: int| 0 <= b < 3 && (0 <= a < i || a == i && b < j) ==> #[trigger] result.data[a][b] == other.ieee_mul(self.data[a][b]),
//@ enditem
impl<'a> vstd::std_specs::ops::MulSpecImpl<f64> for &'a Matrix3 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: f64) -> bool { true }
    open spec fn mul_spec(self, other: f64) -> Matrix3 { arbitrary() }
}
//@ impl Mul<f64> for &Matrix3
//@ type Output
//@ fn mul
//@ ret r
//@ spec
        ensures forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] r.data[i][j] == other.ieee_mul((*self).data[i][j]),
//@ loop 0 inv
            invariant forall|a: int, b: int| 0 <= a < i && 0 <= b < 3 ==> #[trigger] result.data[a][b] == other.ieee_mul((*self).data[a][b]),
//@ loop 1 inv
                invariant 0 <= i < 3, forall|a: int, b: int| 0 <= b < 3 && (0 <= a < i || a == i && b < j) ==> #[trigger] result.data[a][b] == other.ieee_mul((*self).data[a][b]),
//@ enditem
/// the identity
pub open spec fn unit3(m: Matrix3) -> bool { forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] m.data[i][j] == (if i == j { 1.0f64 } else { 0.0f64 }) }
//@ file src/matrix3_pipe.rs
//@ struct Matrix3Pipe
//@ enditem
//@ impl Matrix3Pipe
//@ fn result
//@ ret r
//@ spec
        ensures upto3(self.mtranslation, 64) && upto3(self.mrotation, 64) && upto3(self.mscale, 64) ==> is3(r, mul3(mul3(z3(self.mtranslation), z3(self.mrotation)), z3(self.mscale))),
//@ start
        proof { if upto3(self.mtranslation, 64) && upto3(self.mrotation, 64) && upto3(self.mscale, 64) { chain3(*self); } }
//@ fn add_translation
//@ spec
        ensures translates3(final(self).mtranslation, x, y), final(self).mrotation == old(self).mrotation, final(self).mscale == old(self).mscale,
//@ fn remove_translation
//@ spec
        ensures unit3(final(self).mtranslation), final(self).mrotation == old(self).mrotation, final(self).mscale == old(self).mscale,
//@ fn add_rotation
//@ spec
        ensures rotates3(final(self).mrotation, rad), final(self).mtranslation == old(self).mtranslation, final(self).mscale == old(self).mscale,
//@ fn remove_rotation
//@ spec
        ensures unit3(final(self).mrotation), final(self).mtranslation == old(self).mtranslation, final(self).mscale == old(self).mscale,
//@ fn add_scale
//@ spec
        ensures scales3(final(self).mscale, x, y), final(self).mtranslation == old(self).mtranslation, final(self).mrotation == old(self).mrotation,
//@ fn remove_scale
//@ spec
        ensures unit3(final(self).mscale), final(self).mtranslation == old(self).mtranslation, final(self).mrotation == old(self).mrotation,
//@ enditem
/// the product with a matrix known as integers
pub proof fn same_product3(t: Matrix3, b: Matrix3, r: Matrix3, za: Z)
    requires is3(t, za), is3(r, mul3(z3(t), z3(b)))
    ensures is3(r, mul3(za, z3(b)))
{
    assert forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 implies val(#[trigger] r.data[i][j]) == mul3(za, z3(b))(i, j) by {
        assert(is(t.data[i][0], za(i, 0))); assert(is(t.data[i][1], za(i, 1))); assert(is(t.data[i][2], za(i, 2)));
        assert(is(r.data[i][j], mul3(z3(t), z3(b))(i, j)));
    }
}
pub proof fn chain3(p: Matrix3Pipe)
    requires upto3(p.mtranslation, 64), upto3(p.mrotation, 64), upto3(p.mscale, 64)
    ensures forall|t1: Matrix3, t2: Matrix3| #[trigger] product3(p.mtranslation, p.mrotation, t1) && #[trigger] product3(t1, p.mscale, t2) ==> is3(t2, mul3(mul3(z3(p.mtranslation), z3(p.mrotation)), z3(p.mscale)))
{
    assert forall|t1: Matrix3, t2: Matrix3| #[trigger] product3(p.mtranslation, p.mrotation, t1) && #[trigger] product3(t1, p.mscale, t2) implies is3(t2, mul3(mul3(z3(p.mtranslation), z3(p.mrotation)), z3(p.mscale))) by {
        assert(product3(p.mtranslation, p.mrotation, t1)); product_upto3(p.mtranslation, p.mrotation, t1, 64int, 64int);
        assert(product3(t1, p.mscale, t2)); product_upto3(t1, p.mscale, t2, 12288int, 64int);
        same_product3(t1, p.mscale, t2, mul3(z3(p.mtranslation), z3(p.mrotation)));
    }
}
// ---- Matrix4
//@ file src/matrix4.rs
//@ struct Matrix4
//@ enditem
/// the entries as integers
pub open spec fn z4(m: Matrix4) -> Z { |i: int, j: int| val(m.data[i][j]) }
/// all entries are whole numbers
pub open spec fn whole4(m: Matrix4) -> bool { forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 ==> whole(#[trigger] m.data[i][j]) }
/// all entries are whole numbers of at most b
pub open spec fn upto4(m: Matrix4, b: int) -> bool { forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 ==> whole(#[trigger] m.data[i][j]) && -b <= val(m.data[i][j]) <= b }
/// m holds exactly these integers
pub open spec fn is4(m: Matrix4, a: Z) -> bool { forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 ==> is(#[trigger] m.data[i][j], a(i, j)) }
/// the product of integer matrices
pub open spec fn mul4(a: Z, b: Z) -> Z { |i: int, j: int| a(i, 0) * b(0, j) + a(i, 1) * b(1, j) + a(i, 2) * b(2, j) + a(i, 3) * b(3, j) }
/// the sum of the magnitudes added up for entry i, j of the product
pub open spec fn mag4(a: Z, b: Z, i: int, j: int) -> int { abs(a(i, 0) * b(0, j)) + abs(a(i, 1) * b(1, j)) + abs(a(i, 2) * b(2, j)) + abs(a(i, 3) * b(3, j)) }
/// entry i, j of the product a * b
pub open spec fn entry4(a: Matrix4, b: Matrix4, i: int, j: int, x: f64) -> bool { whole4(a) && whole4(b) && mag4(z4(a), z4(b), i, j) <= lim() ==> is(x, mul4(z4(a), z4(b))(i, j)) }
/// r is the product of a and b (for whole numbers small enough to be exact)
pub open spec fn product4(a: Matrix4, b: Matrix4, r: Matrix4) -> bool { forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 ==> entry4(a, b, i, j, #[trigger] r.data[i][j]) }
/// products of matrices with small entries are exact
pub proof fn product_upto4(a: Matrix4, b: Matrix4, r: Matrix4, p: int, q: int)
    requires product4(a, b, r), upto4(a, p), upto4(b, q), 0 <= p, 0 <= q, 4 * (p * q) <= lim()
    ensures upto4(r, 4 * (p * q)), is4(r, mul4(z4(a), z4(b)))
{
    assert forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 implies whole(#[trigger] r.data[i][j]) && -(4 * (p * q)) <= val(r.data[i][j]) <= 4 * (p * q) && val(r.data[i][j]) == mul4(z4(a), z4(b))(i, j) by {
        assert(whole(a.data[i][0]) && whole(b.data[0][j])); bounded(val(a.data[i][0]), val(b.data[0][j]), p, q);
        assert(whole(a.data[i][1]) && whole(b.data[1][j])); bounded(val(a.data[i][1]), val(b.data[1][j]), p, q);
        assert(whole(a.data[i][2]) && whole(b.data[2][j])); bounded(val(a.data[i][2]), val(b.data[2][j]), p, q);
        assert(whole(a.data[i][3]) && whole(b.data[3][j])); bounded(val(a.data[i][3]), val(b.data[3][j]), p, q);
        assert(whole4(a) && whole4(b));
        assert(entry4(a, b, i, j, r.data[i][j]));
    }
}
/// three factors
pub proof fn triple4(a: Matrix4, b: Matrix4, c: Matrix4, t: Matrix4, r: Matrix4, za: Z, zb: Z, zc: Z)
    requires is4(a, za), is4(b, zb), is4(c, zc), is4(t, mul4(z4(a), z4(b))), is4(r, mul4(z4(t), z4(c)))
    ensures is4(r, mul4(mul4(za, zb), zc))
{
    assert forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 implies val(#[trigger] r.data[i][j]) == mul4(mul4(za, zb), zc)(i, j) by {
        let ab = mul4(za, zb);
        assert(val(t.data[i][0]) == ab(i, 0)) by { assert(is(t.data[i][0], mul4(z4(a), z4(b))(i, 0))); assert(is(a.data[i][0], za(i, 0)) && is(b.data[0][0], zb(0, 0))); assert(is(a.data[i][1], za(i, 1)) && is(b.data[1][0], zb(1, 0))); assert(is(a.data[i][2], za(i, 2)) && is(b.data[2][0], zb(2, 0))); assert(is(a.data[i][3], za(i, 3)) && is(b.data[3][0], zb(3, 0))); } assert(val(t.data[i][1]) == ab(i, 1)) by { assert(is(t.data[i][1], mul4(z4(a), z4(b))(i, 1))); assert(is(a.data[i][0], za(i, 0)) && is(b.data[0][1], zb(0, 1))); assert(is(a.data[i][1], za(i, 1)) && is(b.data[1][1], zb(1, 1))); assert(is(a.data[i][2], za(i, 2)) && is(b.data[2][1], zb(2, 1))); assert(is(a.data[i][3], za(i, 3)) && is(b.data[3][1], zb(3, 1))); } assert(val(t.data[i][2]) == ab(i, 2)) by { assert(is(t.data[i][2], mul4(z4(a), z4(b))(i, 2))); assert(is(a.data[i][0], za(i, 0)) && is(b.data[0][2], zb(0, 2))); assert(is(a.data[i][1], za(i, 1)) && is(b.data[1][2], zb(1, 2))); assert(is(a.data[i][2], za(i, 2)) && is(b.data[2][2], zb(2, 2))); assert(is(a.data[i][3], za(i, 3)) && is(b.data[3][2], zb(3, 2))); } assert(val(t.data[i][3]) == ab(i, 3)) by { assert(is(t.data[i][3], mul4(z4(a), z4(b))(i, 3))); assert(is(a.data[i][0], za(i, 0)) && is(b.data[0][3], zb(0, 3))); assert(is(a.data[i][1], za(i, 1)) && is(b.data[1][3], zb(1, 3))); assert(is(a.data[i][2], za(i, 2)) && is(b.data[2][3], zb(2, 3))); assert(is(a.data[i][3], za(i, 3)) && is(b.data[3][3], zb(3, 3))); }
        assert(is(c.data[0][j], zc(0, j))); assert(is(c.data[1][j], zc(1, j))); assert(is(c.data[2][j], zc(2, j))); assert(is(c.data[3][j], zc(3, j)));
        assert(is(r.data[i][j], mul4(z4(t), z4(c))(i, j)));
    }
}

/// component of the cross product with the axis u, times s
pub open spec fn turn<N: Is3D>(u: N, s: int, i: int, j: int) -> int {
    if i == j { 0int } else if (i + 1) % 3 == j { -(val(u.at(3 - i - j)) * s) } else { val(u.at(3 - i - j)) * s }
}
/// the products that occur, in any order
pub proof fn small<N: Is3D>(u: N, s: int, c: int)
    requires few(u.at(0)), few(u.at(1)), few(u.at(2)), -64 <= s <= 64, -64 <= c <= 64
    ensures forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> -0x1000 <= #[trigger] (val(u.at(i)) * val(u.at(j))) <= 0x1000 && val(u.at(i)) * val(u.at(j)) == val(u.at(j)) * val(u.at(i)),
        forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> -0x50000 <= #[trigger] (val(u.at(i)) * val(u.at(j)) * (1 - c)) <= 0x50000 && val(u.at(i)) * val(u.at(j)) * (1 - c) == val(u.at(j)) * val(u.at(i)) * (1 - c),
        forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] ((1 - c) * (val(u.at(i)) * val(u.at(j)))) == val(u.at(i)) * val(u.at(j)) * (1 - c),
        forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] ((1 - c) * val(u.at(i)) * val(u.at(j))) == val(u.at(i)) * val(u.at(j)) * (1 - c),
        forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] (val(u.at(i)) * (1 - c) * val(u.at(j))) == val(u.at(i)) * val(u.at(j)) * (1 - c),
        forall|i: int| 0 <= i < 3 ==> -0x2000 <= #[trigger] ((1 - c) * val(u.at(i))) <= 0x2000,
        forall|i: int| 0 <= i < 3 ==> -0x2000 <= #[trigger] (val(u.at(i)) * (1 - c)) <= 0x2000,
        forall|i: int| 0 <= i < 3 ==> -0x1000 <= #[trigger] (val(u.at(i)) * s) <= 0x1000,
        forall|i: int| 0 <= i < 3 ==> #[trigger] (s * val(u.at(i))) == val(u.at(i)) * s,
{
    assert forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 implies -0x1000 <= #[trigger] (val(u.at(i)) * val(u.at(j))) <= 0x1000 && val(u.at(i)) * val(u.at(j)) == val(u.at(j)) * val(u.at(i)) by {
        bounded(val(u.at(i)), val(u.at(j)), 64, 64); assert(val(u.at(i)) * val(u.at(j)) == val(u.at(j)) * val(u.at(i))) by(nonlinear_arith);
    }
    assert forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 implies -0x50000 <= #[trigger] (val(u.at(i)) * val(u.at(j)) * (1 - c)) <= 0x50000 && val(u.at(i)) * val(u.at(j)) * (1 - c) == val(u.at(j)) * val(u.at(i)) * (1 - c) by {
        bounded(val(u.at(i)), val(u.at(j)), 64, 64); bounded(val(u.at(i)) * val(u.at(j)), 1 - c, 0x1000, 0x50);
        assert(val(u.at(i)) * val(u.at(j)) == val(u.at(j)) * val(u.at(i))) by(nonlinear_arith);
    }
    let t = 1 - c;
    assert forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 implies #[trigger] ((1 - c) * (val(u.at(i)) * val(u.at(j)))) == val(u.at(i)) * val(u.at(j)) * (1 - c) by { rot3(val(u.at(i)), val(u.at(j)), t); }
    assert forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 implies #[trigger] ((1 - c) * val(u.at(i)) * val(u.at(j))) == val(u.at(i)) * val(u.at(j)) * (1 - c) by { rot3(val(u.at(i)), val(u.at(j)), t); }
    assert forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 implies #[trigger] (val(u.at(i)) * (1 - c) * val(u.at(j))) == val(u.at(i)) * val(u.at(j)) * (1 - c) by { rot3(val(u.at(i)), val(u.at(j)), t); }
    assert forall|i: int| 0 <= i < 3 implies -0x2000 <= #[trigger] ((1 - c) * val(u.at(i))) <= 0x2000 by { bounded(1 - c, val(u.at(i)), 65, 64); }
    assert forall|i: int| 0 <= i < 3 implies -0x2000 <= #[trigger] (val(u.at(i)) * (1 - c)) <= 0x2000 by { bounded(val(u.at(i)), 1 - c, 64, 65); }
    assert forall|i: int| 0 <= i < 3 implies -0x1000 <= #[trigger] (val(u.at(i)) * s) <= 0x1000 by { bounded(val(u.at(i)), s, 64, 64); }
    assert forall|i: int| 0 <= i < 3 implies #[trigger] (s * val(u.at(i))) == val(u.at(i)) * s by { rot3(s, val(u.at(i)), 1); }
}
pub proof fn rot3(a: int, b: int, t: int)
    ensures t * (a * b) == a * b * t, t * a * b == a * b * t, a * t * b == a * b * t, a * b == b * a
{
    assert(t * (a * b) == a * b * t && t * a * b == a * b * t && a * t * b == a * b * t && a * b == b * a) by(nonlinear_arith);
}
/// m is the rotation by rad around the axis u
pub open spec fn spins<N: Is3D>(m: Matrix4, u: N, rad: f64) -> bool {
    few(f_sin(rad)) && few(f_cos(rad)) && few(u.at(0)) && few(u.at(1)) && few(u.at(2)) ==> is4(m, |i: int, j: int|
        if i == 3 || j == 3 { if i == j { 1 } else { 0int } }
        else { (if i == j { val(f_cos(rad)) } else { 0int }) + val(u.at(i)) * val(u.at(j)) * (1 - val(f_cos(rad))) + turn(u, val(f_sin(rad)), i, j) })
}
/// a whole number of at most 64
pub open spec fn few(x: f64) -> bool { whole(x) && -64 <= val(x) <= 64 }
/// the rotation around an axis (0: x, 1: y, 2: z)
pub open spec fn rot(axis: int, rad: f64) -> Z { |i: int, j: int|
    if i == axis || j == axis || i == 3 || j == 3 { if i == j { 1 } else { 0int } }
    else if i == j { val(f_cos(rad)) }
    else if (j - i + 3) % 3 == 1 { -val(f_sin(rad)) }
    else { val(f_sin(rad)) }
}
pub proof fn turns(mx: Matrix4, my: Matrix4, mz: Matrix4, x: f64, y: f64, z: f64)
    requires is4(mx, rot(0, x)), is4(my, rot(1, y)), is4(mz, rot(2, z)), few(f_sin(x)), few(f_cos(x)), few(f_sin(y)), few(f_cos(y)), few(f_sin(z)), few(f_cos(z))
    ensures forall|t: Matrix4, r: Matrix4| #[trigger] product4(mx, my, t) && #[trigger] product4(t, mz, r) ==> is4(r, mul4(mul4(rot(0, x), rot(1, y)), rot(2, z)))
{
    assert(upto4(mx, 64) && upto4(my, 64) && upto4(mz, 64));
    assert forall|t: Matrix4, r: Matrix4| #[trigger] product4(mx, my, t) && #[trigger] product4(t, mz, r) implies is4(r, mul4(mul4(rot(0, x), rot(1, y)), rot(2, z))) by {
        product_upto4(mx, my, t, 64, 64);
        product_upto4(t, mz, r, 0x4000int, 64);
        triple4(mx, my, mz, t, r, rot(0, x), rot(1, y), rot(2, z));
    }
}

/// the matrix that moves by the given distances
pub open spec fn translates4(r: Matrix4, x: f64, y: f64, z: f64) -> bool { forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 ==> #[trigger] r.data[i][j] == (if j < 3 { if i == j { 1.0f64 } else { 0.0f64 } } else if i == 0 { x } else if i == 1 { y } else if i == 2 { z } else { 1.0f64 }) }
/// the matrix that scales by the given factors
pub open spec fn scales4(r: Matrix4, x: f64, y: f64, z: f64) -> bool { forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 ==> #[trigger] r.data[i][j] == (if i != j { 0.0f64 } else if i == 0 { x } else if i == 1 { y } else if i == 2 { z } else { 1.0f64 }) }
/// the matrix that rotates
pub open spec fn rotates4(r: Matrix4, x: Rad, y: Rad, z: Rad) -> bool { few(f_sin(x.0)) && few(f_cos(x.0)) && few(f_sin(y.0)) && few(f_cos(y.0)) && few(f_sin(z.0)) && few(f_cos(z.0)) ==> is4(r, mul4(mul4(rot(0, x.0), rot(1, y.0)), rot(2, z.0))) }
//@ file src/matrix4.rs
//@ impl Matrix4
//@ fn identity
//@ ret r
//@ spec
        ensures forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 ==> #[trigger] r.data[i][j] == (if i == j { 1.0f64 } else { 0.0f64 }),
//@ fn zeroes
//@ ret r
//@ spec
        ensures forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 ==> #[trigger] r.data[i][j] == 0.0f64,
//@ fn translation
//@ ret r
//@ spec
        ensures translates4(r, x, y, z),
//@ fn scale
//@ ret r
//@ spec
        ensures scales4(r, x, y, z),
//@ fn rotation
//@ negate
//@ ret r
//@ spec
        ensures rotates4(r, x, y, z),
//@ tail
        proof {
            lits();
            if few(f_sin(x.0)) && few(f_cos(x.0)) && few(f_sin(y.0)) && few(f_cos(y.0)) && few(f_sin(z.0)) && few(f_cos(z.0)) {
                turns(mx, my, mz, x.0, y.0, z.0);
            }
        }
//@ fn rotation_axis
//@ ret ret
//@ spec
        ensures spins(ret, *axis, r.0),
//@ start
        proof { lits(); if few(f_sin(r.0)) && few(f_cos(r.0)) && few(axis.at(0)) && few(axis.at(1)) && few(axis.at(2)) { small(*axis, val(f_sin(r.0)), val(f_cos(r.0))); } }
//@ fn perspective
//@ negate
//@ ret ret
//@ spec
        ensures forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 && i != j && !(i == 2 && j == 3) && !(i == 3 && j == 2) ==> #[trigger] ret.data[i][j] == 0.0f64, ret.data[3][2] == 1.0f64,
//@ start
        proof { fl::at(fov.0, 2.0f64); }
//@ enditem
//@ impl Default for Matrix4
//@ fn default
//@ ret r
//@ spec
        ensures forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 ==> #[trigger] r.data[i][j] == (if i == j { 1.0f64 } else { 0.0f64 }),
//@ enditem
impl vstd::std_specs::ops::MulSpecImpl<Matrix4> for Matrix4 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: Matrix4) -> bool { true }
    open spec fn mul_spec(self, other: Matrix4) -> Matrix4 { arbitrary() }
}
//@ impl Mul for Matrix4
//@ type Output
//@ fn mul
//@ ret r
//@ spec
        ensures product4(self, other, r),
//@ loop 0 inv
            invariant forall|a: int, b: int| 0 <= a < i && 0 <= b < 4 ==> entry4(self, other, a, b, #[trigger] result.data[a][b]),
//@ loop 1 inv
                invariant 0 <= i < 4, forall|a: int, b: int| 0 <= b < 4 && (0 <= a < i || a == i && b < j) ==> entry4(self, other, a, b, #[trigger] result.data[a][b]),
//@ enditem
impl<'a> vstd::std_specs::ops::MulSpecImpl<&'a Matrix4> for Matrix4 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: &'a Matrix4) -> bool { true }
    open spec fn mul_spec(self, other: &'a Matrix4) -> Matrix4 { arbitrary() }
}
//@ impl Mul<&Matrix4> for Matrix4
//@ type Output
//@ fn mul
//@ ret r
//@ spec
        ensures product4(self, *other, r),
//@ loop 0 inv
            invariant forall|a: int, b: int| 0 <= a < i && 0 <= b < 4 ==> entry4(self, *other, a, b, #[trigger] result.data[a][b]),
//@ loop 1 inv
                invariant 0 <= i < 4, forall|a: int, b: int| 0 <= b < 4 && (0 <= a < i || a == i && b < j) ==> entry4(self, *other, a, b, #[trigger] result.data[a][b]),
//@ enditem
impl<'a> vstd::std_specs::ops::MulSpecImpl<&'a Matrix4> for &'a Matrix4 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: &'a Matrix4) -> bool { true }
    open spec fn mul_spec(self, other: &'a Matrix4) -> Matrix4 { arbitrary() }
}
//@ impl Mul for &Matrix4
//@ type Output
//@ fn mul
//@ ret r
//@ spec
        ensures product4(*self, *other, r),
//@ loop 0 inv
            invariant forall|a: int, b: int| 0 <= a < i && 0 <= b < 4 ==> entry4(*self, *other, a, b, #[trigger] result.data[a][b]),
//@ loop 1 inv
                invariant 0 <= i < 4, forall|a: int, b: int| 0 <= b < 4 && (0 <= a < i || a == i && b < j) ==> entry4(*self, *other, a, b, #[trigger] result.data[a][b]),
//@ enditem
impl vstd::std_specs::ops::MulSpecImpl<f64> for Matrix4 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: f64) -> bool { true }
    open spec fn mul_spec(self, other: f64) -> Matrix4 { arbitrary() }
}
//@ impl Mul<f64> for Matrix4
//@ type Output
//@ fn mul
//@ ret r
//@ spec
        ensures forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 ==> #[trigger] r.data[i][j] == other.ieee_mul(self.data[i][j]),
//@ loop 0 inv
            invariant forall|a: int, b: int| 0 <= a < i && 0 <= b < 4 ==> #[trigger] result.data[a][b] == other.ieee_mul(self.data[a][b]),
//@ loop 1 inv
                invariant 0 <= i < 4, forall|a: int, b: int| 0 <= b < 4 && (0 <= a < i || a == i && b < j) ==> #[trigger] result.data[a][b] == other.ieee_mul(self.data[a][b]),
//@ enditem
impl<'a> vstd::std_specs::ops::MulSpecImpl<f64> for &'a Matrix4 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: f64) -> bool { true }
    open spec fn mul_spec(self, other: f64) -> Matrix4 { arbitrary() }
}
//@ impl Mul<f64> for &Matrix4
//@ type Output
//@ fn mul
//@ ret r
//@ spec
        ensures forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 ==> #[trigger] r.data[i][j] == other.ieee_mul((*self).data[i][j]),
//@ loop 0 inv
            invariant forall|a: int, b: int| 0 <= a < i && 0 <= b < 4 ==> #[trigger] result.data[a][b] == other.ieee_mul((*self).data[a][b]),
//@ loop 1 inv
                invariant 0 <= i < 4, forall|a: int, b: int| 0 <= b < 4 && (0 <= a < i || a == i && b < j) ==> #[trigger] result.data[a][b] == other.ieee_mul((*self).data[a][b]),
//@ enditem
/// the identity
pub open spec fn unit4(m: Matrix4) -> bool { forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 ==> #[trigger] m.data[i][j] == (if i == j { 1.0f64 } else { 0.0f64 }) }
//@ file src/matrix4_pipe.rs
//@ struct Matrix4Pipe
//@ enditem
//@ impl Matrix4Pipe
//@ fn result
//@ ret r
//@ spec
        ensures upto4(self.mperspective, 64) && upto4(self.mcamlook, 64) && upto4(self.mcamtrans, 64) && upto4(self.mtranslation, 64) && upto4(self.mrotation, 64) && upto4(self.mscale, 64) ==> is4(r, mul4(mul4(mul4(mul4(mul4(z4(self.mperspective), z4(self.mcamlook)), z4(self.mcamtrans)), z4(self.mtranslation)), z4(self.mrotation)), z4(self.mscale))),
//@ start
        proof { if upto4(self.mperspective, 64) && upto4(self.mcamlook, 64) && upto4(self.mcamtrans, 64) && upto4(self.mtranslation, 64) && upto4(self.mrotation, 64) && upto4(self.mscale, 64) { chain4(*self); } }
//@ fn add_translation
//@ spec
        ensures translates4(final(self).mtranslation, x, y, z), final(self).mperspective == old(self).mperspective, final(self).mcamlook == old(self).mcamlook, final(self).mcamtrans == old(self).mcamtrans, final(self).mrotation == old(self).mrotation, final(self).mscale == old(self).mscale,
//@ fn remove_translation
//@ spec
        ensures unit4(final(self).mtranslation), final(self).mperspective == old(self).mperspective, final(self).mcamlook == old(self).mcamlook, final(self).mcamtrans == old(self).mcamtrans, final(self).mrotation == old(self).mrotation, final(self).mscale == old(self).mscale,
//@ fn add_rotation
//@ spec
        ensures rotates4(final(self).mrotation, x, y, z), final(self).mperspective == old(self).mperspective, final(self).mcamlook == old(self).mcamlook, final(self).mcamtrans == old(self).mcamtrans, final(self).mtranslation == old(self).mtranslation, final(self).mscale == old(self).mscale,
//@ fn remove_rotation
//@ spec
        ensures unit4(final(self).mrotation), final(self).mperspective == old(self).mperspective, final(self).mcamlook == old(self).mcamlook, final(self).mcamtrans == old(self).mcamtrans, final(self).mtranslation == old(self).mtranslation, final(self).mscale == old(self).mscale,
//@ fn add_scale
//@ spec
        ensures scales4(final(self).mscale, x, y, z), final(self).mperspective == old(self).mperspective, final(self).mcamlook == old(self).mcamlook, final(self).mcamtrans == old(self).mcamtrans, final(self).mtranslation == old(self).mtranslation, final(self).mrotation == old(self).mrotation,
//@ fn remove_scale
//@ spec
        ensures unit4(final(self).mscale), final(self).mperspective == old(self).mperspective, final(self).mcamlook == old(self).mcamlook, final(self).mcamtrans == old(self).mcamtrans, final(self).mtranslation == old(self).mtranslation, final(self).mrotation == old(self).mrotation,
//@ fn add_perspective
//@ spec
        ensures final(self).mcamlook == old(self).mcamlook, final(self).mcamtrans == old(self).mcamtrans, final(self).mtranslation == old(self).mtranslation, final(self).mrotation == old(self).mrotation, final(self).mscale == old(self).mscale,
//@ fn remove_perspective
//@ spec
        ensures unit4(final(self).mperspective), final(self).mcamlook == old(self).mcamlook, final(self).mcamtrans == old(self).mcamtrans, final(self).mtranslation == old(self).mtranslation, final(self).mrotation == old(self).mrotation, final(self).mscale == old(self).mscale,
//@ fn add_camera_translation
//@ negate
//@ spec
        ensures translates4(final(self).mcamtrans, x.ieee_neg(), y.ieee_neg(), z.ieee_neg()), final(self).mperspective == old(self).mperspective, final(self).mcamlook == old(self).mcamlook, final(self).mtranslation == old(self).mtranslation, final(self).mrotation == old(self).mrotation, final(self).mscale == old(self).mscale,
//@ fn add_rotation_axis
//@ spec
        ensures spins(final(self).mrotation, *axis, rad.0), final(self).mperspective == old(self).mperspective, final(self).mcamlook == old(self).mcamlook, final(self).mcamtrans == old(self).mcamtrans, final(self).mtranslation == old(self).mtranslation, final(self).mscale == old(self).mscale,
//@ fn remove_camera_translation
//@ spec
        ensures unit4(final(self).mcamtrans), final(self).mperspective == old(self).mperspective, final(self).mcamlook == old(self).mcamlook, final(self).mtranslation == old(self).mtranslation, final(self).mrotation == old(self).mrotation, final(self).mscale == old(self).mscale,
//@ fn remove_look_at
//@ spec
        ensures unit4(final(self).mcamlook), final(self).mperspective == old(self).mperspective, final(self).mcamtrans == old(self).mcamtrans, final(self).mtranslation == old(self).mtranslation, final(self).mrotation == old(self).mrotation, final(self).mscale == old(self).mscale,
//@ enditem
/// the product with a matrix known as integers
pub proof fn same_product4(t: Matrix4, b: Matrix4, r: Matrix4, za: Z)
    requires is4(t, za), is4(r, mul4(z4(t), z4(b)))
    ensures is4(r, mul4(za, z4(b)))
{
    assert forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 implies val(#[trigger] r.data[i][j]) == mul4(za, z4(b))(i, j) by {
        assert(is(t.data[i][0], za(i, 0))); assert(is(t.data[i][1], za(i, 1))); assert(is(t.data[i][2], za(i, 2))); assert(is(t.data[i][3], za(i, 3)));
        assert(is(r.data[i][j], mul4(z4(t), z4(b))(i, j)));
    }
}
pub proof fn chain4(p: Matrix4Pipe)
    requires upto4(p.mperspective, 64), upto4(p.mcamlook, 64), upto4(p.mcamtrans, 64), upto4(p.mtranslation, 64), upto4(p.mrotation, 64), upto4(p.mscale, 64)
    ensures forall|t1: Matrix4, t2: Matrix4, t3: Matrix4, t4: Matrix4, t5: Matrix4| #[trigger] product4(p.mperspective, p.mcamlook, t1) && #[trigger] product4(t1, p.mcamtrans, t2) && #[trigger] product4(t2, p.mtranslation, t3) && #[trigger] product4(t3, p.mrotation, t4) && #[trigger] product4(t4, p.mscale, t5) ==> is4(t5, mul4(mul4(mul4(mul4(mul4(z4(p.mperspective), z4(p.mcamlook)), z4(p.mcamtrans)), z4(p.mtranslation)), z4(p.mrotation)), z4(p.mscale)))
{
    assert forall|t1: Matrix4, t2: Matrix4, t3: Matrix4, t4: Matrix4, t5: Matrix4| #[trigger] product4(p.mperspective, p.mcamlook, t1) && #[trigger] product4(t1, p.mcamtrans, t2) && #[trigger] product4(t2, p.mtranslation, t3) && #[trigger] product4(t3, p.mrotation, t4) && #[trigger] product4(t4, p.mscale, t5) implies is4(t5, mul4(mul4(mul4(mul4(mul4(z4(p.mperspective), z4(p.mcamlook)), z4(p.mcamtrans)), z4(p.mtranslation)), z4(p.mrotation)), z4(p.mscale))) by {
        assert(product4(p.mperspective, p.mcamlook, t1)); product_upto4(p.mperspective, p.mcamlook, t1, 64int, 64int);
        assert(product4(t1, p.mcamtrans, t2)); product_upto4(t1, p.mcamtrans, t2, 16384int, 64int);
        same_product4(t1, p.mcamtrans, t2, mul4(z4(p.mperspective), z4(p.mcamlook)));
        assert(product4(t2, p.mtranslation, t3)); product_upto4(t2, p.mtranslation, t3, 4194304int, 64int);
        same_product4(t2, p.mtranslation, t3, mul4(mul4(z4(p.mperspective), z4(p.mcamlook)), z4(p.mcamtrans)));
        assert(product4(t3, p.mrotation, t4)); product_upto4(t3, p.mrotation, t4, 1073741824int, 64int);
        same_product4(t3, p.mrotation, t4, mul4(mul4(mul4(z4(p.mperspective), z4(p.mcamlook)), z4(p.mcamtrans)), z4(p.mtranslation)));
        assert(product4(t4, p.mscale, t5)); product_upto4(t4, p.mscale, t5, 274877906944int, 64int);
        same_product4(t4, p.mscale, t5, mul4(mul4(mul4(mul4(z4(p.mperspective), z4(p.mcamlook)), z4(p.mcamtrans)), z4(p.mtranslation)), z4(p.mrotation)));
    }
}
//@ file src/is_normalized_3d.rs
//@ trait IsNormalized3D
//@ header pub trait IsNormalized3D: Is3D
//@ enditem
// ---- positions in 2D
//@ file src/is_2d.rs
//@ trait Is2D
//@ header pub trait Is2D: Coords
//@ fn x
//@ ret r
//@ spec
        ensures r == self.at(0),
//@ fn y
//@ ret r
//@ spec
        ensures r == self.at(1),
//@ enditem
/// r is the coordinate of p mapped by m in the given row (for whole numbers small enough to be exact)
pub open spec fn image2<P: Is2D>(m: Matrix3, row: int, p: P, r: f64) -> bool {
    whole3(m) && whole(p.at(0)) && whole(p.at(1)) && abs(z3(m)(row, 0) * val(p.at(0))) + abs(z3(m)(row, 1) * val(p.at(1))) + abs(z3(m)(row, 2)) <= lim() ==> is(r, z3(m)(row, 0) * val(p.at(0)) + z3(m)(row, 1) * val(p.at(1)) + z3(m)(row, 2))
}
/// r is p mapped by m
pub open spec fn mapped2<P: Is2D>(m: Matrix3, p: P, r: P) -> bool { image2(m, 0, p, r.at(0)) && image2(m, 1, p, r.at(1)) }
//@ file src/is_buildable_2d.rs
//@ trait IsBuildable2D
//@ header pub trait IsBuildable2D: Sized + Is2D
//@ fn new
//@ ret r
//@ spec
        ensures r.at(0) == x, r.at(1) == y,
//@ fn multiply_m default
//@ ret r
//@ spec
        ensures mapped2(*m, *self, r),
//@ enditem
//@ file src/is_matrix3_transformable.rs
//@ trait IsMatrix3Transformable
//@ header pub trait IsMatrix3Transformable: Sized
//@ ghost
    spec fn mapped(m: Matrix3, a: Self, b: Self) -> bool;
    /// clones of its parts are equal to them
    spec fn copies() -> bool;
//@ fn transformed
//@ ret r
//@ spec
        requires Self::copies(),
        ensures Self::mapped(*m, *self, r),
//@ fn transform
//@ spec
        ensures Self::mapped(*m, *old(self), *final(self)),
//@ enditem
//@ file src/point_2d.rs
//@ struct Point2D
//@ attrs
#[derive(PartialEq)]
//@ enditem
/// derived
impl Clone for Point2D { fn clone(&self) -> (r: Self) ensures r == *self { Point2D { x: self.x, y: self.y } } }
impl Coords for Point2D { open spec fn at(&self, i: int) -> f64 { if i == 0 { self.x } else { self.y } } }
//@ impl Is2D for Point2D
//@ fn x
//@ fn y
//@ enditem
//@ impl IsBuildable2D for Point2D
//@ fn new
//@ enditem
//@ impl IsMatrix3Transformable for Point2D
//@ ghost
    open spec fn mapped(m: Matrix3, a: Self, b: Self) -> bool { mapped2(m, a, b) }
    open spec fn copies() -> bool { true }
//@ fn transformed
//@ fn transform
//@ enditem
//@ file src/line_segment_2d.rs
//@ struct LineSegment2D
//@ enditem
/// derived
impl Clone for LineSegment2D { fn clone(&self) -> (r: Self) ensures r == *self { LineSegment2D { start: self.start.clone(), end: self.end.clone() } } }
//@ impl IsMatrix3Transformable for LineSegment2D
//@ ghost
    open spec fn mapped(m: Matrix3, a: Self, b: Self) -> bool { mapped2(m, a.start, b.start) && mapped2(m, a.end, b.end) }
    open spec fn copies() -> bool { true }
//@ fn transformed
//@ fn transform
//@ enditem
//@ file src/point_cloud_2d.rs
//@ struct PointCloud2D
//@ enditem
/// derived
impl<P: Is2D + Clone> Clone for PointCloud2D<P> { fn clone(&self) -> (r: Self) ensures r.data@.len() == self.data@.len(), forall|i: int| 0 <= i < self.data@.len() ==> cloned(#[trigger] self.data@[i], r.data@[i]) { PointCloud2D { data: self.data.clone() } } }
//@ impl IsMatrix3Transformable for PointCloud2D
//@ ghost
    open spec fn mapped(m: Matrix3, a: Self, b: Self) -> bool { b.data@.len() == a.data@.len() && forall|i: int| 0 <= i < a.data@.len() ==> P::mapped(m, #[trigger] a.data@[i], b.data@[i]) }
    open spec fn copies() -> bool { clone_ok::<P>() }
//@ fn transformed
//@ fn transform
//@ loop 0 iter it
//@ loop 0 inv
            invariant forall|i: int| 0 <= i < it.index@ ==> P::mapped(*m, #[trigger] old(self).data@[i], final(self).data@[i]),
//@ enditem
//@ file src/polygon_2d.rs
//@ struct Polygon2D
//@ enditem
/// derived
impl<P: IsBuildable2D + Clone> Clone for Polygon2D<P> { fn clone(&self) -> (r: Self) ensures call_ensures(PointCloud2D::<P>::clone, (&self.pc,), r.pc) { Polygon2D { pc: self.pc.clone() } } }
//@ impl IsMatrix3Transformable for Polygon2D
//@ ghost
    open spec fn mapped(m: Matrix3, a: Self, b: Self) -> bool { PointCloud2D::<P>::mapped(m, a.pc, b.pc) }
    open spec fn copies() -> bool { clone_ok::<P>() }
//@ fn transformed
//@ fn transform
//@ enditem
// ---- positions in 3D
//@ file src/is_3d.rs
//@ trait Is3D
//@ header pub trait Is3D: Coords
//@ fn x
//@ ret r
//@ spec
        ensures r == self.at(0),
//@ fn y
//@ ret r
//@ spec
        ensures r == self.at(1),
//@ fn z
//@ ret r
//@ spec
        ensures r == self.at(2),
//@ enditem
/// r is the coordinate of p mapped by m in the given row (for whole numbers small enough to be exact)
pub open spec fn image3<P: Is3D>(m: Matrix4, row: int, p: P, r: f64) -> bool {
    whole4(m) && whole(p.at(0)) && whole(p.at(1)) && whole(p.at(2)) && abs(z4(m)(row, 0) * val(p.at(0))) + abs(z4(m)(row, 1) * val(p.at(1))) + abs(z4(m)(row, 2) * val(p.at(2))) + abs(z4(m)(row, 3)) <= lim() ==> is(r, z4(m)(row, 0) * val(p.at(0)) + z4(m)(row, 1) * val(p.at(1)) + z4(m)(row, 2) * val(p.at(2)) + z4(m)(row, 3))
}
/// r is p mapped by m
pub open spec fn mapped3<P: Is3D>(m: Matrix4, p: P, r: P) -> bool { image3(m, 0, p, r.at(0)) && image3(m, 1, p, r.at(1)) && image3(m, 2, p, r.at(2)) }
//@ file src/is_buildable_3d.rs
//@ trait IsBuildable3D
//@ header pub trait IsBuildable3D: Sized + Is3D
//@ fn new
//@ ret r
//@ spec
        ensures r.at(0) == x, r.at(1) == y, r.at(2) == z,
//@ fn multiply_m default
//@ ret r
//@ spec
        ensures mapped3(*m, *self, r),
//@ enditem
//@ file src/is_matrix4_transformable.rs
//@ trait IsMatrix4Transformable
//@ header pub trait IsMatrix4Transformable: Sized
//@ ghost
    spec fn mapped(m: Matrix4, a: Self, b: Self) -> bool;
    /// clones of its parts are equal to them
    spec fn copies() -> bool;
//@ fn transformed
//@ ret r
//@ spec
        requires Self::copies(),
        ensures Self::mapped(*m, *self, r),
//@ fn transform
//@ spec
        ensures Self::mapped(*m, *old(self), *final(self)),
//@ enditem
//@ file src/point_3d.rs
//@ struct Point3D
//@ attrs
#[derive(PartialEq)]
//@ enditem
/// derived
impl Clone for Point3D { fn clone(&self) -> (r: Self) ensures r == *self { Point3D { x: self.x, y: self.y, z: self.z } } }
impl Coords for Point3D { open spec fn at(&self, i: int) -> f64 { if i == 0 { self.x } else if i == 1 { self.y } else { self.z } } }
//@ impl Is3D for Point3D
//@ fn x
//@ fn y
//@ fn z
//@ enditem
//@ impl IsBuildable3D for Point3D
//@ fn new
//@ enditem
//@ impl IsMatrix4Transformable for Point3D
//@ ghost
    open spec fn mapped(m: Matrix4, a: Self, b: Self) -> bool { mapped3(m, a, b) }
    open spec fn copies() -> bool { true }
//@ fn transformed
//@ fn transform
//@ enditem
//@ file src/line_segment_3d.rs
//@ struct LineSegment3D
//@ enditem
/// derived
impl Clone for LineSegment3D { fn clone(&self) -> (r: Self) ensures r == *self { LineSegment3D { start: self.start.clone(), end: self.end.clone() } } }
//@ impl IsMatrix4Transformable for LineSegment3D
//@ ghost
    open spec fn mapped(m: Matrix4, a: Self, b: Self) -> bool { mapped3(m, a.start, b.start) && mapped3(m, a.end, b.end) }
    open spec fn copies() -> bool { true }
//@ fn transformed
//@ fn transform
//@ enditem
//@ file src/point_cloud_3d.rs
//@ struct PointCloud3D
//@ enditem
/// derived
impl<P: Is3D + Clone> Clone for PointCloud3D<P> { fn clone(&self) -> (r: Self) ensures r.data@.len() == self.data@.len(), forall|i: int| 0 <= i < self.data@.len() ==> cloned(#[trigger] self.data@[i], r.data@[i]) { PointCloud3D { data: self.data.clone() } } }
//@ impl IsMatrix4Transformable for PointCloud3D
//@ ghost
    open spec fn mapped(m: Matrix4, a: Self, b: Self) -> bool { b.data@.len() == a.data@.len() && forall|i: int| 0 <= i < a.data@.len() ==> P::mapped(m, #[trigger] a.data@[i], b.data@[i]) }
    open spec fn copies() -> bool { clone_ok::<P>() }
//@ fn transformed
//@ fn transform
//@ loop 0 iter it
//@ loop 0 inv
            invariant forall|i: int| 0 <= i < it.index@ ==> P::mapped(*m, #[trigger] old(self).data@[i], final(self).data@[i]),
//@ enditem
//@ file src/polygon_3d.rs
//@ struct Polygon3D
//@ enditem
/// derived
impl<P: IsBuildable3D + Clone> Clone for Polygon3D<P> { fn clone(&self) -> (r: Self) ensures call_ensures(PointCloud3D::<P>::clone, (&self.pc,), r.pc) { Polygon3D { pc: self.pc.clone() } } }
//@ impl IsMatrix4Transformable for Polygon3D
//@ ghost
    open spec fn mapped(m: Matrix4, a: Self, b: Self) -> bool { PointCloud3D::<P>::mapped(m, a.pc, b.pc) }
    open spec fn copies() -> bool { clone_ok::<P>() }
//@ fn transformed
//@ fn transform
//@ enditem
//@ file src/mesh_3d.rs
//@ struct Mesh3D
//@ replace `ID: IsDataContainer<P>,` => `` ; not needed to map the vertices
//@ replace `IC: IsIndexContainer,` => `` ; as above
//@ enditem
/// derived
impl<P: Is3D, ID: Clone, IC: Clone> Clone for Mesh3D<P, ID, IC> { fn clone(&self) -> (r: Self) ensures cloned(self.pc, r.pc), cloned(self.topology, r.topology) { Mesh3D { pc: self.pc.clone(), topology: self.topology.clone(), _phantom: PhantomData } } }
//@ impl IsMatrix4Transformable for Mesh3D
//@ header impl<P: Is3D + Clone, ID: IsMatrix4Transformable + Clone, IC: Clone> IsMatrix4Transformable for Mesh3D<P, ID, IC>
//@ ghost
    /// the faces stay the same
    open spec fn mapped(m: Matrix4, a: Self, b: Self) -> bool { ID::mapped(m, a.pc, b.pc) && b.topology == a.topology }
    open spec fn copies() -> bool { clone_ok::<ID>() && clone_ok::<IC>() }
//@ fn transformed
//@ fn transform
//@ enditem
} fn main() {}

#![allow(warnings)]
use vstd::prelude::*;
use std::ops::*;
verus! {
//@include float.inc
use vstd::std_specs::ops::*;
use vstd::std_specs::convert::*;
broadcast use {vstd::seq_lib::group_seq_properties, fl::ax};
pub uninterp spec fn f_sqrt(x: f64) -> f64;
pub assume_specification [f64::sqrt](x: f64) -> (r: f64) ensures r == f_sqrt(x);
pub open spec fn zero() -> f64 { 0.0f64 }
impl Positive { pub open spec fn ok(self) -> bool { zero().ieee_lt(self.val) } }
impl NonNegative { pub open spec fn ok(self) -> bool { zero().ieee_le(self.val) } }
// NaN satisfies neither restriction, and a positive number is non-negative
pub proof fn nan_is_rejected(x: f64) requires !x.ieee_eq(x) ensures !zero().ieee_lt(x), !zero().ieee_le(x) {
    assert(!x.ieee_eq(x) ==> !0.0f64.ieee_lt(x) && !0.0f64.ieee_le(x)) by(bit_vector);
}
pub proof fn positive_is_non_negative(x: Positive) requires x.ok() ensures (NonNegative { val: x.val }).ok() {
    let v = x.val; assert(0.0f64.ieee_lt(v) ==> 0.0f64.ieee_le(v)) by(bit_vector);
}
// results that can never leave the restriction: sums, and products and quotients of non-negative numbers unless NaN
pub proof fn sums_stay_positive(x: f64, y: f64) requires zero().ieee_lt(x), zero().ieee_le(y) ensures zero().ieee_lt(x.ieee_add(y)) {
    assert(0.0f64.ieee_lt(x) && 0.0f64.ieee_le(y) ==> 0.0f64.ieee_lt(x.ieee_add(y))) by(bit_vector);
}
pub proof fn sums_stay_non_negative(x: f64, y: f64) requires zero().ieee_le(x), zero().ieee_le(y) ensures zero().ieee_le(x.ieee_add(y)) {
    assert(0.0f64.ieee_le(x) && 0.0f64.ieee_le(y) ==> 0.0f64.ieee_le(x.ieee_add(y))) by(bit_vector);
}
pub proof fn products_stay_non_negative(x: f64, y: f64) requires zero().ieee_le(x), zero().ieee_le(y), x.ieee_mul(y).ieee_eq(x.ieee_mul(y)) ensures zero().ieee_le(x.ieee_mul(y)) {
    assert(0.0f64.ieee_le(x) && 0.0f64.ieee_le(y) && x.ieee_mul(y).ieee_eq(x.ieee_mul(y)) ==> 0.0f64.ieee_le(x.ieee_mul(y))) by(bit_vector);
}
pub proof fn quotients_stay_non_negative(x: f64, y: f64) requires zero().ieee_le(x), zero().ieee_lt(y), x.ieee_div(y).ieee_eq(x.ieee_div(y)) ensures zero().ieee_le(x.ieee_div(y)) {
    assert(0.0f64.ieee_le(x) && 0.0f64.ieee_lt(y) && x.ieee_div(y).ieee_eq(x.ieee_div(y)) ==> 0.0f64.ieee_le(x.ieee_div(y))) by(bit_vector);
}
pub proof fn neg_and_zero(x: f64) ensures zero().ieee_lt(x) ==> !x.ieee_eq(0.0f64) && !x.ieee_lt(0.0f64), zero().ieee_le(0.0f64), zero().ieee_lt(1.0f64), zero().ieee_le(1.0f64) {
    assert(0.0f64.ieee_lt(x) ==> !x.ieee_eq(0.0f64) && !x.ieee_lt(0.0f64)) by(bit_vector);
    assert(0.0f64.ieee_le(0.0f64)) by(bit_vector);
    assert(0.0f64.ieee_lt(1.0f64)) by(bit_vector);
    assert(0.0f64.ieee_le(1.0f64)) by(bit_vector);
}

//@ file src/positive.rs
//@ struct Positive
//@ attrs
#[derive(Clone, Copy)]
//@ enditem
//@ impl Positive
//@ fn new
//@ ret r
//@ spec
        ensures match r { Some(x) => zero().ieee_lt(val) && x.val == val && x.ok(), None => !zero().ieee_lt(val) },
//@ fn one
//@ ret r
//@ spec
        ensures r.val == 1.0f64, r.ok(),
//@ start
        proof { neg_and_zero(1.0f64); }
//@ fn sqrt
//@ ret r
//@ spec
        ensures r.val == f_sqrt(self.val),
//@ enditem
//@ file src/non_negative.rs
//@ struct NonNegative
//@ attrs
#[derive(Clone, Copy)]
//@ enditem
//@ impl NonNegative
//@ fn new
//@ ret r
//@ spec
        ensures match r { Some(x) => zero().ieee_le(val) && x.val == val && x.ok(), None => !zero().ieee_le(val) },
//@ fn zero
//@ ret r
//@ spec
        ensures r.val == 0.0f64, r.ok(),
//@ start
        proof { neg_and_zero(0.0f64); }
//@ fn one
//@ ret r
//@ spec
        ensures r.val == 1.0f64, r.ok(),
//@ start
        proof { neg_and_zero(1.0f64); }
//@ fn sqrt
//@ ret r
//@ spec
        ensures r.val == f_sqrt(self.val),
//@ enditem
impl AddSpecImpl<Positive> for Positive {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Positive) -> bool { true }
    open spec fn add_spec(self, o: Positive) -> Positive { Positive { val: self.val.ieee_add(o.val) } }
}
//@ file src/positive.rs
//@ impl Add for Positive
//@ floatassign
//@ type Output
//@ fn add
//@ start
        proof { fl::at(self.val, other.val); }
//@ enditem
impl AddSpecImpl<NonNegative> for Positive {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: NonNegative) -> bool { true }
    open spec fn add_spec(self, o: NonNegative) -> Positive { Positive { val: self.val.ieee_add(o.val) } }
}
//@ file src/positive.rs
//@ impl Add<NonNegative> for Positive
//@ floatassign
//@ type Output
//@ fn add
//@ start
        proof { fl::at(self.val, other.val); }
//@ enditem
impl MulSpecImpl<Positive> for Positive {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Positive) -> bool { true }
    open spec fn mul_spec(self, o: Positive) -> Positive { Positive { val: self.val.ieee_mul(o.val) } }
}
//@ file src/positive.rs
//@ impl Mul for Positive
//@ floatassign
//@ type Output
//@ fn mul
//@ start
        proof { fl::at(self.val, other.val); }
//@ enditem
impl MulSpecImpl<NonNegative> for Positive {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: NonNegative) -> bool { true }
    open spec fn mul_spec(self, o: NonNegative) -> NonNegative { NonNegative { val: self.val.ieee_mul(o.val) } }
}
//@ file src/positive.rs
//@ impl Mul<NonNegative> for Positive
//@ floatassign
//@ type Output
//@ fn mul
//@ start
        proof { fl::at(self.val, other.val); }
//@ enditem
impl DivSpecImpl<Positive> for Positive {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: Positive) -> bool { zero().ieee_le(self.val.ieee_div(o.val)) }
    open spec fn div_spec(self, o: Positive) -> NonNegative { NonNegative { val: self.val.ieee_div(o.val) } }
}
//@ file src/positive.rs
//@ impl Div for Positive
//@ floatassign
//@ type Output
//@ fn div
//@ start
        proof { fl::at(self.val, other.val); }
//@ enditem
impl DivSpecImpl<NonNegative> for Positive {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: NonNegative) -> bool { zero().ieee_le(self.val.ieee_div(o.val)) }
    open spec fn div_spec(self, o: NonNegative) -> NonNegative { NonNegative { val: self.val.ieee_div(o.val) } }
}
//@ file src/positive.rs
//@ impl Div<NonNegative> for Positive
//@ floatassign
//@ type Output
//@ fn div
//@ start
        proof { fl::at(self.val, other.val); }
//@ enditem
impl AddAssignSpecImpl<Positive> for Positive {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, o: Positive) -> bool { true }
    open spec fn add_assign_spec(&self, o: Positive) -> &Positive { &Positive { val: self.val.ieee_add(o.val) } }
}
//@ file src/positive.rs
//@ impl AddAssign for Positive
//@ floatassign
//@ type Output
//@ fn add_assign
//@ start
        proof { fl::at(self.val, other.val); }
//@ enditem
impl AddAssignSpecImpl<NonNegative> for Positive {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, o: NonNegative) -> bool { true }
    open spec fn add_assign_spec(&self, o: NonNegative) -> &Positive { &Positive { val: self.val.ieee_add(o.val) } }
}
//@ file src/positive.rs
//@ impl AddAssign<NonNegative> for Positive
//@ floatassign
//@ type Output
//@ fn add_assign
//@ start
        proof { fl::at(self.val, other.val); }
//@ enditem
impl MulAssignSpecImpl<Positive> for Positive {
    open spec fn obeys_mul_assign_spec() -> bool { true }
    open spec fn mul_assign_req(&self, o: Positive) -> bool { true }
    open spec fn mul_assign_spec(&self, o: Positive) -> &Positive { &Positive { val: self.val.ieee_mul(o.val) } }
}
//@ file src/positive.rs
//@ impl MulAssign for Positive
//@ floatassign
//@ type Output
//@ fn mul_assign
//@ start
        proof { fl::at(self.val, other.val); }
//@ enditem
impl AddSpecImpl<NonNegative> for NonNegative {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: NonNegative) -> bool { true }
    open spec fn add_spec(self, o: NonNegative) -> NonNegative { NonNegative { val: self.val.ieee_add(o.val) } }
}
//@ file src/non_negative.rs
//@ impl Add for NonNegative
//@ floatassign
//@ type Output
//@ fn add
//@ start
        proof { fl::at(self.val, other.val); }
//@ enditem
impl MulSpecImpl<NonNegative> for NonNegative {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: NonNegative) -> bool { true }
    open spec fn mul_spec(self, o: NonNegative) -> NonNegative { NonNegative { val: self.val.ieee_mul(o.val) } }
}
//@ file src/non_negative.rs
//@ impl Mul for NonNegative
//@ floatassign
//@ type Output
//@ fn mul
//@ start
        proof { fl::at(self.val, other.val); }
//@ enditem
impl DivSpecImpl<NonNegative> for NonNegative {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: NonNegative) -> bool { true }
    open spec fn div_spec(self, o: NonNegative) -> NonNegative { NonNegative { val: self.val.ieee_div(o.val) } }
}
//@ file src/non_negative.rs
//@ impl Div for NonNegative
//@ floatassign
//@ type Output
//@ fn div
//@ start
        proof { fl::at(self.val, other.val); }
//@ enditem
impl AddAssignSpecImpl<NonNegative> for NonNegative {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, o: NonNegative) -> bool { true }
    open spec fn add_assign_spec(&self, o: NonNegative) -> &NonNegative { &NonNegative { val: self.val.ieee_add(o.val) } }
}
//@ file src/non_negative.rs
//@ impl AddAssign for NonNegative
//@ floatassign
//@ type Output
//@ fn add_assign
//@ start
        proof { fl::at(self.val, other.val); }
//@ enditem
impl MulAssignSpecImpl<NonNegative> for NonNegative {
    open spec fn obeys_mul_assign_spec() -> bool { true }
    open spec fn mul_assign_req(&self, o: NonNegative) -> bool { true }
    open spec fn mul_assign_spec(&self, o: NonNegative) -> &NonNegative { &NonNegative { val: self.val.ieee_mul(o.val) } }
}
//@ file src/non_negative.rs
//@ impl MulAssign for NonNegative
//@ floatassign
//@ type Output
//@ fn mul_assign
//@ start
        proof { fl::at(self.val, other.val); }
//@ enditem
impl DivAssignSpecImpl<NonNegative> for NonNegative {
    open spec fn obeys_div_assign_spec() -> bool { true }
    open spec fn div_assign_req(&self, o: NonNegative) -> bool { true }
    open spec fn div_assign_spec(&self, o: NonNegative) -> &NonNegative { &NonNegative { val: self.val.ieee_div(o.val) } }
}
//@ file src/non_negative.rs
//@ impl DivAssign for NonNegative
//@ floatassign
//@ type Output
//@ fn div_assign
//@ start
        proof { fl::at(self.val, other.val); }
//@ enditem
impl AddSpecImpl<Positive> for NonNegative {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Positive) -> bool { true }
    open spec fn add_spec(self, o: Positive) -> NonNegative { NonNegative { val: self.val.ieee_add(o.val) } }
}
//@ file src/non_negative.rs
//@ impl Add<Positive> for NonNegative
//@ floatassign
//@ type Output
//@ fn add
//@ start
        proof { fl::at(self.val, other.val); }
//@ enditem
impl MulSpecImpl<Positive> for NonNegative {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Positive) -> bool { true }
    open spec fn mul_spec(self, o: Positive) -> NonNegative { NonNegative { val: self.val.ieee_mul(o.val) } }
}
//@ file src/non_negative.rs
//@ impl Mul<Positive> for NonNegative
//@ floatassign
//@ type Output
//@ fn mul
//@ start
        proof { fl::at(self.val, other.val); }
//@ enditem
impl DivSpecImpl<Positive> for NonNegative {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: Positive) -> bool { true }
    open spec fn div_spec(self, o: Positive) -> NonNegative { NonNegative { val: self.val.ieee_div(o.val) } }
}
//@ file src/non_negative.rs
//@ impl Div<Positive> for NonNegative
//@ floatassign
//@ type Output
//@ fn div
//@ start
        proof { fl::at(self.val, other.val); }
//@ enditem
impl AddAssignSpecImpl<Positive> for NonNegative {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, o: Positive) -> bool { true }
    open spec fn add_assign_spec(&self, o: Positive) -> &NonNegative { &NonNegative { val: self.val.ieee_add(o.val) } }
}
//@ file src/non_negative.rs
//@ impl AddAssign<Positive> for NonNegative
//@ floatassign
//@ type Output
//@ fn add_assign
//@ start
        proof { fl::at(self.val, other.val); }
//@ enditem
impl MulAssignSpecImpl<Positive> for NonNegative {
    open spec fn obeys_mul_assign_spec() -> bool { true }
    open spec fn mul_assign_req(&self, o: Positive) -> bool { true }
    open spec fn mul_assign_spec(&self, o: Positive) -> &NonNegative { &NonNegative { val: self.val.ieee_mul(o.val) } }
}
//@ file src/non_negative.rs
//@ impl MulAssign<Positive> for NonNegative
//@ floatassign
//@ type Output
//@ fn mul_assign
//@ start
        proof { fl::at(self.val, other.val); }
//@ enditem
impl DivAssignSpecImpl<Positive> for NonNegative {
    open spec fn obeys_div_assign_spec() -> bool { true }
    open spec fn div_assign_req(&self, o: Positive) -> bool { true }
    open spec fn div_assign_spec(&self, o: Positive) -> &NonNegative { &NonNegative { val: self.val.ieee_div(o.val) } }
}
//@ file src/non_negative.rs
//@ impl DivAssign<Positive> for NonNegative
//@ floatassign
//@ type Output
//@ fn div_assign
//@ start
        proof { fl::at(self.val, other.val); }
//@ enditem
impl IntoSpecImpl<f64> for Positive {
    open spec fn obeys_into_spec() -> bool { true }
    open spec fn into_spec(self) -> f64 { self.val }
}
//@ file src/positive.rs
//@ impl Into<f64> for Positive
//@ fn into
//@ enditem
//@ impl std::ops::Deref for Positive
//@ type Target
//@ fn deref
//@ sigreplace `Self::Target` => `f64` ; associated type restated
//@ ret r
//@ spec
        ensures *r == self.val,
//@ enditem
//@ impl AsRef<f64> for Positive
//@ fn as_ref
//@ ret r
//@ spec
        ensures *r == self.val,
//@ enditem
//@ impl Default for Positive
//@ fn default
//@ ret r
//@ spec
        ensures r.val == 1.0f64, r.ok(),
//@ enditem
impl IntoSpecImpl<f64> for NonNegative {
    open spec fn obeys_into_spec() -> bool { true }
    open spec fn into_spec(self) -> f64 { self.val }
}
//@ file src/non_negative.rs
//@ impl Into<f64> for NonNegative
//@ fn into
//@ enditem
//@ impl std::ops::Deref for NonNegative
//@ type Target
//@ fn deref
//@ sigreplace `Self::Target` => `f64` ; associated type restated
//@ ret r
//@ spec
        ensures *r == self.val,
//@ enditem
//@ impl AsRef<f64> for NonNegative
//@ fn as_ref
//@ ret r
//@ spec
        ensures *r == self.val,
//@ enditem
//@ impl Default for NonNegative
//@ fn default
//@ ret r
//@ spec
        ensures r.val == 0.0f64, r.ok(),
//@ enditem
impl FromSpecImpl<Positive> for NonNegative {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(x: Positive) -> NonNegative { NonNegative { val: x.val } }
}
//@ file src/non_negative.rs
//@ impl From<Positive> for NonNegative
//@ fn from
//@ enditem
fn main() {}
}

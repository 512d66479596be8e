// Positive / NonNegative: the part other contracts need (all of it is verified under C01)
pub uninterp spec fn f_sqrt(x: f64) -> f64;
pub assume_specification [f64::sqrt](x: f64) -> (r: f64) ensures r == f_sqrt(x);
pub open spec fn pos(x: f64) -> bool { 0.0f64.ieee_lt(x) }
pub open spec fn nneg(x: f64) -> bool { 0.0f64.ieee_le(x) }
//@ file src/positive.rs
//@ struct Positive
//@ attrs
#[derive(Clone, Copy)]
//@ enditem
//@ impl Positive
//@ fn new
//@ ret r
//@ spec
        ensures match r { Some(x) => pos(val) && x.val == val, None => !pos(val) },
//@ fn one
//@ ret r
//@ spec
        ensures r.val == 1.0f64,
//@ enditem
//@ impl std::ops::Deref for Positive
//@ type Target
//@ fn deref
//@ sigreplace `Self::Target` => `f64` ; associated type restated
//@ ret r
//@ spec
        ensures *r == self.val,
//@ enditem
//@ file src/non_negative.rs
//@ struct NonNegative
//@ attrs
#[derive(Clone, Copy)]
//@ enditem
//@ impl NonNegative
//@ fn new
//@ ret r
//@ spec
        ensures match r { Some(x) => nneg(val) && x.val == val, None => !nneg(val) },
//@ fn zero
//@ ret r
//@ spec
        ensures r.val == 0.0f64,
//@ fn one
//@ ret r
//@ spec
        ensures r.val == 1.0f64,
//@ enditem
//@ impl std::ops::Deref for NonNegative
//@ type Target
//@ fn deref
//@ sigreplace `Self::Target` => `f64` ; associated type restated
//@ ret r
//@ spec
        ensures *r == self.val,
//@ enditem

#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use std::ops::*;
verus! {
//@include float.inc
broadcast use {vstd::seq_lib::group_seq_properties, fl::ax};
/// a number (of its own type: Verus has no typing invariant for fields of type f64)
pub struct Num(pub f64);
/// what a hasher was fed so far
pub trait Hasher { spec fn fed(&self) -> Seq<Num>; }
/// `x.to_bits().hash(state)` (assumed: std)
#[verifier::external_body]
pub fn feed<H: Hasher>(x: f64, state: &mut H) ensures final(state).fed() == old(state).fed().push(Num(x)) { unimplemented!() }
/// k is the same number as x, of both zeros the positive one
pub open spec fn canon(x: f64, k: f64) -> bool { x.ieee_eq(x) ==> k.ieee_eq(x) && (x.ieee_eq(0.0f64) ==> k == 0.0f64) }
pub proof fn canon_plus_zero(x: f64) ensures canon(x, x.ieee_add(0.0f64)), canon(x, 0.0f64.ieee_add(x)) {
    fl::at(x, 0.0f64);
    assert(x.ieee_eq(x) ==> x.ieee_add(0.0f64).ieee_eq(x)) by(bit_vector);
    assert(x.ieee_eq(0.0f64) ==> x.ieee_add(0.0f64) == 0.0f64) by(bit_vector);
}
pub proof fn canon_one(x: f64, y: f64, k: f64, l: f64) requires x.ieee_eq(y), canon(x, k), canon(y, l) ensures k == l {
    assert(x.ieee_eq(y) ==> x.ieee_eq(x) && y.ieee_eq(y)) by(bit_vector);
    assert(k.ieee_eq(x) && x.ieee_eq(y) && l.ieee_eq(y) && !x.ieee_eq(0.0f64) ==> k == l) by(bit_vector);
    assert(x.ieee_eq(y) && x.ieee_eq(0.0f64) ==> y.ieee_eq(0.0f64)) by(bit_vector);
}
/// b is a, then the numbers of p in order
pub open spec fn fed_with(a: Seq<Num>, b: Seq<Num>, p: Seq<Num>) -> bool {
    b.len() == a.len() + p.len() && (forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i]) && forall|i: int| 0 <= i < p.len() ==> #[trigger] canon(p[i].0, b[a.len() + i].0)
}
/// the values of both are equal
pub open spec fn alike(p: Seq<Num>, q: Seq<Num>) -> bool { p.len() == q.len() && forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).0.ieee_eq(q[i].0) }
/// equal values hash alike
pub proof fn same_hash(a: Seq<Num>, b: Seq<Num>, c: Seq<Num>, p: Seq<Num>, q: Seq<Num>)
    requires fed_with(a, b, p), fed_with(a, c, q), alike(p, q),
    ensures b == c,
{
    assert forall|i: int| 0 <= i < b.len() implies b[i] == c[i] by {
        if i >= a.len() { let j = i - a.len(); assert(p[j].0.ieee_eq(q[j].0)); assert(canon(p[j].0, b[a.len() + j].0)); assert(canon(q[j].0, c[a.len() + j].0)); canon_one(p[j].0, q[j].0, b[i].0, c[i].0); }
    }
    assert(b =~= c);
}
pub proof fn nothing_fed(a: Seq<Num>) ensures fed_with(a, a, Seq::<Num>::empty()) { }
pub proof fn one_more(b: Seq<Num>, x: f64) ensures forall|a: Seq<Num>, p: Seq<Num>, k: f64| #[trigger] fed_with(a, b, p) && canon(x, k) ==> #[trigger] fed_with(a, b.push(Num(k)), p.push(Num(x))) {
    assert forall|a: Seq<Num>, p: Seq<Num>, k: f64| #[trigger] fed_with(a, b, p) && canon(x, k) implies #[trigger] fed_with(a, b.push(Num(k)), p.push(Num(x))) by {
        let (c, q) = (b.push(Num(k)), p.push(Num(x)));
        assert forall|i: int| 0 <= i < q.len() implies #[trigger] canon(q[i].0, c[a.len() + i].0) by { if i < p.len() { assert(canon(p[i].0, b[a.len() + i].0)); } }
    }
}
pub trait Hash {
    /// the numbers which make up the value
    spec fn parts(&self) -> Seq<Num>;
    fn hash<H: Hasher>(&self, state: &mut H) ensures fed_with(old(state).fed(), final(state).fed(), self.parts());
}
//@ file src/utils.rs
//@ freefn hash_f64
//@ replace `$1.to_bits().hash(state)` => `feed($1, state)` ; see feed
//@ spec
    ensures forall|a: Seq<Num>, p: Seq<Num>| #[trigger] fed_with(a, old(state).fed(), p) ==> fed_with(a, final(state).fed(), p.push(Num(x))),
//@ start
    proof { canon_plus_zero(x); one_more(old(state).fed(), x); }
//@ enditem
//@ file src/point_2d.rs
//@ struct Point2D
//@ enditem
//@ impl Hash for Point2D
//@ ghost
    open spec fn parts(&self) -> Seq<Num> { Seq::<Num>::empty().push(Num(self.x)).push(Num(self.y)) }
//@ fn hash
//@ start
        proof { nothing_fed(old(state).fed()); }
//@ enditem
//@ file src/point_3d.rs
//@ struct Point3D
//@ enditem
//@ impl Hash for Point3D
//@ ghost
    open spec fn parts(&self) -> Seq<Num> { Seq::<Num>::empty().push(Num(self.x)).push(Num(self.y)).push(Num(self.z)) }
//@ fn hash
//@ start
        proof { nothing_fed(old(state).fed()); }
//@ enditem
//@ file src/norm_2d.rs
//@ struct Norm2D
//@ enditem
//@ impl Hash for Norm2D
//@ ghost
    open spec fn parts(&self) -> Seq<Num> { Seq::<Num>::empty().push(Num(self.x)).push(Num(self.y)) }
//@ fn hash
//@ start
        proof { nothing_fed(old(state).fed()); }
//@ enditem
//@ file src/norm_3d.rs
//@ struct Norm3D
//@ enditem
//@ impl Hash for Norm3D
//@ ghost
    open spec fn parts(&self) -> Seq<Num> { Seq::<Num>::empty().push(Num(self.x)).push(Num(self.y)).push(Num(self.z)) }
//@ fn hash
//@ start
        proof { nothing_fed(old(state).fed()); }
//@ enditem
//@ file src/positive.rs
//@ struct Positive
//@ enditem
//@ impl Hash for Positive
//@ ghost
    open spec fn parts(&self) -> Seq<Num> { Seq::<Num>::empty().push(Num(self.val)) }
//@ fn hash
//@ start
        proof { nothing_fed(old(state).fed()); }
//@ enditem
//@ file src/non_negative.rs
//@ struct NonNegative
//@ enditem
//@ impl Hash for NonNegative
//@ ghost
    open spec fn parts(&self) -> Seq<Num> { Seq::<Num>::empty().push(Num(self.val)) }
//@ fn hash
//@ start
        proof { nothing_fed(old(state).fed()); }
//@ enditem
} fn main() {}

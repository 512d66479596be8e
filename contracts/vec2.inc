/// the products of coordinates, added up
pub open spec fn along2<P: Is2D, Q: Is2D>(p: P, q: Q) -> f64 { p.at(0).ieee_mul(q.at(0)).ieee_add(p.at(1).ieee_mul(q.at(1))) }
/// the cross product: positive if q lies counter-clockwise of p
pub open spec fn minor2<P: Is2D, Q: Is2D>(p: P, q: Q) -> f64 { p.at(0).ieee_mul(q.at(1)).ieee_sub(p.at(1).ieee_mul(q.at(0))) }
/// the length of a vector
pub open spec fn len2<P: Is2D>(p: P) -> f64 { f_sqrt(sq(p.at(0)).ieee_add(sq(p.at(1)))) }
//@ file src/is_2d.rs
//@ trait Is2D
//@ header pub trait Products2: Is2D
//@ fn dot default
//@ sigreplace `(&self, other: &dyn Is2D)` => `<Q: Is2D>(&self, other: &Q)` ; generic instead of dyn
//@ ret r
//@ spec
        ensures r == along2(*self, *other),
//@ fn cross default
//@ sigreplace `(&self, other: &dyn Is2D)` => `<Q: Is2D>(&self, other: &Q)` ; generic instead of dyn
//@ ret r
//@ spec
        ensures r == minor2(*self, *other),
//@ fn abs default
//@ ret r
//@ spec
        requires nneg(len2(*self)),
        ensures r.val == len2(*self),
//@ enditem
impl<T: Is2D> Products2 for T {}
//@ file src/norm_2d.rs
//@ struct Norm2D
//@ enditem
//@ impl IsND for Norm2D
//@ ghost
    open spec fn nd() -> nat { 2 }
    open spec fn at(&self, i: int) -> f64 { if i == 0 { self.x } else { self.y } }
    open spec fn rest(&self) -> Seq<f64> { Seq::empty() }
//@ fn n_dimensions
//@ fn position_nd
//@ enditem
//@ impl Is2D for Norm2D
//@ fn x
//@ fn y
//@ enditem
pub open spec fn unit2<N: Is2D>(n: N, d: int, s: f64) -> bool { forall|i: int| 0 <= i < 2 ==> #[trigger] n.at(i) == (if i == d { s } else { 0.0f64 }) }
/// n is p, divided by its length
pub open spec fn normed2<N: Is2D, P: Is2D>(n: N, p: P) -> bool { forall|i: int| 0 <= i < 2 ==> #[trigger] n.at(i) == 1.0f64.ieee_div(len2(p)).ieee_mul(p.at(i)) }
pub proof fn unit2_facts(s: f64)
    requires s == 1.0f64 || s == 1.0f64.ieee_neg()
    ensures sq(s).ieee_add(sq(0.0f64)) == 1.0f64, sq(0.0f64).ieee_add(sq(s)) == 1.0f64,
        f_sqrt(1.0f64) == 1.0f64, nneg(1.0f64), !1.0f64.ieee_eq(0.0f64), 1.0f64.ieee_div(1.0f64).ieee_mul(s) == s, 1.0f64.ieee_div(1.0f64).ieee_mul(0.0f64) == 0.0f64,
{
    unit_facts(s);
    assert(s == 1.0f64 || s == 1.0f64.ieee_neg() ==> s.ieee_mul(s) == 1.0f64) by(bit_vector);
    assert(0.0f64.ieee_mul(0.0f64) == 0.0f64 && 1.0f64.ieee_add(0.0f64) == 1.0f64 && 0.0f64.ieee_add(1.0f64) == 1.0f64) by(bit_vector);
}
//@ file src/is_normalized_2d.rs
//@ trait IsNormalized2D
//@ header pub trait IsNormalized2D: Sized + Is2D
//@ negate
//@ fn new
//@ ret r
//@ spec
        requires nneg(len2(p)),
        ensures match r { Ok(n) => !len2(p).ieee_eq(0.0f64) && normed2(n, p), Err(_) => len2(p).ieee_eq(0.0f64) },
//@ fn norm_x default
//@ ret r
//@ spec
        ensures unit2(r, 0, 1.0f64),
//@ start
        proof { unit2_facts(1.0f64); }
//@ fn norm_y default
//@ ret r
//@ spec
        ensures unit2(r, 1, 1.0f64),
//@ start
        proof { unit2_facts(1.0f64); }
//@ fn norm_x_neg default
//@ ret r
//@ spec
        ensures unit2(r, 0, 1.0f64.ieee_neg()),
//@ start
        proof { unit2_facts(1.0f64.ieee_neg()); }
//@ fn norm_y_neg default
//@ ret r
//@ spec
        ensures unit2(r, 1, 1.0f64.ieee_neg()),
//@ start
        proof { unit2_facts(1.0f64.ieee_neg()); }
//@ enditem
//@ file src/norm_2d.rs
//@ impl IsNormalized2D for Norm2D
//@ fn new
//@ start
        proof { let f = 1.0f64.ieee_div(len2(p)); fl::at(1.0f64, len2(p)); fl::at(f, p.at(0)); fl::at(f, p.at(1)); }
//@ enditem

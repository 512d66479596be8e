/// the products of coordinates, added up
pub open spec fn along<P: Is3D, Q: Is3D>(p: P, q: Q) -> f64 { p.at(0).ieee_mul(q.at(0)).ieee_add(p.at(1).ieee_mul(q.at(1))).ieee_add(p.at(2).ieee_mul(q.at(2))) }
/// the length of a vector
pub open spec fn len3<P: Is3D>(p: P) -> f64 { f_sqrt(sq(p.at(0)).ieee_add(sq(p.at(1))).ieee_add(sq(p.at(2)))) }
/// the square root of one (assumed: IEEE)
pub axiom fn sqrt_one() ensures f_sqrt(1.0f64) == 1.0f64;
//@ file src/is_3d.rs
//@ trait Is3D
//@ header pub trait Products3: Is3D
//@ fn dot default
//@ sigreplace `(&self, other: &dyn Is3D)` => `<Q: Is3D>(&self, other: &Q)` ; generic instead of dyn
//@ ret r
//@ spec
        ensures r == along(*self, *other),
//@ fn abs default
//@ ret r
//@ spec
        requires nneg(len3(*self)),
        ensures r.val == len3(*self),
//@ enditem
impl<T: Is3D> Products3 for T {}
//@ file src/functions.rs
//@ freefn conn
//@ ret r
//@ spec
        ensures r.at(0) == p_to.at(0).ieee_sub(p_from.at(0)), r.at(1) == p_to.at(1).ieee_sub(p_from.at(1)), r.at(2) == p_to.at(2).ieee_sub(p_from.at(2)),
//@ enditem
/// the coordinate of the cross product which leaves the dimension i out
pub open spec fn minor<P: Is3D, Q: Is3D>(p: P, q: Q, i: int, j: int) -> f64 { p.at(i).ieee_mul(q.at(j)).ieee_sub(p.at(j).ieee_mul(q.at(i))) }
//@ freefn cross
//@ ret r
//@ spec
        ensures r.at(0) == minor(*first, *other, 1, 2), r.at(1) == minor(*first, *other, 2, 0), r.at(2) == minor(*first, *other, 0, 1),
//@ enditem
/// the unit vector of a dimension, times s
pub open spec fn unit_by<N: Is3D>(n: N, d: int, s: f64) -> bool { forall|i: int| 0 <= i < 3 ==> #[trigger] n.at(i) == (if i == d { s } else { 0.0f64 }) }
pub open spec fn unit<N: Is3D>(n: N, d: int) -> bool { unit_by(n, d, 1.0f64) }
/// n is p, divided by its length
pub open spec fn normed<N: Is3D, P: Is3D>(n: N, p: P) -> bool { forall|i: int| 0 <= i < 3 ==> #[trigger] n.at(i) == 1.0f64.ieee_div(len3(p)).ieee_mul(p.at(i)) }
pub proof fn unit_facts(s: f64)
    requires s == 1.0f64 || s == 1.0f64.ieee_neg()
    ensures sq(s).ieee_add(sq(0.0f64)).ieee_add(sq(0.0f64)) == 1.0f64, sq(0.0f64).ieee_add(sq(s)).ieee_add(sq(0.0f64)) == 1.0f64, sq(0.0f64).ieee_add(sq(0.0f64)).ieee_add(sq(s)) == 1.0f64,
        f_sqrt(1.0f64) == 1.0f64, nneg(1.0f64), !1.0f64.ieee_eq(0.0f64), 1.0f64.ieee_div(1.0f64).ieee_mul(s) == s, 1.0f64.ieee_div(1.0f64).ieee_mul(0.0f64) == 0.0f64,
{
    sqrt_one();
    assert(0.0f64.ieee_le(1.0f64) && !1.0f64.ieee_eq(0.0f64) && 1.0f64.ieee_div(1.0f64) == 1.0f64 && 1.0f64.ieee_mul(0.0f64) == 0.0f64) by(bit_vector);
    assert(s == 1.0f64 || s == 1.0f64.ieee_neg() ==> s.ieee_mul(s) == 1.0f64 && 1.0f64.ieee_mul(s) == s) by(bit_vector);
    assert(0.0f64.ieee_mul(0.0f64) == 0.0f64 && 1.0f64.ieee_add(0.0f64) == 1.0f64 && 0.0f64.ieee_add(1.0f64) == 1.0f64 && 0.0f64.ieee_add(0.0f64) == 0.0f64) by(bit_vector);
}
/// `-x` (assumed: Rust's operator is the IEEE operation)
#[verifier::external_body]
pub fn negate(x: f64) -> (r: f64) ensures r == x.ieee_neg() { -x }
//@ file src/is_normalized_3d.rs
//@ trait IsNormalized3D
//@ header pub trait IsNormalized3D: Sized + Is3D
//@ negate
//@ fn new
//@ ret r
//@ spec
        requires nneg(len3(p)),
        ensures match r { Ok(n) => !len3(p).ieee_eq(0.0f64) && normed(n, p), Err(_) => len3(p).ieee_eq(0.0f64) },
//@ fn norm_x default
//@ ret r
//@ spec
        ensures unit(r, 0),
//@ start
        proof { unit_facts(1.0f64); }
//@ fn norm_y default
//@ ret r
//@ spec
        ensures unit(r, 1),
//@ start
        proof { unit_facts(1.0f64); }
//@ fn norm_z default
//@ ret r
//@ spec
        ensures unit(r, 2),
//@ start
        proof { unit_facts(1.0f64); }
//@ fn norm_x_neg default
//@ ret r
//@ spec
        ensures unit_by(r, 0, 1.0f64.ieee_neg()),
//@ start
        proof { unit_facts(1.0f64.ieee_neg()); }
//@ fn norm_y_neg default
//@ ret r
//@ spec
        ensures unit_by(r, 1, 1.0f64.ieee_neg()),
//@ start
        proof { unit_facts(1.0f64.ieee_neg()); }
//@ fn norm_z_neg default
//@ ret r
//@ spec
        ensures unit_by(r, 2, 1.0f64.ieee_neg()),
//@ start
        proof { unit_facts(1.0f64.ieee_neg()); }
//@ enditem
//@ file src/norm_3d.rs
//@ impl IsNormalized3D for Norm3D
//@ fn new
//@ start
        proof { let f = 1.0f64.ieee_div(len3(p)); fl::at(1.0f64, len3(p)); fl::at(f, p.at(0)); fl::at(f, p.at(1)); fl::at(f, p.at(2)); }
//@ enditem
/// `r.unwrap_or(d)` (assumed: std)
#[verifier::external_body]
pub fn unwrap_or<T>(r: Result<T>, d: T) -> (x: T) ensures x == (match r { Ok(y) => y, Err(_) => d }) { unimplemented!() }
/// n points along p, or upwards if p has no length
pub open spec fn heads<P: Is3D>(n: Norm3D, p: P) -> bool { if len3(p).ieee_eq(0.0f64) { unit(n, 2) } else { normed(n, p) } }

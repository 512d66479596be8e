pub open spec fn sq(x: f64) -> f64 { x.ieee_mul(x) }
pub uninterp spec fn f_powi(x: f64, n: i32) -> f64;
/// the square is the product (assumed: std)
pub assume_specification [f64::powi](x: f64, n: i32) -> (r: f64) ensures r == f_powi(x, n), n == 2 ==> r == sq(x);
//@ file src/distances_3d.rs
//@ freefn dist_3d
//@ ret r
//@ spec
    ensures r == f_sqrt(sqr_dist3(p, q)),
//@ enditem
//@ freefn sqr_dist_3d
//@ ret r
//@ spec
    ensures r == sqr_dist3(p, q),
//@ enditem
/// the sum of the squared coordinate differences
pub open spec fn sqr_dist3<P: Is3D, Q: Is3D>(p: &P, q: &Q) -> f64 { sq(p.at(0).ieee_sub(q.at(0))).ieee_add(sq(p.at(1).ieee_sub(q.at(1)))).ieee_add(sq(p.at(2).ieee_sub(q.at(2)))) }

// IEEE-754 binary64: Verus gives the exec float operators no meaning of their own; these axioms
// (assumed: Rust's operators are the IEEE operations and never trap) tie them to the ieee_* terms,
// whose bit-level meaning the bit_vector back end knows
pub mod fl {
    use vstd::prelude::*;
    use vstd::float::*;
    use vstd::std_specs::ops::*;
    use vstd::std_specs::cmp::*;
    pub broadcast axiom fn ax_add(x: f64, y: f64) ensures #[trigger] x.add_req(y);
    pub broadcast axiom fn ax_sub(x: f64, y: f64) ensures #[trigger] x.sub_req(y);
    pub broadcast axiom fn ax_mul(x: f64, y: f64) ensures #[trigger] x.mul_req(y);
    pub broadcast axiom fn ax_div(x: f64, y: f64) ensures #[trigger] x.div_req(y);
    pub broadcast axiom fn ax_add_e(x: f64, y: f64, r: f64) requires #[trigger] add_ensures(x, y, r) ensures r == x.ieee_add(y);
    pub broadcast axiom fn ax_sub_e(x: f64, y: f64, r: f64) requires #[trigger] sub_ensures(x, y, r) ensures r == x.ieee_sub(y);
    pub broadcast axiom fn ax_mul_e(x: f64, y: f64, r: f64) requires #[trigger] mul_ensures(x, y, r) ensures r == x.ieee_mul(y);
    pub broadcast axiom fn ax_div_e(x: f64, y: f64, r: f64) requires #[trigger] div_ensures(x, y, r) ensures r == x.ieee_div(y);
    pub broadcast axiom fn ax_lt_e(x: f64, y: f64, r: bool) requires #[trigger] lt_ensures(x, y, r) ensures r == x.ieee_lt(y);
    pub broadcast axiom fn ax_le_e(x: f64, y: f64, r: bool) requires #[trigger] le_ensures(x, y, r) ensures r == x.ieee_le(y);
    pub broadcast axiom fn ax_gt_e(x: f64, y: f64, r: bool) requires #[trigger] gt_ensures(x, y, r) ensures r == y.ieee_lt(x);
    pub broadcast axiom fn ax_ge_e(x: f64, y: f64, r: bool) requires #[trigger] ge_ensures(x, y, r) ensures r == y.ieee_le(x);
    pub broadcast axiom fn ax_eq_e(x: f64, y: f64, r: bool) requires #[trigger] eq_ensures(x, y, r) ensures r == x.ieee_eq(y);
    pub broadcast axiom fn ax_ne_e(x: f64, y: f64, r: bool) requires #[trigger] ne_ensures(x, y, r) ensures r == !x.ieee_eq(y);
    /// IEEE addition and multiplication are commutative (the payload of a NaN result aside)
    pub broadcast axiom fn ax_add_comm(x: f64, y: f64) ensures #[trigger] x.ieee_add(y) == y.ieee_add(x);
    pub broadcast axiom fn ax_mul_comm(x: f64, y: f64) ensures #[trigger] x.ieee_mul(y) == y.ieee_mul(x);
    /// the axioms at one pair of operands, for bodies in which Verus does not instantiate the group (operator impls)
    pub proof fn at(x: f64, y: f64)
        ensures
            x.ieee_add(y) == y.ieee_add(x), x.ieee_mul(y) == y.ieee_mul(x),
            x.add_req(y), x.sub_req(y), x.mul_req(y), x.div_req(y),
            forall|r: f64| #[trigger] add_ensures(x, y, r) ==> r == x.ieee_add(y),
            forall|r: f64| #[trigger] sub_ensures(x, y, r) ==> r == x.ieee_sub(y),
            forall|r: f64| #[trigger] mul_ensures(x, y, r) ==> r == x.ieee_mul(y),
            forall|r: f64| #[trigger] div_ensures(x, y, r) ==> r == x.ieee_div(y),
    { broadcast use ax; ax_add_comm(x, y); ax_mul_comm(x, y); }
    pub broadcast group ax { ax_add_comm, ax_mul_comm, ax_add, ax_sub, ax_mul, ax_div, ax_add_e, ax_sub_e, ax_mul_e, ax_div_e, ax_lt_e, ax_le_e, ax_gt_e, ax_ge_e, ax_eq_e, ax_ne_e }
}
use vstd::float::*;

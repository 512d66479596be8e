// the same for binary32, and the conversions between the two
pub mod fl32 {
    use vstd::prelude::*;
    use vstd::float::*;
    use vstd::std_specs::ops::*;
    use vstd::std_specs::cmp::*;
    pub broadcast axiom fn ax_add(x: f32, y: f32) ensures #[trigger] x.add_req(y);
    pub broadcast axiom fn ax_add_e(x: f32, y: f32, r: f32) requires #[trigger] add_ensures(x, y, r) ensures r == x.ieee_add(y);
    pub broadcast axiom fn ax_lt_e(x: f32, y: f32, r: bool) requires #[trigger] lt_ensures(x, y, r) ensures r == x.ieee_lt(y);
    pub broadcast axiom fn ax_gt_e(x: f32, y: f32, r: bool) requires #[trigger] gt_ensures(x, y, r) ensures r == y.ieee_lt(x);
    pub broadcast axiom fn ax_up(x: f32, r: f64) requires #[trigger] float_cast_spec(x, r) ensures r == up(x);
    pub broadcast axiom fn ax_down(x: f64, r: f32) requires #[trigger] float_cast_spec(x, r) ensures r == down(x);
    pub open spec fn up(x: f32) -> f64 { ieee_float_cast::<f32, f64>(x) }
    pub open spec fn down(x: f64) -> f32 { ieee_float_cast::<f64, f32>(x) }
    /// widening keeps the order
    pub proof fn up_keeps_order(x: f32, y: f32) ensures x.ieee_lt(y) == up(x).ieee_lt(up(y)) {
        assert(x.ieee_lt(y) == ieee_float_cast::<f32, f64>(x).ieee_lt(ieee_float_cast::<f32, f64>(y))) by(bit_vector);
    }
    pub broadcast group ax { ax_add, ax_add_e, ax_lt_e, ax_gt_e, ax_up, ax_down }
}

// facts about IEEE comparison and subtraction, proved at bit level
pub open spec fn nan(x: f64) -> bool { !x.ieee_eq(x) }
pub proof fn diff_pos(x: f64, y: f64) requires x.ieee_lt(y) ensures 0.0f64.ieee_lt(y.ieee_sub(x)), x.ieee_sub(y).ieee_lt(0.0f64) {
    assert(x.ieee_lt(y) ==> 0.0f64.ieee_lt(y.ieee_sub(x)) && x.ieee_sub(y).ieee_lt(0.0f64)) by(bit_vector);
}
pub proof fn tri(x: f64, y: f64) requires !nan(x), !nan(y) ensures x.ieee_lt(y) || x.ieee_eq(y) || y.ieee_lt(x), x.ieee_le(y) == (x.ieee_lt(y) || x.ieee_eq(y)), x.ieee_le(y) == !y.ieee_lt(x) {
    assert(x.ieee_eq(x) && y.ieee_eq(y) ==> (x.ieee_lt(y) || x.ieee_eq(y) || y.ieee_lt(x)) && x.ieee_le(y) == (x.ieee_lt(y) || x.ieee_eq(y)) && x.ieee_le(y) == !y.ieee_lt(x)) by(bit_vector);
}
pub proof fn le_trans(x: f64, y: f64, z: f64) requires x.ieee_le(y), y.ieee_le(z) ensures x.ieee_le(z) {
    assert(x.ieee_le(y) && y.ieee_le(z) ==> x.ieee_le(z)) by(bit_vector);
}
pub proof fn lt_le_trans(x: f64, y: f64, z: f64) ensures x.ieee_lt(y) && y.ieee_le(z) ==> x.ieee_lt(z), x.ieee_le(y) && y.ieee_lt(z) ==> x.ieee_lt(z) {
    assert(x.ieee_lt(y) && y.ieee_le(z) ==> x.ieee_lt(z)) by(bit_vector);
    assert(x.ieee_le(y) && y.ieee_lt(z) ==> x.ieee_lt(z)) by(bit_vector);
}
pub proof fn lt_facts(x: f64, y: f64) requires x.ieee_lt(y) ensures !nan(x), !nan(y), !y.ieee_lt(x), !x.ieee_eq(y), !y.ieee_eq(x), x.ieee_le(y), !y.ieee_le(x) {
    assert(x.ieee_lt(y) ==> x.ieee_eq(x) && y.ieee_eq(y) && !y.ieee_lt(x) && !x.ieee_eq(y) && !y.ieee_eq(x) && x.ieee_le(y) && !y.ieee_le(x)) by(bit_vector);
}

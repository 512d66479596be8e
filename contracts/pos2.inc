//@ file src/is_2d.rs
//@ trait Is2D
//@ fn x
//@ ret r
//@ spec
        ensures r == self.at(0),
//@ fn y
//@ ret r
//@ spec
        ensures r == self.at(1),
//@ fn xy default
//@ ret r
//@ spec
        ensures r@[0] == self.at(0), r@[1] == self.at(1),
//@ enditem
//@ file src/is_buildable_2d.rs
//@ trait IsBuildable2D
//@ header pub trait IsBuildable2D: Is2D + IsBuildableND
//@ fn new
//@ ret r
//@ spec
        ensures r.at(0) == x, r.at(1) == y,
//@ fn from
//@ spec
        ensures final(self).at(0) == other.at(0), final(self).at(1) == other.at(1), final(self).rest() == old(self).rest(),
//@ fn new_from default
//@ ret r
//@ spec
        ensures r.at(0) == other.at(0), r.at(1) == other.at(1),
//@ fn zero default
//@ ret r
//@ spec
        ensures r.at(0) == 0.0f64, r.at(1) == 0.0f64,
//@ fn center default
//@ ret r
//@ spec
        ensures r.at(0) == 0.5f64.ieee_mul(self.at(0).ieee_add(other.at(0))), r.at(1) == 0.5f64.ieee_mul(self.at(1).ieee_add(other.at(1))),
//@ enditem
//@ file src/is_editable_2d.rs
//@ trait IsEditable2D
//@ fn set_x
//@ spec
        ensures final(self).at(0) == val, final(self).at(1) == old(self).at(1), final(self).rest() == old(self).rest(),
//@ fn set_y
//@ spec
        ensures final(self).at(0) == old(self).at(0), final(self).at(1) == val, final(self).rest() == old(self).rest(),
//@ fn set_xy default
//@ spec
        ensures final(self).at(0) == x, final(self).at(1) == y, final(self).rest() == old(self).rest(),
//@ fn add default
//@ spec
        ensures final(self).at(0) == old(self).at(0).ieee_add(other.at(0)), final(self).at(1) == old(self).at(1).ieee_add(other.at(1)), final(self).rest() == old(self).rest(),
//@ fn subtract default
//@ spec
        ensures final(self).at(0) == old(self).at(0).ieee_sub(other.at(0)), final(self).at(1) == old(self).at(1).ieee_sub(other.at(1)), final(self).rest() == old(self).rest(),
//@ fn scale_pos default
//@ spec
        ensures final(self).at(0) == val.ieee_mul(old(self).at(0)), final(self).at(1) == val.ieee_mul(old(self).at(1)), final(self).rest() == old(self).rest(),
//@ fn increase_distance_to_by default
//@ spec
        ensures final(self).at(0) == other.at(0).ieee_add(factor.val.ieee_mul(old(self).at(0).ieee_sub(other.at(0)))), final(self).at(1) == other.at(1).ieee_add(factor.val.ieee_mul(old(self).at(1).ieee_sub(other.at(1)))), final(self).rest() == old(self).rest(),
//@ enditem
//@ file src/is_movable_2d.rs
//@ trait IsMovable2D
//@ header pub trait IsMovable2D: Sized
//@ ghost
    spec fn moved2(a: &Self, b: &Self, x: f64, y: f64) -> bool;
//@ fn move_by
//@ spec
        ensures Self::moved2(old(self), final(self), x, y),
//@ enditem

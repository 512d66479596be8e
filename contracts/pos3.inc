//@ file src/is_3d.rs
//@ trait Is3D
//@ fn x
//@ ret r
//@ spec
        ensures r == self.at(0),
//@ fn y
//@ ret r
//@ spec
        ensures r == self.at(1),
//@ fn z
//@ ret r
//@ spec
        ensures r == self.at(2),
//@ fn xyz default
//@ ret r
//@ spec
        ensures r@[0] == self.at(0), r@[1] == self.at(1), r@[2] == self.at(2),
//@ fn xy default
//@ ret r
//@ spec
        ensures r@[0] == self.at(0), r@[1] == self.at(1),
//@ fn xz default
//@ ret r
//@ spec
        ensures r@[0] == self.at(0), r@[1] == self.at(2),
//@ fn yz default
//@ ret r
//@ spec
        ensures r@[0] == self.at(1), r@[1] == self.at(2),
//@ enditem
//@ file src/is_buildable_3d.rs
//@ trait IsBuildable3D
//@ header pub trait IsBuildable3D: Is3D + IsBuildableND
//@ fn new
//@ ret r
//@ spec
        ensures r.at(0) == x, r.at(1) == y, r.at(2) == z,
//@ fn from
//@ spec
        ensures final(self).at(0) == other.at(0), final(self).at(1) == other.at(1), final(self).at(2) == other.at(2), final(self).rest() == old(self).rest(),
//@ fn new_from default
//@ ret r
//@ spec
        ensures r.at(0) == other.at(0), r.at(1) == other.at(1), r.at(2) == other.at(2),
//@ fn zero default
//@ ret r
//@ spec
        ensures r.at(0) == 0.0f64, r.at(1) == 0.0f64, r.at(2) == 0.0f64,
//@ fn center default
//@ ret r
//@ spec
        ensures r.at(0) == 0.5f64.ieee_mul(self.at(0).ieee_add(other.at(0))), r.at(1) == 0.5f64.ieee_mul(self.at(1).ieee_add(other.at(1))), r.at(2) == 0.5f64.ieee_mul(self.at(2).ieee_add(other.at(2))),
//@ enditem
//@ file src/is_editable_3d.rs
//@ trait IsEditable3D
//@ fn set_x
//@ spec
        ensures final(self).at(0) == val, final(self).at(1) == old(self).at(1), final(self).at(2) == old(self).at(2), final(self).rest() == old(self).rest(),
//@ fn set_y
//@ spec
        ensures final(self).at(0) == old(self).at(0), final(self).at(1) == val, final(self).at(2) == old(self).at(2), final(self).rest() == old(self).rest(),
//@ fn set_z
//@ spec
        ensures final(self).at(0) == old(self).at(0), final(self).at(1) == old(self).at(1), final(self).at(2) == val, final(self).rest() == old(self).rest(),
//@ fn set_xyz default
//@ spec
        ensures final(self).at(0) == x, final(self).at(1) == y, final(self).at(2) == z, final(self).rest() == old(self).rest(),
//@ fn set_xy default
//@ spec
        ensures final(self).at(0) == x, final(self).at(1) == y, final(self).at(2) == old(self).at(2), final(self).rest() == old(self).rest(),
//@ fn set_xz default
//@ spec
        ensures final(self).at(0) == x, final(self).at(1) == old(self).at(1), final(self).at(2) == z, final(self).rest() == old(self).rest(),
//@ fn set_yz default
//@ spec
        ensures final(self).at(0) == old(self).at(0), final(self).at(1) == y, final(self).at(2) == z, final(self).rest() == old(self).rest(),
//@ fn add default
//@ spec
        ensures final(self).at(0) == old(self).at(0).ieee_add(other.at(0)), final(self).at(1) == old(self).at(1).ieee_add(other.at(1)), final(self).at(2) == old(self).at(2).ieee_add(other.at(2)), final(self).rest() == old(self).rest(),
//@ fn subtract default
//@ spec
        ensures final(self).at(0) == old(self).at(0).ieee_sub(other.at(0)), final(self).at(1) == old(self).at(1).ieee_sub(other.at(1)), final(self).at(2) == old(self).at(2).ieee_sub(other.at(2)), final(self).rest() == old(self).rest(),
//@ fn scale_pos default
//@ spec
        ensures final(self).at(0) == val.ieee_mul(old(self).at(0)), final(self).at(1) == val.ieee_mul(old(self).at(1)), final(self).at(2) == val.ieee_mul(old(self).at(2)), final(self).rest() == old(self).rest(),
//@ fn increase_distance_to_by default
//@ spec
        ensures final(self).at(0) == other.at(0).ieee_add(factor.val.ieee_mul(old(self).at(0).ieee_sub(other.at(0)))), final(self).at(1) == other.at(1).ieee_add(factor.val.ieee_mul(old(self).at(1).ieee_sub(other.at(1)))), final(self).at(2) == other.at(2).ieee_add(factor.val.ieee_mul(old(self).at(2).ieee_sub(other.at(2)))), final(self).rest() == old(self).rest(),
//@ enditem
//@ file src/is_movable_3d.rs
//@ trait IsMovable3D
//@ header pub trait IsMovable3D: Sized
//@ ghost
    spec fn moved3(a: &Self, b: &Self, x: f64, y: f64, z: f64) -> bool;
//@ fn move_by
//@ spec
        ensures Self::moved3(old(self), final(self), x, y, z),
//@ enditem

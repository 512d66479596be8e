/// ghost only: the coordinates of a position
pub trait Coords { spec fn at(&self, i: int) -> f64; }
//@ file src/is_buildable_2d.rs
//@ trait IsBuildable2D
//@ header pub trait IsBuildable2D: Coords + Sized
//@ fn new
//@ ret r
//@ spec
        ensures r.at(0) == x, r.at(1) == y,
//@ enditem
//@ file src/is_buildable_3d.rs
//@ trait IsBuildable3D
//@ header pub trait IsBuildable3D: Coords + Sized
//@ fn new
//@ ret r
//@ spec
        ensures r.at(0) == x, r.at(1) == y, r.at(2) == z,
//@ enditem

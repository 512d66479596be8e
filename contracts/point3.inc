//@ file src/point_3d.rs
//@ struct Point3D
//@ enditem
impl Clone for Point3D { fn clone(&self) -> (r: Self) ensures r == *self { Point3D { x: self.x, y: self.y, z: self.z } } }
//@ impl Point3D
//@ fn new
//@ ret r
//@ spec
        ensures r.x == x, r.y == y, r.z == z,
//@ enditem
//@ impl IsND for Point3D
//@ ghost
    open spec fn nd() -> nat { 3 }
    open spec fn at(&self, i: int) -> f64 { if i == 0 { self.x } else if i == 1 { self.y } else { self.z } }
    open spec fn rest(&self) -> Seq<f64> { Seq::empty() }
//@ fn n_dimensions
//@ fn position_nd
//@ enditem
//@ impl Is3D for Point3D
//@ fn x
//@ fn y
//@ fn z
//@ enditem
//@ impl IsBuildableND for Point3D
//@ fn new_nd
//@ fn from_nd
//@ sigreplace `IsBuildableND` => `IsND` ; the bound refers to the trait being declared, which Verus rejects; a weaker bound proves more
//@ enditem
//@ impl IsBuildable3D for Point3D
//@ fn new
//@ fn from
//@ enditem
//@ impl IsEditableND for Point3D
//@ fn set_position
//@ enditem
//@ impl IsEditable3D for Point3D
//@ fn set_x
//@ fn set_y
//@ fn set_z
//@ enditem

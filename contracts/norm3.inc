//@ file src/norm_3d.rs
//@ struct Norm3D
//@ enditem
//@ impl IsND for Norm3D
//@ ghost
    open spec fn nd() -> nat { 3 }
    open spec fn at(&self, i: int) -> f64 { if i == 0 { self.x } else if i == 1 { self.y } else { self.z } }
    open spec fn rest(&self) -> Seq<f64> { Seq::empty() }
//@ fn n_dimensions
//@ fn position_nd
//@ enditem
//@ impl Is3D for Norm3D
//@ fn x
//@ fn y
//@ fn z
//@ enditem

//@ file src/point_2d.rs
//@ struct Point2D
//@ enditem
impl Clone for Point2D { fn clone(&self) -> (r: Self) ensures r == *self { Point2D { x: self.x, y: self.y } } }
//@ impl Point2D
//@ fn new
//@ ret r
//@ spec
        ensures r.x == x, r.y == y,
//@ enditem
//@ impl IsND for Point2D
//@ ghost
    open spec fn nd() -> nat { 2 }
    open spec fn at(&self, i: int) -> f64 { if i == 0 { self.x } else { self.y } }
    open spec fn rest(&self) -> Seq<f64> { Seq::empty() }
//@ fn n_dimensions
//@ fn position_nd
//@ enditem
//@ impl Is2D for Point2D
//@ fn x
//@ fn y
//@ enditem
//@ impl IsBuildableND for Point2D
//@ fn new_nd
//@ fn from_nd
//@ sigreplace `IsBuildableND` => `IsND` ; the bound refers to the trait being declared, which Verus rejects; a weaker bound proves more
//@ enditem
//@ impl IsBuildable2D for Point2D
//@ fn new
//@ fn from
//@ enditem
//@ impl IsEditableND for Point2D
//@ fn set_position
//@ enditem
//@ impl IsEditable2D for Point2D
//@ fn set_x
//@ fn set_y
//@ enditem

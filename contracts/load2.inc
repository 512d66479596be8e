/// coordinates of a point
pub struct V2 { pub x: f64, pub y: f64 }
impl<P: Coords> Described<P> for V2 { open spec fn is(self, p: P) -> bool { p.at(0) == self.x && p.at(1) == self.y } }
pub open spec fn v2<P: Coords>(p: P, v: V2) -> bool { v.is(p) }

/// coordinates of a point
pub struct V3 { pub x: f64, pub y: f64, pub z: f64 }
impl<P: Coords> Described<P> for V3 { open spec fn is(self, p: P) -> bool { p.at(0) == self.x && p.at(1) == self.y && p.at(2) == self.z } }
pub open spec fn v3<P: Coords>(p: P, v: V3) -> bool { v.is(p) }

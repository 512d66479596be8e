// the remaining operators on positions in 3D (see ops3.inc)
//@ file src/point_3d.rs
impl vstd::std_specs::ops::DivSpecImpl<f64> for Point3D {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, other: f64) -> bool { true }
    open spec fn div_spec(self, other: f64) -> Point3D { arbitrary() }
}
//@ impl Div<f64> for Point3D
//@ type Output
//@ fn div
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_div(other), r.y == self.y.ieee_div(other), r.z == self.z.ieee_div(other),
//@ start
        proof { fl::at(self.x, other); fl::at(other, self.x); fl::at(self.y, other); fl::at(other, self.y); fl::at(self.z, other); fl::at(other, self.z); }
//@ enditem
impl<'a> vstd::std_specs::ops::DivSpecImpl<f64> for &'a Point3D {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, other: f64) -> bool { true }
    open spec fn div_spec(self, other: f64) -> Point3D { arbitrary() }
}
//@ impl Div<f64> for &Point3D
//@ type Output
//@ fn div
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_div(other), r.y == self.y.ieee_div(other), r.z == self.z.ieee_div(other),
//@ start
        proof { fl::at(self.x, other); fl::at(other, self.x); fl::at(self.y, other); fl::at(other, self.y); fl::at(self.z, other); fl::at(other, self.z); }
//@ enditem
impl vstd::std_specs::ops::NegSpecImpl for Point3D {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Point3D { arbitrary() }
}
//@ impl Neg for Point3D
//@ negate
//@ type Output
//@ fn neg
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_neg(), r.y == self.y.ieee_neg(), r.z == self.z.ieee_neg(),
//@ enditem
impl<'a> vstd::std_specs::ops::NegSpecImpl for &'a Point3D {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Point3D { arbitrary() }
}
//@ impl Neg for &Point3D
//@ negate
//@ type Output
//@ fn neg
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_neg(), r.y == self.y.ieee_neg(), r.z == self.z.ieee_neg(),
//@ enditem
//@ file src/norm_3d.rs
impl vstd::std_specs::ops::NegSpecImpl for Norm3D {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Norm3D { arbitrary() }
}
//@ impl Neg for Norm3D
//@ negate
//@ type Output
//@ fn neg
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_neg(), r.y == self.y.ieee_neg(), r.z == self.z.ieee_neg(),
//@ enditem
impl<'a> vstd::std_specs::ops::NegSpecImpl for &'a Norm3D {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Norm3D { arbitrary() }
}
//@ impl Neg for &Norm3D
//@ negate
//@ type Output
//@ fn neg
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_neg(), r.y == self.y.ieee_neg(), r.z == self.z.ieee_neg(),
//@ enditem

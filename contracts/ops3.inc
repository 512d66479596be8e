// the operators on positions: every coordinate by itself
//@ file src/point_3d.rs
impl<P: Is3D> vstd::std_specs::ops::AddSpecImpl<P> for Point3D {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, other: P) -> bool { true }
    open spec fn add_spec(self, other: P) -> Point3D { arbitrary() }
}
//@ impl Add<P> for Point3D
//@ type Output
//@ fn add
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_add(other.at(0)), r.y == self.y.ieee_add(other.at(1)), r.z == self.z.ieee_add(other.at(2)),
//@ start
        proof { fl::at(self.x, other.at(0)); fl::at(self.y, other.at(1)); fl::at(self.z, other.at(2)); }
//@ enditem
impl<'a, P: Is3D> vstd::std_specs::ops::AddSpecImpl<&'a P> for &'a Point3D {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, other: &'a P) -> bool { true }
    open spec fn add_spec(self, other: &'a P) -> Point3D { arbitrary() }
}
//@ impl Add<&P> for &Point3D
//@ type Output
//@ fn add
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_add(other.at(0)), r.y == self.y.ieee_add(other.at(1)), r.z == self.z.ieee_add(other.at(2)),
//@ start
        proof { fl::at(self.x, other.at(0)); fl::at(self.y, other.at(1)); fl::at(self.z, other.at(2)); }
//@ enditem
impl<'a> vstd::std_specs::ops::AddSpecImpl<Point3D> for &'a Point3D {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, other: Point3D) -> bool { true }
    open spec fn add_spec(self, other: Point3D) -> Point3D { arbitrary() }
}
//@ impl Add<Point3D> for &Point3D
//@ type Output
//@ fn add
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_add(other.at(0)), r.y == self.y.ieee_add(other.at(1)), r.z == self.z.ieee_add(other.at(2)),
//@ start
        proof { fl::at(self.x, other.at(0)); fl::at(self.y, other.at(1)); fl::at(self.z, other.at(2)); }
//@ enditem
impl<P: Is3D> vstd::std_specs::ops::SubSpecImpl<P> for Point3D {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, other: P) -> bool { true }
    open spec fn sub_spec(self, other: P) -> Point3D { arbitrary() }
}
//@ impl Sub<P> for Point3D
//@ type Output
//@ fn sub
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_sub(other.at(0)), r.y == self.y.ieee_sub(other.at(1)), r.z == self.z.ieee_sub(other.at(2)),
//@ start
        proof { fl::at(self.x, other.at(0)); fl::at(self.y, other.at(1)); fl::at(self.z, other.at(2)); }
//@ enditem
impl<'a, P: Is3D> vstd::std_specs::ops::SubSpecImpl<&'a P> for &'a Point3D {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, other: &'a P) -> bool { true }
    open spec fn sub_spec(self, other: &'a P) -> Point3D { arbitrary() }
}
//@ impl Sub<&P> for &Point3D
//@ type Output
//@ fn sub
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_sub(other.at(0)), r.y == self.y.ieee_sub(other.at(1)), r.z == self.z.ieee_sub(other.at(2)),
//@ start
        proof { fl::at(self.x, other.at(0)); fl::at(self.y, other.at(1)); fl::at(self.z, other.at(2)); }
//@ enditem
impl<'a> vstd::std_specs::ops::SubSpecImpl<Point3D> for &'a Point3D {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, other: Point3D) -> bool { true }
    open spec fn sub_spec(self, other: Point3D) -> Point3D { arbitrary() }
}
//@ impl Sub<Point3D> for &Point3D
//@ type Output
//@ fn sub
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_sub(other.at(0)), r.y == self.y.ieee_sub(other.at(1)), r.z == self.z.ieee_sub(other.at(2)),
//@ start
        proof { fl::at(self.x, other.at(0)); fl::at(self.y, other.at(1)); fl::at(self.z, other.at(2)); }
//@ enditem
impl vstd::std_specs::ops::MulSpecImpl<f64> for Point3D {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: f64) -> bool { true }
    open spec fn mul_spec(self, other: f64) -> Point3D { arbitrary() }
}
//@ impl Mul<f64> for Point3D
//@ type Output
//@ fn mul
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_mul(other), r.y == self.y.ieee_mul(other), r.z == self.z.ieee_mul(other),
//@ start
        proof { fl::at(other, self.x); fl::at(self.x, other); fl::at(other, self.y); fl::at(self.y, other); fl::at(other, self.z); fl::at(self.z, other); }
//@ enditem
impl<'a> vstd::std_specs::ops::MulSpecImpl<f64> for &'a Point3D {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: f64) -> bool { true }
    open spec fn mul_spec(self, other: f64) -> Point3D { arbitrary() }
}
//@ impl Mul<f64> for &Point3D
//@ type Output
//@ fn mul
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_mul(other), r.y == self.y.ieee_mul(other), r.z == self.z.ieee_mul(other),
//@ start
        proof { fl::at(other, self.x); fl::at(self.x, other); fl::at(other, self.y); fl::at(self.y, other); fl::at(other, self.z); fl::at(self.z, other); }
//@ enditem
//@ file src/norm_3d.rs
impl vstd::std_specs::ops::MulSpecImpl<f64> for Norm3D {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: f64) -> bool { true }
    open spec fn mul_spec(self, other: f64) -> Point3D { arbitrary() }
}
//@ impl Mul<f64> for Norm3D
//@ type Output
//@ fn mul
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_mul(other), r.y == self.y.ieee_mul(other), r.z == self.z.ieee_mul(other),
//@ start
        proof { fl::at(other, self.x); fl::at(self.x, other); fl::at(other, self.y); fl::at(self.y, other); fl::at(other, self.z); fl::at(self.z, other); }
//@ enditem
impl<'a> vstd::std_specs::ops::MulSpecImpl<f64> for &'a Norm3D {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: f64) -> bool { true }
    open spec fn mul_spec(self, other: f64) -> Point3D { arbitrary() }
}
//@ impl Mul<f64> for &Norm3D
//@ type Output
//@ fn mul
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_mul(other), r.y == self.y.ieee_mul(other), r.z == self.z.ieee_mul(other),
//@ start
        proof { fl::at(other, self.x); fl::at(self.x, other); fl::at(other, self.y); fl::at(self.y, other); fl::at(other, self.z); fl::at(self.z, other); }
//@ enditem

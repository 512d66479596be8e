// the operators on positions in 2D: every coordinate by itself
//@ file src/point_2d.rs
impl<P: Is2D> vstd::std_specs::ops::AddSpecImpl<P> for Point2D {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, other: P) -> bool { true }
    open spec fn add_spec(self, other: P) -> Point2D { arbitrary() }
}
//@ impl Add<P> for Point2D
//@ type Output
//@ fn add
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_add(other.at(0)), r.y == self.y.ieee_add(other.at(1)),
//@ start
        proof { fl::at(self.x, other.at(0)); fl::at(other.at(0), self.x); fl::at(self.y, other.at(1)); fl::at(other.at(1), self.y); }
//@ enditem
impl<'a, P: Is2D> vstd::std_specs::ops::AddSpecImpl<&'a P> for &'a Point2D {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, other: &'a P) -> bool { true }
    open spec fn add_spec(self, other: &'a P) -> Point2D { arbitrary() }
}
//@ impl Add<&P> for &Point2D
//@ type Output
//@ fn add
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_add(other.at(0)), r.y == self.y.ieee_add(other.at(1)),
//@ start
        proof { fl::at(self.x, other.at(0)); fl::at(other.at(0), self.x); fl::at(self.y, other.at(1)); fl::at(other.at(1), self.y); }
//@ enditem
impl<'a> vstd::std_specs::ops::AddSpecImpl<Point2D> for &'a Point2D {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, other: Point2D) -> bool { true }
    open spec fn add_spec(self, other: Point2D) -> Point2D { arbitrary() }
}
//@ impl Add<Point2D> for &Point2D
//@ type Output
//@ fn add
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_add(other.at(0)), r.y == self.y.ieee_add(other.at(1)),
//@ start
        proof { fl::at(self.x, other.at(0)); fl::at(other.at(0), self.x); fl::at(self.y, other.at(1)); fl::at(other.at(1), self.y); }
//@ enditem
impl<P: Is2D> vstd::std_specs::ops::SubSpecImpl<P> for Point2D {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, other: P) -> bool { true }
    open spec fn sub_spec(self, other: P) -> Point2D { arbitrary() }
}
//@ impl Sub<P> for Point2D
//@ type Output
//@ fn sub
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_sub(other.at(0)), r.y == self.y.ieee_sub(other.at(1)),
//@ start
        proof { fl::at(self.x, other.at(0)); fl::at(other.at(0), self.x); fl::at(self.y, other.at(1)); fl::at(other.at(1), self.y); }
//@ enditem
impl<'a, P: Is2D> vstd::std_specs::ops::SubSpecImpl<&'a P> for &'a Point2D {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, other: &'a P) -> bool { true }
    open spec fn sub_spec(self, other: &'a P) -> Point2D { arbitrary() }
}
//@ impl Sub<&P> for &Point2D
//@ type Output
//@ fn sub
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_sub(other.at(0)), r.y == self.y.ieee_sub(other.at(1)),
//@ start
        proof { fl::at(self.x, other.at(0)); fl::at(other.at(0), self.x); fl::at(self.y, other.at(1)); fl::at(other.at(1), self.y); }
//@ enditem
impl<'a> vstd::std_specs::ops::SubSpecImpl<Point2D> for &'a Point2D {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, other: Point2D) -> bool { true }
    open spec fn sub_spec(self, other: Point2D) -> Point2D { arbitrary() }
}
//@ impl Sub<Point2D> for &Point2D
//@ type Output
//@ fn sub
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_sub(other.at(0)), r.y == self.y.ieee_sub(other.at(1)),
//@ start
        proof { fl::at(self.x, other.at(0)); fl::at(other.at(0), self.x); fl::at(self.y, other.at(1)); fl::at(other.at(1), self.y); }
//@ enditem
impl vstd::std_specs::ops::MulSpecImpl<f64> for Point2D {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: f64) -> bool { true }
    open spec fn mul_spec(self, other: f64) -> Point2D { arbitrary() }
}
//@ impl Mul<f64> for Point2D
//@ type Output
//@ fn mul
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_mul(other), r.y == self.y.ieee_mul(other),
//@ start
        proof { fl::at(self.x, other); fl::at(other, self.x); fl::at(self.y, other); fl::at(other, self.y); }
//@ enditem
impl<'a> vstd::std_specs::ops::MulSpecImpl<f64> for &'a Point2D {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: f64) -> bool { true }
    open spec fn mul_spec(self, other: f64) -> Point2D { arbitrary() }
}
//@ impl Mul<f64> for &Point2D
//@ type Output
//@ fn mul
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_mul(other), r.y == self.y.ieee_mul(other),
//@ start
        proof { fl::at(self.x, other); fl::at(other, self.x); fl::at(self.y, other); fl::at(other, self.y); }
//@ enditem
impl vstd::std_specs::ops::DivSpecImpl<f64> for Point2D {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, other: f64) -> bool { true }
    open spec fn div_spec(self, other: f64) -> Point2D { arbitrary() }
}
//@ impl Div<f64> for Point2D
//@ type Output
//@ fn div
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_div(other), r.y == self.y.ieee_div(other),
//@ start
        proof { fl::at(self.x, other); fl::at(other, self.x); fl::at(self.y, other); fl::at(other, self.y); }
//@ enditem
impl<'a> vstd::std_specs::ops::DivSpecImpl<f64> for &'a Point2D {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, other: f64) -> bool { true }
    open spec fn div_spec(self, other: f64) -> Point2D { arbitrary() }
}
//@ impl Div<f64> for &Point2D
//@ type Output
//@ fn div
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_div(other), r.y == self.y.ieee_div(other),
//@ start
        proof { fl::at(self.x, other); fl::at(other, self.x); fl::at(self.y, other); fl::at(other, self.y); }
//@ enditem
impl vstd::std_specs::ops::NegSpecImpl for Point2D {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Point2D { arbitrary() }
}
//@ impl Neg for Point2D
//@ negate
//@ type Output
//@ fn neg
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_neg(), r.y == self.y.ieee_neg(),
//@ enditem
impl<'a> vstd::std_specs::ops::NegSpecImpl for &'a Point2D {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Point2D { arbitrary() }
}
//@ impl Neg for &Point2D
//@ negate
//@ type Output
//@ fn neg
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_neg(), r.y == self.y.ieee_neg(),
//@ enditem
//@ file src/norm_2d.rs
impl vstd::std_specs::ops::MulSpecImpl<f64> for Norm2D {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: f64) -> bool { true }
    open spec fn mul_spec(self, other: f64) -> Point2D { arbitrary() }
}
//@ impl Mul<f64> for Norm2D
//@ type Output
//@ fn mul
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_mul(other), r.y == self.y.ieee_mul(other),
//@ start
        proof { fl::at(self.x, other); fl::at(other, self.x); fl::at(self.y, other); fl::at(other, self.y); }
//@ enditem
impl<'a> vstd::std_specs::ops::MulSpecImpl<f64> for &'a Norm2D {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, other: f64) -> bool { true }
    open spec fn mul_spec(self, other: f64) -> Point2D { arbitrary() }
}
//@ impl Mul<f64> for &Norm2D
//@ type Output
//@ fn mul
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_mul(other), r.y == self.y.ieee_mul(other),
//@ start
        proof { fl::at(self.x, other); fl::at(other, self.x); fl::at(self.y, other); fl::at(other, self.y); }
//@ enditem
impl vstd::std_specs::ops::NegSpecImpl for Norm2D {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Norm2D { arbitrary() }
}
//@ impl Neg for Norm2D
//@ negate
//@ type Output
//@ fn neg
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_neg(), r.y == self.y.ieee_neg(),
//@ enditem
impl<'a> vstd::std_specs::ops::NegSpecImpl for &'a Norm2D {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Norm2D { arbitrary() }
}
//@ impl Neg for &Norm2D
//@ negate
//@ type Output
//@ fn neg
//@ ret r
//@ spec
        ensures r.x == self.x.ieee_neg(), r.y == self.y.ieee_neg(),
//@ enditem

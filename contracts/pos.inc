// positioned types: ghost coordinates at(0..dim)
//@ file src/is_nd.rs
//@ trait IsND
//@ header pub trait IsND: Sized
//@ ghost
    spec fn nd() -> nat;
    spec fn at(&self, i: int) -> f64;
    /// everything but the position is the same
    spec fn rest(&self) -> Seq<f64>;
//@ fn n_dimensions
//@ ret r
//@ spec
        ensures r == Self::nd(),
//@ fn position_nd
//@ ret r
//@ spec
        ensures r == (if dimension < Self::nd() { Some(self.at(dimension as int)) } else { None }),
//@ enditem
//@ file src/is_buildable_nd.rs
//@ trait IsBuildableND
//@ fn new_nd
//@ ret r
//@ spec
        ensures r.is_ok() == (coords@.len() == Self::nd()),
            r.is_ok() ==> forall|j: int| 0 <= j < Self::nd() ==> #[trigger] r->Ok_0.at(j) == coords@[j],
//@ fn from_nd
//@ sigreplace `IsBuildableND` => `IsND` ; the bound refers to the trait being declared, which Verus rejects; a weaker bound proves more
//@ ret r
//@ spec
        ensures r.is_ok() == (P::nd() == Self::nd()),
            r.is_ok() ==> forall|j: int| 0 <= j < Self::nd() ==> #[trigger] final(self).at(j) == other.at(j),
            r.is_err() ==> *final(self) == *old(self),
            final(self).rest() == old(self).rest(),
//@ fn zero_nd default
//@ ret r
//@ spec
        ensures forall|j: int| 0 <= j < Self::nd() ==> #[trigger] r.at(j) == 0.0f64,
//@ fn center_nd default
//@ ret r
//@ spec
        ensures r.is_ok() == (P::nd() == Self::nd()),
            r.is_ok() ==> forall|j: int| 0 <= j < Self::nd() ==> #[trigger] r->Ok_0.at(j) == 0.5f64.ieee_mul(self.at(j).ieee_add(other.at(j))),
//@ loop 0 inv
            invariant Self::nd() == P::nd(), n == Self::nd(), buffer@.len() == i,
                forall|j: int| 0 <= j < i ==> #[trigger] buffer@[j] == 0.5f64.ieee_mul(self.at(j).ieee_add(other.at(j))),
//@ enditem
//@ file src/is_editable_nd.rs
//@ trait IsEditableND
//@ fn set_position
//@ ret r
//@ spec
        ensures r.is_ok() == (dimension < Self::nd()),
            forall|j: int| 0 <= j < Self::nd() ==> #[trigger] final(self).at(j) == (if j == dimension { val } else { old(self).at(j) }),
            final(self).rest() == old(self).rest(),
//@ enditem

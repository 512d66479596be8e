//@ file src/is_data_container.rs
//@ trait IsDataContainer
//@ ghost
    /// number of elements
    spec fn dlen(&self) -> nat;
    /// the element at i may be reported as x
    spec fn holds(&self, i: int, x: T) -> bool;
    /// an element set or pushed as x may be reported as y (equal up to Clone resp. the stored precision)
    spec fn rep(x: T, y: T) -> bool;
    /// representation fits the address space
    spec fn wf(&self) -> bool;
//@ fn reserve_d
//@ spec
        requires old(self).wf(),
        ensures final(self).wf(), final(self).dlen() == old(self).dlen(), forall|i: int, y: T| final(self).holds(i, y) == old(self).holds(i, y),
//@ fn len_d
//@ ret r
//@ spec
        requires self.wf(),
        ensures r == self.dlen(),
//@ fn push_d
//@ spec
        requires old(self).wf(),
        ensures final(self).wf(), final(self).dlen() == old(self).dlen() + 1,
            forall|i: int, y: T| 0 <= i < old(self).dlen() ==> final(self).holds(i, y) == old(self).holds(i, y),
            forall|y: T| final(self).holds(old(self).dlen() as int, y) == Self::rep(x, y),
//@ fn get_d
//@ ret r
//@ spec
        requires self.wf(),
        ensures r.is_some() == (index < self.dlen()), r.is_some() ==> self.holds(index as int, r.unwrap()),
//@ fn set_d
//@ spec
        requires old(self).wf(), index < old(self).dlen(),
        ensures final(self).wf(), final(self).dlen() == old(self).dlen(),
            forall|i: int, y: T| 0 <= i < old(self).dlen() && i != index ==> final(self).holds(i, y) == old(self).holds(i, y),
            forall|y: T| final(self).holds(index as int, y) == Self::rep(x, y),
//@ enditem

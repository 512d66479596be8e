#![allow(warnings)]
use vstd::prelude::*;
use std::marker::PhantomData;
verus! {
//@include filter.inc
//@ file src/filter_and.rs
//@ struct FilterAND
//@ attrs
#[verifier::reject_recursive_types(T)]
//@ enditem
//@ impl FilterAND
//@ fn new
//@ ret r
//@ spec
        ensures r.filter1 == filter1, r.filter2 == filter2,
//@ enditem
//@ impl IsFilter for FilterAND
//@ ghost
    open spec fn allows(&self, x: &T) -> bool { self.filter1.allows(x) && self.filter2.allows(x) }
//@ fn is_allowed
//@ enditem
//@ file src/filter_or.rs
//@ struct FilterOR
//@ attrs
#[verifier::reject_recursive_types(T)]
//@ enditem
//@ impl FilterOR
//@ fn new
//@ ret r
//@ spec
        ensures r.filter1 == filter1, r.filter2 == filter2,
//@ enditem
//@ impl IsFilter for FilterOR
//@ ghost
    open spec fn allows(&self, x: &T) -> bool { self.filter1.allows(x) || self.filter2.allows(x) }
//@ fn is_allowed
//@ enditem
//@ file src/filter_xor.rs
//@ struct FilterXOR
//@ attrs
#[verifier::reject_recursive_types(T)]
//@ enditem
//@ impl FilterXOR
//@ fn new
//@ ret r
//@ spec
        ensures r.filter1 == filter1, r.filter2 == filter2,
//@ enditem
//@ impl IsFilter for FilterXOR
//@ ghost
    open spec fn allows(&self, x: &T) -> bool { self.filter1.allows(x) != self.filter2.allows(x) }
//@ fn is_allowed
//@ enditem
//@ file src/filter_negate.rs
//@ struct FilterNegate
//@ attrs
#[verifier::reject_recursive_types(T)]
//@ enditem
//@ impl FilterNegate
//@ fn new
//@ ret r
//@ spec
        ensures r.filter == filter,
//@ enditem
//@ impl IsFilter for FilterNegate
//@ ghost
    open spec fn allows(&self, x: &T) -> bool { !self.filter.allows(x) }
//@ fn is_allowed
//@ enditem
//@ file src/filter_outer_inner.rs
//@ struct FilterOuterInner
//@ attrs
#[verifier::reject_recursive_types(T)]
//@ enditem
impl<FOuter: IsFilter<T>, FInner: IsFilter<T>, T> FilterOuterInner<FOuter, FInner, T> {
    pub open spec fn outer(&self) -> FOuter { self.filter.filter1 }
    pub open spec fn inner(&self) -> FInner { self.filter.filter2.filter }
}
//@ impl FilterOuterInner
//@ fn new
//@ ret r
//@ spec
        ensures r.outer() == filter_outer, r.inner() == filter_inner,
//@ enditem
//@ impl IsFilter for FilterOuterInner
//@ ghost
    open spec fn allows(&self, x: &T) -> bool { self.outer().allows(x) && !self.inner().allows(x) }
//@ fn is_allowed
//@ enditem
//@ file src/filter_all.rs
//@ struct FilterAll
//@ attrs
#[verifier::reject_recursive_types(T)]
//@ enditem
//@ impl FilterAll
//@ fn new
//@ ret r
//@ spec
        ensures r.filters@.len() == 0,
//@ enditem
//@ impl IsFilter for FilterAll
//@ ghost
    open spec fn allows(&self, x: &T) -> bool { forall|i: int| 0 <= i < self.filters@.len() ==> #[trigger] self.filters@[i].allows(x) }
//@ fn is_allowed
//@ loop 0 iter it
//@ loop 0 inv
            invariant it.seq().len() == self.filters@.len(), forall|i: int| 0 <= i < self.filters@.len() ==> *(#[trigger] it.seq()[i]) == self.filters@[i], forall|i: int| 0 <= i < it.index@ ==> #[trigger] self.filters@[i].allows(x),
//@ enditem
//@ file src/filter_any.rs
//@ struct FilterAny
//@ attrs
#[verifier::reject_recursive_types(T)]
//@ enditem
//@ impl FilterAny
//@ fn new
//@ ret r
//@ spec
        ensures r.filters@.len() == 0,
//@ enditem
//@ impl IsFilter for FilterAny
//@ ghost
    open spec fn allows(&self, x: &T) -> bool { exists|i: int| 0 <= i < self.filters@.len() && #[trigger] self.filters@[i].allows(x) }
//@ fn is_allowed
//@ loop 0 iter it
//@ loop 0 inv
            invariant it.seq().len() == self.filters@.len(), forall|i: int| 0 <= i < self.filters@.len() ==> *(#[trigger] it.seq()[i]) == self.filters@[i], forall|i: int| 0 <= i < it.index@ ==> !#[trigger] self.filters@[i].allows(x),
//@ enditem
//@ file src/filter_allow.rs
//@ struct FilterAllow
//@ enditem
//@ impl FilterAllow
//@ fn new
//@ enditem
//@ impl IsFilter for FilterAllow
//@ ghost
    open spec fn allows(&self, x: &T) -> bool { true }
//@ fn is_allowed
//@ sigreplace `_: &T` => `_x: &T` ; Verus needs a named parameter
//@ enditem
//@ file src/filter_deny.rs
//@ struct FilterDeny
//@ enditem
//@ impl FilterDeny
//@ fn new
//@ enditem
//@ impl IsFilter for FilterDeny
//@ ghost
    open spec fn allows(&self, x: &T) -> bool { false }
//@ fn is_allowed
//@ sigreplace `_: &T` => `_x: &T` ; Verus needs a named parameter
//@ enditem
/// over no parts: all allows everything, any nothing
pub proof fn empty<T>(all: FilterAll<T>, any: FilterAny<T>, x: T)
    requires all.filters@.len() == 0, any.filters@.len() == 0,
    ensures all.allows(&x), !any.allows(&x),
{ }
fn main() {}
}

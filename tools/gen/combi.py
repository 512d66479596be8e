V='/verif/contracts/'
o='''#![allow(warnings)]
use vstd::prelude::*;
use std::marker::PhantomData;
verus! {
//@include filter.inc
'''
def two(n,f,expr):
    return f'''//@ file src/{f}.rs
//@ struct {n}
//@ attrs
#[verifier::reject_recursive_types(T)]
//@ enditem
//@ impl {n}
//@ fn new
//@ ret r
//@ spec
        ensures r.filter1 == filter1, r.filter2 == filter2,
//@ enditem
//@ impl IsFilter for {n}
//@ ghost
    open spec fn allows(&self, x: &T) -> bool {{ {expr} }}
//@ fn is_allowed
//@ enditem
'''
a,b='self.filter1.allows(x)','self.filter2.allows(x)'
o+=two('FilterAND','filter_and',f'{a} && {b}')+two('FilterOR','filter_or',f'{a} || {b}')+two('FilterXOR','filter_xor',f'{a} != {b}')
o+='''//@ file src/filter_negate.rs
//@ struct FilterNegate
//@ attrs
#[verifier::reject_recursive_types(T)]
//@ enditem
//@ impl FilterNegate
//@ fn new
//@ ret r
//@ spec
        ensures r.filter == filter,
//@ enditem
//@ impl IsFilter for FilterNegate
//@ ghost
    open spec fn allows(&self, x: &T) -> bool { !self.filter.allows(x) }
//@ fn is_allowed
//@ enditem
//@ file src/filter_outer_inner.rs
//@ struct FilterOuterInner
//@ attrs
#[verifier::reject_recursive_types(T)]
//@ enditem
impl<FOuter: IsFilter<T>, FInner: IsFilter<T>, T> FilterOuterInner<FOuter, FInner, T> {
    pub open spec fn outer(&self) -> FOuter { self.filter.filter1 }
    pub open spec fn inner(&self) -> FInner { self.filter.filter2.filter }
}
//@ impl FilterOuterInner
//@ fn new
//@ ret r
//@ spec
        ensures r.outer() == filter_outer, r.inner() == filter_inner,
//@ enditem
//@ impl IsFilter for FilterOuterInner
//@ ghost
    open spec fn allows(&self, x: &T) -> bool { self.outer().allows(x) && !self.inner().allows(x) }
//@ fn is_allowed
//@ enditem
'''
for n,f,q,done in (('FilterAll','filter_all','forall|i: int| 0 <= i < self.filters@.len() ==> #[trigger] self.filters@[i].allows(x)','forall|i: int| 0 <= i < it.index@ ==> #[trigger] self.filters@[i].allows(x)'),
    ('FilterAny','filter_any','exists|i: int| 0 <= i < self.filters@.len() && #[trigger] self.filters@[i].allows(x)','forall|i: int| 0 <= i < it.index@ ==> !#[trigger] self.filters@[i].allows(x)')):
    o+=f'''//@ file src/{f}.rs
//@ struct {n}
//@ attrs
#[verifier::reject_recursive_types(T)]
//@ enditem
//@ impl {n}
//@ fn new
//@ ret r
//@ spec
        ensures r.filters@.len() == 0,
//@ enditem
//@ impl IsFilter for {n}
//@ ghost
    open spec fn allows(&self, x: &T) -> bool {{ {q} }}
//@ fn is_allowed
//@ loop 0 iter it
//@ loop 0 inv
            invariant it.seq().len() == self.filters@.len(), forall|i: int| 0 <= i < self.filters@.len() ==> *(#[trigger] it.seq()[i]) == self.filters@[i], {done},
//@ enditem
'''
for n,f,v in (('FilterAllow','filter_allow','true'),('FilterDeny','filter_deny','false')):
    o+=f'''//@ file src/{f}.rs
//@ struct {n}
//@ enditem
//@ impl {n}
//@ fn new
//@ enditem
//@ impl IsFilter for {n}
//@ ghost
    open spec fn allows(&self, x: &T) -> bool {{ {v} }}
//@ fn is_allowed
//@ sigreplace `_: &T` => `_x: &T` ; Verus needs a named parameter
//@ enditem
'''
o+='''/// over no parts: all allows everything, any nothing
pub proof fn empty<T>(all: FilterAll<T>, any: FilterAny<T>, x: T)
    requires all.filters@.len() == 0, any.filters@.len() == 0,
    ensures all.allows(&x), !any.allows(&x),
{ }
fn main() {}
}
'''
open(V+'c_combinators.vc','w').write(o)

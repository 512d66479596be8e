V='/verif/contracts/'
o='''#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::marker::PhantomData;
use vstd::view::View as _;
use std::collections::HashSet;
use std::collections::VecDeque;
use std::collections::LinkedList;
verus! {
broadcast use {vstd::seq_lib::group_seq_properties, vstd::std_specs::hash::group_hash_axioms};
//@include base.inc
//@include filter.inc
//@include listing.inc
/// ghost only: the elements in order
pub trait Listed<T> { spec fn list(&self) -> Seq<T>; }
impl<T> Listed<T> for Vec<T> { open spec fn list(&self) -> Seq<T> { self@ } }
impl<T> Listed<T> for VecDeque<T> { open spec fn list(&self) -> Seq<T> { self@ } }
pub uninterp spec fn order(s: Set<usize>) -> Seq<&'static usize>;
pub open spec fn order_index(s: Set<usize>, x: usize) -> bool { exists|j: int| 0 <= j < order(s).len() && *order(s)[j] == x }
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(A)]
pub struct ExLinkedList<T, A: std::alloc::Allocator>(LinkedList<T, A>);
impl<T> Listed<T> for LinkedList<T> { uninterp spec fn list(&self) -> Seq<T>; }
pub assume_specification<T>[ LinkedList::<T>::new ]() -> (r: LinkedList<T>) ensures r.list() == Seq::<T>::empty();
pub assume_specification<T, A: std::alloc::Allocator>[ LinkedList::<T, A>::len ](l: &LinkedList<T, A>) -> (r: usize) ensures r == llen(l);
pub uninterp spec fn llen<T, A: std::alloc::Allocator>(l: &LinkedList<T, A>) -> nat;
pub broadcast axiom fn ax_llen<T>(l: &LinkedList<T>) ensures #[trigger] llen(l) == l.list().len();
/// `l.push_back(x)` (assumed: std)
#[verifier::external_body]
pub fn list_push<T>(l: &mut LinkedList<T>, x: T) ensures final(l).list() == old(l).list().push(x) { l.push_back(x) }
/// `l.iter()` (assumed: std)
#[verifier::external_body]
pub fn list_items<T>(v: &LinkedList<T>) -> (r: Vec<&T>) ensures r@.len() == v.list().len(), forall|i: int| 0 <= i < v.list().len() ==> *(#[trigger] r@[i]) == v.list()[i] { v.iter().collect() }
/// `l.clone()` (assumed: std)
#[verifier::external_body]
pub fn list_clone<T: Clone>(l: &LinkedList<T>) -> (r: LinkedList<T>) ensures r.list().len() == l.list().len(), forall|i: int| 0 <= i < l.list().len() ==> cloned(l.list()[i], #[trigger] r.list()[i]) { l.clone() }
/// the items of a set, each once, in some order (assumed: std's HashSet iterator)
#[verifier::external_body]
pub fn set_items(s: &HashSet<usize>) -> (r: Vec<&usize>)
    ensures listing(r), elems(r) == order(s@), order(s@).len() <= usize::MAX, forall|j: int| 0 <= j < order(s@).len() ==> s@.contains(*#[trigger] order(s@)[j]),
        forall|x: usize| #[trigger] s@.contains(x) ==> order_index(s@, x),
{ s.iter().collect() }
/// `s.iter().any(|x| x >= &n)` (assumed: std's Iterator::any)
#[verifier::external_body]
pub fn any_at_least(s: &HashSet<usize>, n: usize) -> (r: bool) ensures r == exists|x: usize| #[trigger] s@.contains(x) && x >= n { s.iter().any(|x| x >= &n) }
/// `a.extend(&b)` (assumed: std)
#[verifier::external_body]
pub fn set_extend(a: &mut HashSet<usize>, b: &HashSet<usize>) ensures final(a)@ == old(a)@.union(b@) { a.extend(b) }
//@ file src/is_random_accessible.rs
//@ trait IsRandomAccessible
//@ header pub trait IsRandomAccessible<T>: Listed<T>
//@ fn len
//@ ret r
//@ spec
        ensures r == self.list().len(),
//@ enditem
/// `&ra[i]` (the Index implementations are verified under C21)
#[verifier::external_body]
pub fn item<T, RA: IsRandomAccessible<T>>(ra: &RA, i: usize) -> (r: &T) requires i < ra.list().len() ensures *r == ra.list()[i as int] { unimplemented!() }
//@ file src/view.rs
//@ enum View
//@ enditem
impl View {
    /// the element with index i is part of the view
    pub open spec fn has(&self, i: int) -> bool { match self { View::Full => true, View::Restricted(s) => 0 <= i <= usize::MAX && s@.contains(i as usize) } }
}
/// derived Clone: the same indices
impl Clone for View {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures forall|i: int| r.has(i) == self.has(i), (r is Full) == (self is Full) { match self { View::Full => View::Full, View::Restricted(s) => View::Restricted(s.clone()) } }
}
//@ impl View
//@ fn union
//@ spec
        ensures forall|i: int| 0 <= i <= usize::MAX ==> #[trigger] final(self).has(i) == (old(self).has(i) || other.has(i)),
//@ replace `indices_source.extend(&indices_other)` => `set_extend(indices_source, &indices_other)` ; see set_extend
//@ enditem
//@ file src/is_filter_random_accessible.rs
//@ trait IsFilterRandomAccessible
//@ ghost
    /// the filter lets the element with index i of the collection pass
    spec fn passes(&self, ra: &RA, i: int) -> bool;
//@ fn filter
//@ spec
        ensures forall|i: int| 0 <= i < ra.list().len() ==> #[trigger] final(view).has(i) == (old(view).has(i) && self.passes(ra, i)),
//@ enditem
//@ file src/filter_random_accessible.rs
//@ struct FilterRandomAccessible
//@ attrs
#[verifier::reject_recursive_types(T)]
//@ enditem
//@ impl FilterRandomAccessible
//@ fn new
//@ ret r
//@ spec
        ensures r.filter == filter,
//@ enditem
//@ impl IsFilterRandomAccessible for FilterRandomAccessible
//@ ghost
    open spec fn passes(&self, ra: &RA, i: int) -> bool { self.filter.allows(&ra.list()[i]) }
//@ fn filter
//@ fattrs
#[verifier::exec_allows_no_decreases_clause]
//@ replace `&ra[i]` => `item(ra, i)` ; indexing through the Index trait, see item
//@ replace `&ra[*index]` => `item(ra, *index)` ; as above
//@ replace `indices.iter()` => `set_items(indices)` ; see set_items
//@ start
        let ghost mut k: int = 0;
        let ghost before = *view;
        let ghost all = match view { View::Restricted(s) => s@, View::Full => Set::empty() };
        let ghost src = order(all);
//@ loop 0 inv
                    invariant n == ra.list().len(), forall|j: int| 0 <= j <= usize::MAX ==> #[trigger] indices@.contains(j as usize) == (j < i && self.filter.allows(&ra.list()[j])),
//@ loop 1 gen
//@ loop 1 inv
                    invariant_except_break 0 <= k <= src.len(), IteratorSpec::remaining(&it__1) == src.skip(k), IteratorSpec::obeys_prophetic_iter_laws(&it__1), IteratorSpec::will_return_none(&it__1), indices@ == all, max == ra.list().len() - 1, ra.list().len() > 0,
                        forall|x: usize| indices_to_remove@.contains(x) ==> all.contains(x) && (x > max || !self.filter.allows(&ra.list()[x as int])),
                        forall|j: int| 0 <= j < k && (*src[j] > max || !self.filter.allows(&ra.list()[*src[j] as int])) ==> indices_to_remove@.contains(*#[trigger] src[j]),
                        forall|j: int| 0 <= j < src.len() ==> all.contains(*#[trigger] src[j]), forall|x: usize| #[trigger] all.contains(x) ==> order_index(all, x), src == order(all),
                    ensures indices@ == all, forall|x: usize| #[trigger] all.contains(x) ==> (indices_to_remove@.contains(x) <==> (x > max || !self.filter.allows(&ra.list()[x as int]))), forall|x: usize| indices_to_remove@.contains(x) ==> all.contains(x)
//@ loop 1 start
                    proof { k = k + 1; }
//@ loop 2 iter it
//@ loop 2 inv
                    invariant indices@ == all.difference(it.seq().take(it.index@).to_set()), it.seq() == indices_to_remove@,
//@ enditem
'''
o+='''//@ file src/filter_all_random_accessible.rs
//@ struct FilterAllRandomAccessible
//@ attrs
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(RA)]
//@ enditem
//@ impl IsFilterRandomAccessible for FilterAllRandomAccessible
//@ ghost
    open spec fn passes(&self, ra: &RA, i: int) -> bool { forall|k: int| 0 <= k < self.filters@.len() ==> #[trigger] self.filters@[k].passes(ra, i) }
//@ fn filter
//@ sigreplace `mut view: &mut View` => `view: &mut View` ; the binding itself is never reassigned
//@ replace `&mut view` => `view` ; reborrow through the binding dropped above
//@ replace `&ra` => `ra` ; deref coercion of &&RA
//@ start
        let ghost before = *view;
//@ loop 0 iter it
//@ loop 0 inv
            invariant it.seq().len() == self.filters@.len(), forall|i: int| 0 <= i < self.filters@.len() ==> *(#[trigger] it.seq()[i]) == self.filters@[i],
                forall|i: int| 0 <= i < ra.list().len() ==> #[trigger] view.has(i) == (before.has(i) && forall|k: int| 0 <= k < it.index@ ==> #[trigger] self.filters@[k].passes(ra, i)),
//@ enditem
//@ file src/filter_any_random_accessible.rs
//@ struct FilterAnyRandomAccessible
//@ attrs
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(RA)]
//@ enditem
//@ impl IsFilterRandomAccessible for FilterAnyRandomAccessible
//@ ghost
    open spec fn passes(&self, ra: &RA, i: int) -> bool { exists|k: int| 0 <= k < self.filters@.len() && #[trigger] self.filters@[k].passes(ra, i) }
//@ fn filter
//@ replace `&ra` => `ra` ; deref coercion of &&RA
//@ start
        let ghost before = *view;
        proof { assert(ra.list().len() <= usize::MAX) by { list_fits(ra); } }
//@ loop 0 iter it
//@ loop 0 inv
            invariant it.seq().len() == self.filters@.len(), forall|i: int| 0 <= i < self.filters@.len() ==> *(#[trigger] it.seq()[i]) == self.filters@[i], *view == before, ra.list().len() <= usize::MAX,
                forall|i: int| 0 <= i < ra.list().len() ==> #[trigger] view_any.has(i) == (before.has(i) && exists|k: int| 0 <= k < it.index@ && #[trigger] self.filters@[k].passes(ra, i)),
//@ enditem
/// a collection has a length that fits usize
#[verifier::external_body]
pub proof fn list_fits<T, RA: IsRandomAccessible<T>>(ra: &RA) ensures ra.list().len() <= usize::MAX { }
'''

o+='''
/// the first n elements of s that are part of the view, in their order
pub open spec fn picked<T>(s: Seq<T>, view: View, n: int) -> Seq<T> decreases n {
    if n <= 0 { Seq::empty() } else if view.has(n - 1) { picked(s, view, n - 1).push(s[n - 1]) } else { picked(s, view, n - 1) }
}
/// b holds a clone of each element of a, in the same order
pub open spec fn copies<T: Clone>(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> cloned(a[i], #[trigger] b[i]) }
pub open spec fn in_bounds(view: View, n: nat) -> bool { view is Full || forall|i: int| n <= i <= usize::MAX ==> !#[trigger] view.has(i) }
pub open spec fn applied<T: Clone>(before: Seq<T>, view: View, after: Seq<T>) -> bool { if view is Full { after == before } else { copies(picked(before, view, before.len() as int), after) } }
/// what picked is: strictly ascending original positions, all of the view, none left out
pub proof fn picked_is_selection<T>(s: Seq<T>, view: View, n: int)
    requires 0 <= n <= s.len()
    ensures exists|pos: Seq<int>| #[trigger] selects(pos, view, n) && pos.len() == picked(s, view, n).len() && forall|j: int| 0 <= j < pos.len() ==> picked(s, view, n)[j] == s[#[trigger] pos[j]]
    decreases n
{
    if n == 0 { assert(selects(Seq::<int>::empty(), view, 0)); }
    else {
        picked_is_selection(s, view, n - 1);
        let pos = choose|pos: Seq<int>| #[trigger] selects(pos, view, n - 1) && pos.len() == picked(s, view, n - 1).len() && forall|j: int| 0 <= j < pos.len() ==> picked(s, view, n - 1)[j] == s[#[trigger] pos[j]];
        if view.has(n - 1) {
            let q = pos.push(n - 1);
            assert forall|i: int| 0 <= i < n && #[trigger] view.has(i) implies q.contains(i) by {
                if i == n - 1 { assert(q[pos.len() as int] == i); } else { assert(pos.contains(i)); let k = choose|k: int| 0 <= k < pos.len() && pos[k] == i; assert(q[k] == i); }
            }
            assert(selects(q, view, n));
        } else { assert(selects(pos, view, n)); }
    }
}
pub open spec fn selects(pos: Seq<int>, view: View, n: int) -> bool {
    (forall|i: int, j: int| 0 <= i < j < pos.len() ==> pos[i] < pos[j]) && (forall|i: int| 0 <= i < pos.len() ==> 0 <= #[trigger] pos[i] < n && view.has(pos[i])) && (forall|i: int| 0 <= i < n && #[trigger] view.has(i) ==> pos.contains(i))
}
//@ file src/is_view_buildable.rs
//@ trait IsViewBuildable
//@ ghost
    spec fn view_bounds(&self, view: &View) -> bool;
    spec fn view_applied(&self, view: &View, r: &Self) -> bool;
    spec fn view_copied(&self, view: &View, r: &Self) -> bool;
    spec fn same(&self, r: &Self) -> bool;
//@ fn apply_view
//@ ret r
//@ spec
        ensures r.is_ok() == old(self).view_bounds(view), if r.is_ok() { old(self).view_applied(view, final(self)) } else { old(self).same(final(self)) },
//@ fn from_view
//@ ret r
//@ spec
        ensures r.is_some() == self.view_bounds(view), r.is_some() ==> self.view_copied(view, &r->0),
//@ enditem
'''
GH='''//@ ghost
    open spec fn view_bounds(&self, view: &View) -> bool { in_bounds(*view, self.list().len()) }
    open spec fn view_applied(&self, view: &View, r: &Self) -> bool { applied(self.list(), *view, r.list()) }
    open spec fn view_copied(&self, view: &View, r: &Self) -> bool { exists|mid: Seq<%s>| #[trigger] copies(self.list(), mid) && applied(mid, *view, r.list()) }
    open spec fn same(&self, r: &Self) -> bool { r.list() == self.list() }
'''
for ty,f,num,push in [('Vec','vec','numbered','push'),('VecDeque','vec_deque','numbered_deque','push_back'),('LinkedList','linked_list','numbered_list','push_back')]:
    o+='''//@ file src/impls/%s.rs
'''%f+('' if ty=='LinkedList' else '''//@ impl IsRandomAccessible for %s
//@ fn len
//@ enditem
'''%ty)+'''//@ impl IsViewBuildable for %s
'''%ty+GH%'T'+'''//@ fn apply_view
//@ before `return Err`
                    proof { let x = choose|x: usize| #[trigger] indices@.contains(x) && x >= n; assert(view.has(x as int)); }
//@ replace `indices.iter().any(|x| x >= &n)` => `any_at_least(indices, n)` ; see any_at_least
%s//@ loop 0 iter it
//@ loop 0 inv
                    invariant it.seq().len() == self.list().len(), n == self.list().len(), enum__0 == it.index@, *view == View::Restricted(*indices), forall|j: int| 0 <= j < self.list().len() ==> *(#[trigger] it.seq()[j]) == self.list()[j],
                        copies(picked(self.list(), *view, it.index@), new_data.list()),
//@ fn from_view
%s//@ before `cloned.apply_view`
        proof { assert(copies(self.list(), cloned.list())); }
//@ enditem
'''%('' if ty=='Vec' else '//@ replace `new_data.push_back(p.clone())` => `list_push(&mut new_data, p.clone())` ; see list_push\n//@ replace `self.iter()` => `list_items(self)` ; see list_items\n//@ start\n        broadcast use ax_llen;\n' if ty=='LinkedList' else '//@ replace `new_data.push(` => `new_data.push_back(` ; VecDeque::push of IsPushable is push_back (C21)\n','//@ replace `self.clone()` => `list_clone(self)` ; see list_clone\n' if ty=='LinkedList' else '')
for d in '23':
    o+='''//@ file src/point_cloud_%sd.rs
//@ struct PointCloud%sD
//@ replace `P: Is%sD,` => `` ; position traits are not needed by the verified functions
//@ enditem
impl<P> Listed<P> for PointCloud%sD<P> { open spec fn list(&self) -> Seq<P> { self.data@ } }
/// derived Clone
impl<P: Clone> Clone for PointCloud%sD<P> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures copies(self.list(), r.list()) { unimplemented!() }
}
//@ impl IsViewBuildable for PointCloud%sD
//@ header impl<P: Clone> IsViewBuildable for PointCloud%sD<P>
'''%((d,)*7)+GH%'P'+'''//@ fn apply_view
//@ fn from_view
//@ enditem
'''
open(V+'c_views.vc','w').write(o+'fn main() {}\n}\n')

pub mod ord {
    use vstd::prelude::*;
    use std::cmp::Ordering;
    use vstd::float::*;
    /// IEEE comparison as an ordering (assumed: std's partial_cmp on floats)
    pub open spec fn pcmp(x: f64, y: f64) -> Option<Ordering> { if x.ieee_lt(y) { Some(Ordering::Less) } else if x.ieee_eq(y) { Some(Ordering::Equal) } else if y.ieee_lt(x) { Some(Ordering::Greater) } else { None } }
    pub broadcast axiom fn ax_pcmp(x: f64, y: f64, r: Option<Ordering>) requires #[trigger] call_ensures(f64::partial_cmp, (&x, &y), r) ensures r == pcmp(x, y);
}
use ord::*;
/// the comparison puts a not after b
pub open spec fn sleq<T, F: FnMut(&T, &T) -> Ordering>(f: F, a: T, b: T) -> bool { call_ensures(f, (&a, &b), Ordering::Less) || call_ensures(f, (&a, &b), Ordering::Equal) }
/// the comparison is a total preorder on the elements (otherwise sort_by may panic)
pub open spec fn preorder<T, F: FnMut(&T, &T) -> Ordering>(f: F, s: Seq<T>) -> bool {
    &&& forall|a: T, b: T| #[trigger] call_requires(f, (&a, &b))
    &&& forall|a: T, b: T, o: Ordering, p: Ordering| s.contains(a) && s.contains(b) && #[trigger] call_ensures(f, (&a, &b), o) && #[trigger] call_ensures(f, (&b, &a), p) ==> (o == Ordering::Less) == (p == Ordering::Greater)
    &&& forall|a: T, b: T, c: T, o: Ordering, p: Ordering, q: Ordering| s.contains(a) && s.contains(b) && s.contains(c) && #[trigger] call_ensures(f, (&a, &b), o) && #[trigger] call_ensures(f, (&b, &c), p) && #[trigger] call_ensures(f, (&a, &c), q)
            && o != Ordering::Greater && p != Ordering::Greater ==> q != Ordering::Greater
}
/// assumed: std's sort permutes the elements into ascending order
pub assume_specification<T, F: FnMut(&T, &T) -> Ordering> [<[T]>::sort_by] (s: &mut [T], compare: F)
    requires preorder(compare, old(s)@),
    ensures final(s)@.to_multiset() == old(s)@.to_multiset(),
        forall|i: int, j: int| 0 <= i < j < final(s)@.len() ==> sleq(compare, #[trigger] final(s)@[i], #[trigger] final(s)@[j]);

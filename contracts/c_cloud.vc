#![allow(warnings)]
#![feature(allocator_api, const_destruct, const_trait_impl)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use vstd::multiset::Multiset;
use std::cmp::Ordering;
use std::cell::RefCell;
use std::marker::PhantomData;
use std::ops::*;
verus! {
//@include float.inc
broadcast use {vstd::seq_lib::group_seq_properties, vstd::multiset::group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures, fl::ax, ord::ax_pcmp};
//@include base.inc
//@include num.inc
//@include pos.inc
//@include pos2.inc
//@include pos3.inc
//@include point2.inc
//@include point3.inc
//@include flemmas.inc
//@include order.inc
//@include sort.inc
/// `clone` of this type yields an equal value
pub open spec fn clone_ok<P: Clone>() -> bool { forall|a: P, b: P| #[trigger] cloned(a, b) ==> a == b }
pub proof fn order_facts() ensures
    forall|x: f64, y: f64| !nan(x) && !nan(y) ==> (#[trigger] x.ieee_lt(y) || x.ieee_eq(y) || y.ieee_lt(x)) && x.ieee_le(y) == (x.ieee_lt(y) || x.ieee_eq(y)) && x.ieee_le(y) == !y.ieee_lt(x),
    forall|x: f64, y: f64, z: f64| #[trigger] x.ieee_le(y) && #[trigger] y.ieee_le(z) ==> x.ieee_le(z),
    forall|x: f64, y: f64| #[trigger] x.ieee_lt(y) ==> x.ieee_le(y) && !y.ieee_lt(x) && !x.ieee_eq(y) && !y.ieee_eq(x),
    forall|x: f64, y: f64| #[trigger] x.ieee_eq(y) ==> y.ieee_eq(x) && x.ieee_le(y) && y.ieee_le(x),
{
    assert forall|x: f64, y: f64| !nan(x) && !nan(y) implies (#[trigger] x.ieee_lt(y) || x.ieee_eq(y) || y.ieee_lt(x)) && x.ieee_le(y) == (x.ieee_lt(y) || x.ieee_eq(y)) && x.ieee_le(y) == !y.ieee_lt(x) by { tri(x, y); }
    assert forall|x: f64, y: f64, z: f64| #[trigger] x.ieee_le(y) && #[trigger] y.ieee_le(z) implies x.ieee_le(z) by { le_trans(x, y, z); }
    assert forall|x: f64, y: f64| #[trigger] x.ieee_lt(y) implies x.ieee_le(y) && !y.ieee_lt(x) && !x.ieee_eq(y) && !y.ieee_eq(x) by { lt_facts(x, y); }
    assert forall|x: f64, y: f64| #[trigger] x.ieee_eq(y) implies y.ieee_eq(x) && x.ieee_le(y) && y.ieee_le(x) by { assert(x.ieee_eq(y) ==> y.ieee_eq(x) && x.ieee_le(y) && y.ieee_le(x)) by(bit_vector); }
}
/// assumed: std's or_else keeps a value there is
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T: std::marker::Destruct, F: FnOnce() -> Option<T> + std::marker::Destruct> [Option::<T>::or_else] (o: Option<T>, f: F) -> (r: Option<T>)
    requires o.is_none() ==> call_requires(f, ()),
    ensures o.is_some() ==> r == o, o.is_none() ==> call_ensures(f, (), r);
/// the elements, not descending in one coordinate
pub open spec fn sorted_by<P: IsND>(a: Seq<P>, b: Seq<P>, d: int) -> bool {
    b.to_multiset() == a.to_multiset() && forall|i: int, j: int| 0 <= i < j < b.len() ==> #[trigger] b[i].at(d).ieee_le(#[trigger] b[j].at(d))
}
/// no coordinate is NaN (sorting may panic otherwise)
pub open spec fn numbers<P: IsND>(s: Seq<P>, n: int) -> bool { forall|i: int, d: int| 0 <= i < s.len() && 0 <= d < n ==> !nan(#[trigger] s[i].at(d)) }
//@ file src/functions.rs
//@ freefn sort_vec_2d_x
//@ spec
    requires numbers(old(xs)@, 2),
    ensures sorted_by(old(xs)@, final(xs)@, 0),
//@ start
    let ghost s0 = xs@;
    proof { order_facts(); }
//@ closure 0 o: Ordering
        ensures pcmp(a.at(0), b.at(0)).is_some() ==> o == pcmp(a.at(0), b.at(0))->0
//@ after `xs.sort_by`
    proof {
        let s = xs@;
        s.to_multiset_ensures(); s0.to_multiset_ensures();
        assert forall|q: P| #[trigger] s.contains(q) implies s0.contains(q) by { assert(s.to_multiset().contains(q)); assert(s0.to_multiset().contains(q)); }
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] s[i].at(0).ieee_le(#[trigger] s[j].at(0)) by { assert(s.contains(s[i]) && s.contains(s[j])); assert(s0.contains(s[i]) && s0.contains(s[j])); assert(!nan(s[i].at(0)) && !nan(s[j].at(0))); }
    }
//@ enditem
//@ freefn sort_vec_2d_y
//@ spec
    requires numbers(old(xs)@, 2),
    ensures sorted_by(old(xs)@, final(xs)@, 1),
//@ start
    let ghost s0 = xs@;
    proof { order_facts(); }
//@ closure 0 o: Ordering
        ensures pcmp(a.at(1), b.at(1)).is_some() ==> o == pcmp(a.at(1), b.at(1))->0
//@ after `xs.sort_by`
    proof {
        let s = xs@;
        s.to_multiset_ensures(); s0.to_multiset_ensures();
        assert forall|q: P| #[trigger] s.contains(q) implies s0.contains(q) by { assert(s.to_multiset().contains(q)); assert(s0.to_multiset().contains(q)); }
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] s[i].at(1).ieee_le(#[trigger] s[j].at(1)) by { assert(s.contains(s[i]) && s.contains(s[j])); assert(s0.contains(s[i]) && s0.contains(s[j])); assert(!nan(s[i].at(1)) && !nan(s[j].at(1))); }
    }
//@ enditem
//@ file src/functions.rs
//@ freefn sort_vec_3d_x
//@ spec
    requires numbers(old(xs)@, 3),
    ensures sorted_by(old(xs)@, final(xs)@, 0),
//@ start
    let ghost s0 = xs@;
    proof { order_facts(); }
//@ closure 0 o: Ordering
        ensures pcmp(a.at(0), b.at(0)).is_some() ==> o == pcmp(a.at(0), b.at(0))->0
//@ after `xs.sort_by`
    proof {
        let s = xs@;
        s.to_multiset_ensures(); s0.to_multiset_ensures();
        assert forall|q: P| #[trigger] s.contains(q) implies s0.contains(q) by { assert(s.to_multiset().contains(q)); assert(s0.to_multiset().contains(q)); }
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] s[i].at(0).ieee_le(#[trigger] s[j].at(0)) by { assert(s.contains(s[i]) && s.contains(s[j])); assert(s0.contains(s[i]) && s0.contains(s[j])); assert(!nan(s[i].at(0)) && !nan(s[j].at(0))); }
    }
//@ enditem
//@ freefn sort_vec_3d_y
//@ spec
    requires numbers(old(xs)@, 3),
    ensures sorted_by(old(xs)@, final(xs)@, 1),
//@ start
    let ghost s0 = xs@;
    proof { order_facts(); }
//@ closure 0 o: Ordering
        ensures pcmp(a.at(1), b.at(1)).is_some() ==> o == pcmp(a.at(1), b.at(1))->0
//@ after `xs.sort_by`
    proof {
        let s = xs@;
        s.to_multiset_ensures(); s0.to_multiset_ensures();
        assert forall|q: P| #[trigger] s.contains(q) implies s0.contains(q) by { assert(s.to_multiset().contains(q)); assert(s0.to_multiset().contains(q)); }
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] s[i].at(1).ieee_le(#[trigger] s[j].at(1)) by { assert(s.contains(s[i]) && s.contains(s[j])); assert(s0.contains(s[i]) && s0.contains(s[j])); assert(!nan(s[i].at(1)) && !nan(s[j].at(1))); }
    }
//@ enditem
//@ freefn sort_vec_3d_z
//@ spec
    requires numbers(old(xs)@, 3),
    ensures sorted_by(old(xs)@, final(xs)@, 2),
//@ start
    let ghost s0 = xs@;
    proof { order_facts(); }
//@ closure 0 o: Ordering
        ensures pcmp(a.at(2), b.at(2)).is_some() ==> o == pcmp(a.at(2), b.at(2))->0
//@ after `xs.sort_by`
    proof {
        let s = xs@;
        s.to_multiset_ensures(); s0.to_multiset_ensures();
        assert forall|q: P| #[trigger] s.contains(q) implies s0.contains(q) by { assert(s.to_multiset().contains(q)); assert(s0.to_multiset().contains(q)); }
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] s[i].at(2).ieee_le(#[trigger] s[j].at(2)) by { assert(s.contains(s[i]) && s.contains(s[j])); assert(s0.contains(s[i]) && s0.contains(s[j])); assert(!nan(s[i].at(2)) && !nan(s[j].at(2))); }
    }
//@ enditem
//@ file src/is_sortable_nd.rs
//@ trait IsSortableND
//@ header pub trait IsSortableND: Sized
//@ ghost
    type Elem: IsND;
    spec fn dims() -> int;
    spec fn elements(&self) -> Seq<Self::Elem>;
//@ fn n_dimensions
//@ ret r
//@ spec
        ensures r == Self::dims(),
//@ fn sort_dim
//@ ret r
//@ spec
        requires numbers(old(self).elements(), Self::dims()),
        ensures r.is_ok() == (dimension < Self::dims()), r.is_ok() ==> sorted_by(old(self).elements(), final(self).elements(), dimension as int), r.is_err() ==> *final(self) == *old(self),
//@ enditem
//@ file src/is_mergeable.rs
//@ trait IsMergeable
//@ header pub trait IsMergeable: Sized
//@ ghost
    /// c holds what a and b hold
    spec fn merged(a: Self, b: Self, c: Self) -> bool;
    spec fn copies() -> bool;
//@ fn consume
//@ spec
        requires Self::copies(),
        ensures Self::merged(*old(self), other, *final(self)),
//@ fn combine
//@ ret r
//@ spec
        requires Self::copies(),
        ensures Self::merged(*self, *other, r),
//@ enditem
/// ghost only: the elements in order
pub trait Listed<T> { spec fn list(&self) -> Seq<T>; }
//@ file src/is_random_accessible.rs
//@ trait IsRandomAccessible
//@ header pub trait IsRandomAccessible<T>: Listed<T> + Index<usize, Output = T>
//@ fn len
//@ ret r
//@ spec
        ensures r == self.list().len(),
//@ enditem
//@ file src/is_pushable.rs
//@ trait IsPushable
//@ header pub trait IsPushable<T>: Listed<T>
//@ fn push
//@ spec
        ensures final(self).list() == old(self).list().push(x),
//@ enditem
/// `ra[i]` (assumed: indexing a random accessible collection yields its i-th element; proved for the library's in c_containers)
#[verifier::external_body]
pub fn at_index<'a, T, RA: IsRandomAccessible<T>>(ra: &'a RA, i: usize) -> (r: &'a T) requires i < ra.list().len() ensures *r == ra.list()[i as int] { &ra[i] }
/// the non-empty parts of a text between separators
pub uninterp spec fn pieces(text: Seq<char>, sep: Seq<char>) -> Seq<Seq<char>>;
/// `text.split(sep).skip_empty_string()` (assumed: std's split; SkipEmptyString is proved in c_lines), listed
#[verifier::external_body]
pub fn parts_of<'a>(text: &'a str, sep: &str) -> (r: Vec<&'a str>) ensures r@.len() == pieces(text@, sep@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == pieces(text@, sep@)[i] { unimplemented!() }
/// what std reads from a text
pub uninterp spec fn f_parse(text: Seq<char>) -> Option<f64>;
/// `f64::from_str(text)`, the error as the library converts it
#[verifier::external_body]
pub fn number_of(text: &str) -> (r: Result<f64>) ensures r.is_ok() == f_parse(text@).is_some(), r.is_ok() ==> r->Ok_0 == f_parse(text@)->0 { unimplemented!() }
/// the text consists of n numbers
pub open spec fn reads(text: Seq<char>, n: int) -> bool { pieces(text, " "@).len() == n && forall|i: int| 0 <= i < n ==> f_parse(#[trigger] pieces(text, " "@)[i]).is_some() }
pub open spec fn read_to<P: IsND>(text: Seq<char>, n: int, p: P) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] p.at(i) == f_parse(pieces(text, " "@)[i])->0 }
//@ file src/is_sortable_2d.rs
//@ trait IsSortable2D
//@ header pub trait IsSortable2D: IsSortableND
//@ fn sort_x
//@ spec
        requires numbers(old(self).elements(), 2),
        ensures sorted_by(old(self).elements(), final(self).elements(), 0),
//@ fn sort_y
//@ spec
        requires numbers(old(self).elements(), 2),
        ensures sorted_by(old(self).elements(), final(self).elements(), 1),
//@ enditem
//@ file src/point_cloud_2d.rs
//@ struct PointCloud2D
//@ enditem
impl<P: Is2D> Listed<P> for PointCloud2D<P> { open spec fn list(&self) -> Seq<P> { self.data@ } }
/// derived
impl<P: Is2D + Clone> Clone for PointCloud2D<P> { fn clone(&self) -> (r: Self) ensures r.data@.len() == self.data@.len(), forall|i: int| 0 <= i < self.data@.len() ==> cloned(#[trigger] self.data@[i], r.data@[i]) { PointCloud2D { data: self.data.clone() } } }
//@ impl IsPushable for PointCloud2D
//@ fn push
//@ enditem
//@ impl PointCloud2D
//@ fn new
//@ ret r
//@ spec
        ensures r.data@ == Seq::<P>::empty(),
//@ fn reserve_vertices
//@ spec
        ensures final(self).data@ == old(self).data@,
//@ enditem
//@ impl IsSortableND for PointCloud2D
//@ ghost
    type Elem = P;
    open spec fn dims() -> int { 2 }
    open spec fn elements(&self) -> Seq<P> { self.data@ }
//@ fn n_dimensions
//@ fn sort_dim
//@ enditem
//@ impl IsSortable2D for PointCloud2D
//@ fn sort_x
//@ fn sort_y
//@ enditem
//@ impl IsMergeable for PointCloud2D
//@ ghost
    open spec fn merged(a: Self, b: Self, c: Self) -> bool { c.data@ == a.data@ + b.data@ }
    open spec fn copies() -> bool { clone_ok::<P>() }
//@ fn consume
//@ loop 0 iter it
//@ loop 0 inv
            invariant clone_ok::<P>(), it.seq() == other.data@, self.data@ == old(self).data@ + other.data@.take(it.index@ as int),
//@ loop 0 end
            proof { assert(other.data@.take(it.index@ + 1) =~= other.data@.take(it.index@ as int).push(other.data@[it.index@ as int])); assert(cloned(other.data@[it.index@ as int], self.data@.last())); assert(self.data@ =~= old(self).data@ + other.data@.take(it.index@ + 1)); }
//@ loop 0 after
        proof { assert(other.data@.take(other.data@.len() as int) =~= other.data@); }
//@ fn combine
//@ after `let mut result`
        proof { assert(result.data@ =~= self.data@); assert forall|o: PointCloud2D<P>| call_ensures(PointCloud2D::<P>::clone, (other,), o) implies #[trigger] o.data@ =~= other.data@ by { } }
//@ enditem
//@ file src/is_buildable_2d.rs
//@ trait IsBuildable2D
//@ header pub trait Parse2: IsBuildable2D
//@ fn parse default
//@ replace `text.split(" ").skip_empty_string()` => `parts_of(text, " ").into_iter()` ; see parts_of
//@ replace `f64::from_str` => `number_of` ; see number_of
//@ ret r
//@ spec
        ensures r.is_ok() == reads(text@, 2), r.is_ok() ==> read_to(text@, 2, r->Ok_0),
//@ start
        let ghost w = pieces(text@, " "@);
        proof { assert(reads(text@, 2) ==> f_parse(w[0]).is_some() && f_parse(w[1]).is_some()); }
//@ enditem
impl<T: IsBuildable2D> Parse2 for T {}
//@ file src/point_cloud_2d.rs
//@ impl IsRandomAccessible for PointCloud2D
//@ header impl<P: Is2D> PointCloud2D<P>
//@ fn len
//@ ret r
//@ spec
        ensures r == self.data@.len(),
//@ enditem
//@ impl PointCloud2D
//@ fn parse
//@ replace `text.split("\n").skip_empty_string()` => `parts_of(text, "\n")` ; see parts_of
//@ ret r
//@ spec
        ensures r.is_ok() == (pieces(text@, "\n"@).len() > 0 && forall|j: int| 0 <= j < pieces(text@, "\n"@).len() ==> reads(#[trigger] pieces(text@, "\n"@)[j], 2)),
            r.is_ok() ==> r->Ok_0.data@.len() == pieces(text@, "\n"@).len() && forall|j: int| 0 <= j < r->Ok_0.data@.len() ==> read_to(pieces(text@, "\n"@)[j], 2, #[trigger] r->Ok_0.data@[j]),
//@ loop 0 iter it
//@ loop 0 inv
            invariant it.seq().len() == pieces(text@, "\n"@).len(), forall|j: int| 0 <= j < it.seq().len() ==> (#[trigger] it.seq()[j])@ == pieces(text@, "\n"@)[j], pc.data@.len() == it.index@,
                forall|j: int| 0 <= j < it.index@ ==> reads(#[trigger] pieces(text@, "\n"@)[j], 2),
                forall|j: int| 0 <= j < it.index@ ==> read_to(pieces(text@, "\n"@)[j], 2, #[trigger] pc.data@[j]),
//@ enditem
//@ impl Into for PointCloud2D
//@ header impl<P: Is2D> PointCloud2D<P>
//@ fn into
//@ ret r
//@ spec
        ensures r@ == self.data@,
//@ enditem
//@ impl From for PointCloud2D
//@ header impl<P: Is2D> PointCloud2D<P>
//@ fn from
//@ ret r
//@ spec
        ensures r.data@ == data@,
//@ enditem
//@ file src/is_sortable_3d.rs
//@ trait IsSortable3D
//@ header pub trait IsSortable3D: IsSortableND
//@ fn sort_x
//@ spec
        requires numbers(old(self).elements(), 3),
        ensures sorted_by(old(self).elements(), final(self).elements(), 0),
//@ fn sort_y
//@ spec
        requires numbers(old(self).elements(), 3),
        ensures sorted_by(old(self).elements(), final(self).elements(), 1),
//@ fn sort_z
//@ spec
        requires numbers(old(self).elements(), 3),
        ensures sorted_by(old(self).elements(), final(self).elements(), 2),
//@ enditem
//@ file src/point_cloud_3d.rs
//@ struct PointCloud3D
//@ enditem
impl<P: Is3D> Listed<P> for PointCloud3D<P> { open spec fn list(&self) -> Seq<P> { self.data@ } }
/// derived
impl<P: Is3D + Clone> Clone for PointCloud3D<P> { fn clone(&self) -> (r: Self) ensures r.data@.len() == self.data@.len(), forall|i: int| 0 <= i < self.data@.len() ==> cloned(#[trigger] self.data@[i], r.data@[i]) { PointCloud3D { data: self.data.clone() } } }
//@ impl IsPushable for PointCloud3D
//@ fn push
//@ enditem
//@ impl PointCloud3D
//@ fn new
//@ ret r
//@ spec
        ensures r.data@ == Seq::<P>::empty(),
//@ fn reserve_vertices
//@ spec
        ensures final(self).data@ == old(self).data@,
//@ enditem
//@ impl IsSortableND for PointCloud3D
//@ ghost
    type Elem = P;
    open spec fn dims() -> int { 3 }
    open spec fn elements(&self) -> Seq<P> { self.data@ }
//@ fn n_dimensions
//@ fn sort_dim
//@ enditem
//@ impl IsSortable3D for PointCloud3D
//@ fn sort_x
//@ fn sort_y
//@ fn sort_z
//@ enditem
//@ impl IsMergeable for PointCloud3D
//@ ghost
    open spec fn merged(a: Self, b: Self, c: Self) -> bool { c.data@ == a.data@ + b.data@ }
    open spec fn copies() -> bool { clone_ok::<P>() }
//@ fn consume
//@ loop 0 iter it
//@ loop 0 inv
            invariant clone_ok::<P>(), it.seq() == other.data@, self.data@ == old(self).data@ + other.data@.take(it.index@ as int),
//@ loop 0 end
            proof { assert(other.data@.take(it.index@ + 1) =~= other.data@.take(it.index@ as int).push(other.data@[it.index@ as int])); assert(cloned(other.data@[it.index@ as int], self.data@.last())); assert(self.data@ =~= old(self).data@ + other.data@.take(it.index@ + 1)); }
//@ loop 0 after
        proof { assert(other.data@.take(other.data@.len() as int) =~= other.data@); }
//@ fn combine
//@ after `let mut result`
        proof { assert(result.data@ =~= self.data@); assert forall|o: PointCloud3D<P>| call_ensures(PointCloud3D::<P>::clone, (other,), o) implies #[trigger] o.data@ =~= other.data@ by { } }
//@ enditem
//@ impl PointCloud3D
//@ fn append_ra
//@ replace `ra[$1]` => `at_index(ra, $1)` ; see at_index
//@ spec
        requires clone_ok::<P>(),
        ensures final(self).data@ == old(self).data@ + ra.list(),
//@ loop 0 inv
            invariant clone_ok::<P>(), n == ra.list().len(), self.data@ == old(self).data@ + ra.list().take(i as int),
//@ loop 0 end
            proof { assert(ra.list().take(i + 1) =~= ra.list().take(i as int).push(ra.list()[i as int])); assert(cloned(ra.list()[i as int], self.data@.last())); assert(self.data@ =~= old(self).data@ + ra.list().take(i + 1)); }
//@ loop 0 after
        proof { assert(ra.list().take(n as int) =~= ra.list()); }
//@ enditem
//@ file src/is_buildable_3d.rs
//@ trait IsBuildable3D
//@ header pub trait Parse3: IsBuildable3D
//@ fn parse default
//@ replace `text.split(" ").skip_empty_string()` => `parts_of(text, " ").into_iter()` ; see parts_of
//@ replace `f64::from_str` => `number_of` ; see number_of
//@ ret r
//@ spec
        ensures r.is_ok() == reads(text@, 3), r.is_ok() ==> read_to(text@, 3, r->Ok_0),
//@ start
        let ghost w = pieces(text@, " "@);
        proof { assert(reads(text@, 3) ==> f_parse(w[0]).is_some() && f_parse(w[1]).is_some() && f_parse(w[2]).is_some()); }
//@ enditem
impl<T: IsBuildable3D> Parse3 for T {}
//@ file src/point_cloud_3d.rs
//@ impl IsRandomAccessible for PointCloud3D
//@ header impl<P: Is3D> PointCloud3D<P>
//@ fn len
//@ ret r
//@ spec
        ensures r == self.data@.len(),
//@ enditem
//@ impl PointCloud3D
//@ fn parse
//@ replace `text.split("\n").skip_empty_string()` => `parts_of(text, "\n")` ; see parts_of
//@ ret r
//@ spec
        ensures r.is_ok() == (pieces(text@, "\n"@).len() > 0 && forall|j: int| 0 <= j < pieces(text@, "\n"@).len() ==> reads(#[trigger] pieces(text@, "\n"@)[j], 3)),
            r.is_ok() ==> r->Ok_0.data@.len() == pieces(text@, "\n"@).len() && forall|j: int| 0 <= j < r->Ok_0.data@.len() ==> read_to(pieces(text@, "\n"@)[j], 3, #[trigger] r->Ok_0.data@[j]),
//@ loop 0 iter it
//@ loop 0 inv
            invariant it.seq().len() == pieces(text@, "\n"@).len(), forall|j: int| 0 <= j < it.seq().len() ==> (#[trigger] it.seq()[j])@ == pieces(text@, "\n"@)[j], pc.data@.len() == it.index@,
                forall|j: int| 0 <= j < it.index@ ==> reads(#[trigger] pieces(text@, "\n"@)[j], 3),
                forall|j: int| 0 <= j < it.index@ ==> read_to(pieces(text@, "\n"@)[j], 3, #[trigger] pc.data@[j]),
//@ enditem
//@ impl Into for PointCloud3D
//@ header impl<P: Is3D> PointCloud3D<P>
//@ fn into
//@ ret r
//@ spec
        ensures r@ == self.data@,
//@ enditem
//@ impl From for PointCloud3D
//@ header impl<P: Is3D> PointCloud3D<P>
//@ fn from
//@ ret r
//@ spec
        ensures r.data@ == data@,
//@ enditem
//@ file src/sphere.rs
//@ struct Sphere
//@ enditem
//@ file src/is_sphere_searchable.rs
//@ trait IsSphereSearchable
//@ header pub trait IsSphereSearchable<T>: Sized
//@ ghost
    spec fn within(&self, center: Point3D, radius: Positive) -> Seq<T>;
//@ fn in_sphere
//@ spec
        ensures final(result)@ == old(result)@ + self.within(sphere.center, sphere.radius),
//@ enditem
//@include filter.inc
//@ file src/filter_outlier_3d.rs
//@ struct FilterOutlier3D
//@ replace `cache: RefCell<Vec<P>>` => `cache: Vec<P>` ; a buffer, see buffer
//@ enditem
/// the buffer of the filter: any content (assumed: RefCell; not borrowed elsewhere)
#[verifier::external_body]
pub fn buffer<P>(v: &Vec<P>) -> (r: Vec<P>) { Vec::new() }
//@ impl FilterOutlier3D
//@ fn new
//@ replace `RefCell::default()` => `Vec::new()` ; see buffer
//@ ret r
//@ spec
        ensures r.search_distance == search_distance, r.min_neighbours == min_neighbours, r.searchable == searchable,
//@ enditem
//@ impl IsFilter for FilterOutlier3D
//@ ghost
    open spec fn allows(&self, p: &PSearch) -> bool { self.searchable.within(Point3D { x: p.at(0), y: p.at(1), z: p.at(2) }, self.search_distance).len() >= self.min_neighbours }
//@ fn is_allowed
//@ replace `self.cache.borrow_mut()` => `buffer(&self.cache)` ; see buffer
//@ enditem
//@ file src/bounding_box_3d.rs
//@ struct BoundingBox3D
//@ enditem
//@ impl BoundingBox3D
//@ fn min_p
//@ ret r
//@ spec
        ensures r == self.min,
//@ fn max_p
//@ ret r
//@ spec
        ensures r == self.max,
//@ enditem
pub open spec fn col3<P: Is3D>(s: Seq<P>, i: int) -> spec_fn(int) -> f64 { |j: int| s[j].at(i) }
/// smallest and largest coordinate
pub open spec fn least<P: Is3D>(s: Seq<P>, i: int) -> f64 { lo(col3(s, i), s.len() as int) }
pub open spec fn largest<P: Is3D>(s: Seq<P>, i: int) -> f64 { hi(col3(s, i), s.len() as int) }
pub open spec fn has_box<P: Is3D>(s: Seq<P>) -> bool { s.len() >= 2 && least(s, 0).ieee_lt(largest(s, 0)) && least(s, 1).ieee_lt(largest(s, 1)) && least(s, 2).ieee_lt(largest(s, 2)) }
//@ file src/point_cloud_3d.rs
//@ impl HasBoundingBox3DMaybe for PointCloud3D
//@ header impl<P: Is3D> PointCloud3D<P>
//@ fn bounding_box_maybe trusted
//@ ret r
//@ spec
        ensures r.is_some() == has_box(self.data@), r.is_some() ==> forall|i: int| 0 <= i < 3 ==> (#[trigger] r->0.min.at(i)) == least(self.data@, i) && r->0.max.at(i) == largest(self.data@, i),
//@ enditem
pub uninterp spec fn f_abs(x: f64) -> f64;
pub assume_specification [f64::abs](x: f64) -> (r: f64) ensures r == f_abs(x);
/// unsigned integers (restated: PrimInt and Unsigned of the num crate, their conversions are uninterpreted)
pub trait Units: Sized + Copy {
    spec fn top() -> Self;
    spec fn float(self) -> Option<f64>;
    spec fn of(x: f64) -> Option<Self>;
    fn max_value() -> (r: Self) ensures r == Self::top();
    fn to_f64(&self) -> (r: Option<f64>) ensures r == self.float();
    fn from(x: f64) -> (r: Option<Self>) ensures r == Self::of(x);
}
//@ file src/compressed_point_3d.rs
//@ struct CompressedPoint3D
//@ replace `T: Unsigned + PrimInt` => `T: Units` ; see Units
//@ enditem
//@ file src/compressed_point_cloud_3d.rs
//@ struct CompressedPointCloud3D
//@ replace `T: Unsigned + PrimInt` => `T: Units` ; see Units
//@ enditem
/// as many whole units, the last one for the largest value (and what rounding puts beyond)
pub open spec fn units<T: Units>(n: f64, most: f64) -> Option<T> { if most.ieee_le(n) { Some(T::top()) } else { T::of(n) } }
/// the size of a unit
pub open spec fn unit(lo: f64, hi: f64, most: f64) -> f64 { f_abs(hi.ieee_sub(lo)).ieee_div(most) }
/// the units of coordinate i of position j
pub open spec fn units_at<T: Units, P: Is3D>(s: Seq<P>, j: int, i: int) -> Option<T> { units(s[j].at(i).ieee_sub(least(s, i)).ieee_div(unit(least(s, i), largest(s, i), T::top().float()->0)), T::top().float()->0) }
pub open spec fn convertible<T: Units, P: Is3D>(s: Seq<P>, j: int) -> bool { units_at::<T, P>(s, j, 0).is_some() && units_at::<T, P>(s, j, 1).is_some() && units_at::<T, P>(s, j, 2).is_some() }
pub open spec fn compressed_to<T: Units, P: Is3D>(s: Seq<P>, j: int, c: CompressedPoint3D<T>) -> bool { units_at::<T, P>(s, j, 0) == Some(c.unitsx) && units_at::<T, P>(s, j, 1) == Some(c.unitsy) && units_at::<T, P>(s, j, 2) == Some(c.unitsz) }
//@ freefn to_units
//@ sigreplace `T: Unsigned + PrimInt` => `T: Units` ; see Units
//@ ret r
//@ spec
    ensures (match r { Ok(u) => Some(u), Err(_) => None }) == units::<T>(n, maxval),
//@ enditem
pub open spec fn in_range<T: Units>(c: CompressedPoint3D<T>) -> bool { c.unitsx.float().is_some() && c.unitsy.float().is_some() && c.unitsz.float().is_some() }
pub open spec fn restored<T: Units, P: Is3D>(z: CompressedPointCloud3D<T>, j: int, p: P) -> bool {
    p.at(0) == z.start.at(0).ieee_add(z.unitsizex.ieee_mul(z.data@[j].unitsx.float()->0)) && p.at(1) == z.start.at(1).ieee_add(z.unitsizey.ieee_mul(z.data@[j].unitsy.float()->0)) && p.at(2) == z.start.at(2).ieee_add(z.unitsizez.ieee_mul(z.data@[j].unitsz.float()->0))
}
//@ impl CompressedPointCloud3D
//@ header impl<T: Units> CompressedPointCloud3D<T>
//@ fn compress
//@ ret r
//@ spec
        ensures r.is_ok() == (has_box(pc.data@) && T::top().float().is_some() && forall|j: int| 0 <= j < pc.data@.len() ==> convertible::<T, P>(pc.data@, j)),
            r.is_ok() ==> r->Ok_0.data@.len() == pc.data@.len() && (forall|i: int| 0 <= i < 3 ==> #[trigger] r->Ok_0.start.at(i) == least(pc.data@, i))
                && r->Ok_0.unitsizex == unit(least(pc.data@, 0), largest(pc.data@, 0), T::top().float()->0) && r->Ok_0.unitsizey == unit(least(pc.data@, 1), largest(pc.data@, 1), T::top().float()->0) && r->Ok_0.unitsizez == unit(least(pc.data@, 2), largest(pc.data@, 2), T::top().float()->0)
                && forall|j: int| 0 <= j < pc.data@.len() ==> compressed_to(pc.data@, j, #[trigger] r->Ok_0.data@[j]),
//@ after `let bb`
        let ghost s = pc.data@;
        proof { assert(bb.min.at(0) == least(s, 0) && bb.min.at(1) == least(s, 1) && bb.min.at(2) == least(s, 2)); assert(bb.max.at(0) == largest(s, 0) && bb.max.at(1) == largest(s, 1) && bb.max.at(2) == largest(s, 2));
            fl::at(bb.max.x, bb.min.x); fl::at(bb.max.y, bb.min.y); fl::at(bb.max.z, bb.min.z); }
//@ loop 0 iter it
//@ loop 0 inv
            invariant s == pc.data@, it.seq().len() == s.len(), forall|j: int| 0 <= j < s.len() ==> *(#[trigger] it.seq()[j]) == s[j], data@.len() == it.index@, has_box(s), T::top().float() == Some(maxval), maxval == maxval,
                bb.min.at(0) == least(s, 0), bb.min.at(1) == least(s, 1), bb.min.at(2) == least(s, 2),
                unitsizex == unit(least(s, 0), largest(s, 0), maxval), unitsizey == unit(least(s, 1), largest(s, 1), maxval), unitsizez == unit(least(s, 2), largest(s, 2), maxval),
                forall|j: int| 0 <= j < it.index@ ==> compressed_to(s, j, #[trigger] data@[j]),
                forall|j: int| 0 <= j < it.index@ ==> convertible::<T, P>(s, j),
//@ loop 0 start
            proof { let j = it.index@ as int; assert(*p == s[j]); fl::at(s[j].at(0), bb.min.x); fl::at(s[j].at(1), bb.min.y); fl::at(s[j].at(2), bb.min.z); assert(convertible::<T, P>(s, j) == (units_at::<T, P>(s, j, 0).is_some() && units_at::<T, P>(s, j, 1).is_some() && units_at::<T, P>(s, j, 2).is_some())); }
//@ fn decompress
//@ ret r
//@ spec
        requires forall|j: int| 0 <= j < self.data@.len() ==> in_range(#[trigger] self.data@[j]),
        ensures r.data@.len() == self.data@.len(), forall|j: int| 0 <= j < self.data@.len() ==> restored(*self, j, #[trigger] r.data@[j]),
//@ loop 0 iter it
//@ loop 0 inv
            invariant it.seq().len() == self.data@.len(), forall|j: int| 0 <= j < self.data@.len() ==> *(#[trigger] it.seq()[j]) == self.data@[j], pc.data@.len() == it.index@,
                forall|j: int| 0 <= j < self.data@.len() ==> in_range(#[trigger] self.data@[j]),
                forall|j: int| 0 <= j < it.index@ ==> restored(*self, j, #[trigger] pc.data@[j]),
//@ loop 0 start
            proof { let j = it.index@ as int; assert(*p == self.data@[j]); assert(in_range(self.data@[j])); fl::at(self.start.x, self.unitsizex.ieee_mul(p.unitsx.float()->0)); fl::at(self.start.y, self.unitsizey.ieee_mul(p.unitsy.float()->0)); fl::at(self.start.z, self.unitsizez.ieee_mul(p.unitsz.float()->0));
                fl::at(self.unitsizex, p.unitsx.float()->0); fl::at(self.unitsizey, p.unitsy.float()->0); fl::at(self.unitsizez, p.unitsz.float()->0); }
//@ enditem
} fn main() {}

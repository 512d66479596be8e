#![allow(warnings)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::io::{BufRead, Error as ioError, Read};
use std::fmt;
use std::str::FromStr;
use std::marker::PhantomData;
verus! {
//@include float.inc
broadcast use vstd::seq_lib::group_seq_properties;
global size_of usize == 8;
//@include build.inc
//@include stream.inc
//@include bufread.inc
//@include lines.inc
//@include text.inc
//@include push.inc
//@include deliver.inc
//@include load3.inc
//@include point_of3.inc
//@include reserve.inc
//@ file src/matrix4.rs
//@ struct Matrix4
//@ enditem
pub open spec fn unit(i: int, j: int) -> f64 { if i == j { 1.0 } else { 0.0 } }
//@ impl Matrix4
//@ fn identity
//@ ret r
//@ spec
        ensures forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 ==> #[trigger] rows_of(r)[i][j] == unit(i, j),
//@ enditem
pub open spec fn rows_of(m: Matrix4) -> Seq<Seq<f64>> { seq![m.data@[0]@, m.data@[1]@, m.data@[2]@, m.data@[3]@] }
pub open spec fn is_unit(m: Seq<Seq<f64>>) -> bool { forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 ==> (#[trigger] m[i][j]).ieee_eq(unit(i, j)) }
/// `a != b`, the derived comparison of the nested arrays (assumed: the compiler's derive)
#[verifier::external_body]
pub fn differs(a: &Matrix4, b: &Matrix4) -> (r: bool) ensures !r == (forall|i: int, j: int| 0 <= i < 4 && 0 <= j < 4 ==> (#[trigger] rows_of(*a)[i][j]).ieee_eq(rows_of(*b)[i][j])) { unimplemented!() }
//@ file src/is_matrix4_transformable.rs
//@ trait IsMatrix4Transformable
//@ header pub trait IsMatrix4Transformable: Sized
//@ ghost
    /// b is a, transformed by m
    spec fn moved(a: Self, m: Seq<Seq<f64>>, b: Self) -> bool;
//@ fn transformed
//@ ret r
//@ spec
        ensures Self::moved(*self, rows_of(*m), r),
//@ fn transform
//@ spec
        ensures Self::moved(*old(self), rows_of(*m), *final(self)),
//@ enditem
/// a point, and the matrix it is to be transformed by, if any
pub struct TP { pub v: V3, pub m: Option<Seq<Seq<f64>>> }
pub open spec fn from_raw<P: Coords + IsMatrix4Transformable>(a: P, v: V3, m: Seq<Seq<f64>>, p: P) -> bool { v3(a, v) && P::moved(a, m, p) }
pub open spec fn tp<P: Coords + IsMatrix4Transformable>(v: V3, m: Option<Seq<Seq<f64>>>, p: P) -> bool { if m is None { v3(p, v) } else { from_some_raw(v, m->0, p) } }
pub open spec fn from_some_raw<P: Coords + IsMatrix4Transformable>(v: V3, m: Seq<Seq<f64>>, p: P) -> bool { exists|a: P| #[trigger] from_raw(a, v, m, p) }
pub proof fn tp_intro<P: Coords + IsMatrix4Transformable>(a: P, v: V3, m: Seq<Seq<f64>>, p: P) requires from_raw(a, v, m, p) ensures tp(v, Some(m), p) { }
impl<P: Coords + IsMatrix4Transformable> Described<P> for TP { open spec fn is(self, p: P) -> bool { tp(self.v, self.m, p) } }
pub open spec fn row(l: Seq<u8>) -> Option<(f64, f64, f64, f64)> { let w = words(l); if w.len() >= 4 && f(w[0]) is Some && f(w[1]) is Some && f(w[2]) is Some && f(w[3]) is Some { Some((f(w[0])->0, f(w[1])->0, f(w[2])->0, f(w[3])->0)) } else { None } }
pub open spec fn cells(r: (f64, f64, f64, f64)) -> Seq<f64> { seq![r.0, r.1, r.2, r.3] }
/// what is left after k lines
pub open spec fn after(s: Seq<u8>, k: nat) -> Seq<u8> decreases k { if k == 0 { s } else { rest(after(s, (k - 1) as nat)) } }
pub proof fn after_is_shorter(s: Seq<u8>, k: nat) ensures after(s, k).len() <= s.len(), after(s, k).len() > 0 ==> after(s, k).len() + k <= s.len() decreases k { if k > 0 { after_is_shorter(s, (k - 1) as nat); upto_bounds(after(s, (k - 1) as nat), 10); } }
/// a header after its first line: rows, four lines of scanner positions, the matrix
pub open spec fn header(s: Seq<u8>, columns: usize) -> Option<int> {
    let rows = parse::<usize>(line(s));
    if rows is Some && rows->0 * columns <= usize::MAX && after(s, 8).len() > 0 && row(line(after(s, 5))) is Some && row(line(after(s, 6))) is Some && row(line(after(s, 7))) is Some && row(line(after(s, 8))) is Some { Some(rows->0 * columns) } else { None }
}
pub open spec fn the_matrix(s: Seq<u8>) -> Seq<Seq<f64>> { seq![cells(row(line(after(s, 5)))->0), cells(row(line(after(s, 6)))->0), cells(row(line(after(s, 7)))->0), cells(row(line(after(s, 8)))->0)] }
/// blocks of columns, header, points. missing: points still expected in this block, m: its matrix, if it is not the identity
pub open spec fn content(s: Seq<u8>, missing: int, m: Option<Seq<Seq<f64>>>) -> (Seq<TP>, bool) decreases s.len() via content_ends {
    if missing <= 0 {
        if s.len() == 0 { (Seq::empty(), true) }
        else { let columns = parse::<usize>(line(s)); let t = rest(s);
            if columns is None || header(t, columns->0) is None { (Seq::empty(), false) }
            else { content(after(t, 9), header(t, columns->0)->0, if is_unit(the_matrix(t)) { None } else { Some(the_matrix(t)) }) } }
    }
    else if s.len() == 0 || point_of(words(line(s))) is None { (Seq::empty(), false) }
    else { let c = content(rest(s), missing - 1, m); (seq![TP { v: point_of(words(line(s)))->0, m: m }] + c.0, c.1) }
}
#[via_fn] proof fn content_ends(s: Seq<u8>, missing: int, m: Option<Seq<Seq<f64>>>) { rest_is_shorter(s); after_is_shorter(rest(s), 9); }
//@ file src/io/ptx.rs
//@ enum PtxError
//@ enditem
pub type PtxIOResult<T> = IOResult<T, PtxError>;
type PtxResult<T> = std::result::Result<T, PtxError>;
impl vstd::std_specs::convert::FromSpecImpl<FetchLineError> for PtxError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: FetchLineError) -> Self { PtxError::LoadFileEndReached } }
//@ impl From<FetchLineError> for PtxError
//@ fn from
//@ enditem
impl vstd::std_specs::convert::FromSpecImpl<WithLineInfo<FetchLineError>> for WithLineInfo<PtxError> { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(e: WithLineInfo<FetchLineError>) -> Self { arbitrary() } }
//@ impl From<WithLineInfo<FetchLineError>> for WithLineInfo<PtxError>
//@ fn from
//@ enditem
//@ freefn read_matrix_row
//@ ret r
//@ start
    broadcast use wd::next_word;
//@ spec
    ensures r is Some == (row(line@) is Some), r is Some ==> r->0@ == cells(row(line@)->0),
//@ enditem
//@ struct PtxIterator
//@ attrs
#[verifier::reject_recursive_types(P)]
//@ enditem
impl<P: IsBuildable3D + IsMatrix4Transformable, R: BufRead> PtxIterator<P, R> {
    /// reading fails only at the end of the stream; line numbers are representable
    pub closed spec fn good(&self) -> bool { self.read.reliable() && self.i_line + self.read.left().len() <= usize::MAX }
    pub closed spec fn left(&self) -> (Seq<TP>, bool) { if self.is_done { (Seq::empty(), true) } else { content(self.read.left(), self.n_points_to_fetch as int, if self.must_transform { Some(rows_of(self.transformation)) } else { None }) } }
    pub closed spec fn size(&self) -> nat { if self.is_done { 0 } else { self.read.left().len() + 1 } }
}
//@ impl PtxIterator
//@ fn new
//@ ret r
//@ spec
        requires read.reliable(), read.left().len() <= usize::MAX,
        ensures r.good(), r.left() == content(read.left(), 0, None),
//@ fn fetch_one
//@ ret r
//@ replace `.and_then(|w| from_ascii(w))` => `.and_then(|w: &[u8]| -> (o: Option<f64>) ensures o == parse::<f64>(w@) { from_ascii(w) })` ; contract on the closure
//@ start
        broadcast use wd::next_word;
        let ghost wl = words(line@);
//@ spec
        ensures r.is_ok() == (point_of(words(line@)) is Some), r.is_ok() ==> (TP { v: point_of(words(line@))->0, m: if must_transform { Some(rows_of(*transformation)) } else { None } }).is(r->Ok_0),
//@ before `if must_transform`
        let ghost raw = p;
//@ tail
        proof { assert(point_of(wl)->0.is(raw)); if must_transform { assert(from_raw(raw, point_of(wl)->0, rows_of(*transformation), p)); tp_intro(raw, point_of(wl)->0, rows_of(*transformation), p); } else { assert(p == raw); } }
//@ fn fetch_header
//@ ret r
//@ replace `let [m11, m12, m13, m14] =` => `let m1__ =` ; array pattern
//@ replace `let [m21, m22, m23, m24] =` => `let m2__ =` ; array pattern
//@ replace `let [m31, m32, m33, m34] =` => `let m3__ =` ; array pattern
//@ replace `let [m41, m42, m43, m44] =` => `let m4__ =` ; array pattern
//@ replace `[[m11, m12, m13, m14], [m21, m22, m23, m24], [m31, m32, m33, m34], [m41, m42, m43, m44],]` => `[m1__, m2__, m3__, m4__]` ; see above
//@ replace `self.transformation != Matrix4::identity()` => `differs(&self.transformation, &Matrix4::identity())` ; see differs
//@ start
        let ghost s = self.read.left();
        proof { reveal_with_fuel(after, 10); after_is_shorter(s, 1); after_is_shorter(s, 2); after_is_shorter(s, 3); after_is_shorter(s, 4); after_is_shorter(s, 5); after_is_shorter(s, 6); after_is_shorter(s, 7); after_is_shorter(s, 8); upto_bounds(s, 10); upto_bounds(after(s, 8), 10); }
//@ spec
        requires old(self).good(),
        ensures final(self).is_done == old(self).is_done, r.is_ok() == (header(old(self).read.left(), columns) is Some), 
            r.is_ok() ==> final(self).good() && final(self).read.left() == after(old(self).read.left(), 9) && final(self).n_points_to_fetch == header(old(self).read.left(), columns)->0 && rows_of(final(self).transformation) == the_matrix(old(self).read.left()) && final(self).must_transform == !is_unit(rows_of(final(self).transformation)),
//@ enditem
//@ impl Iterator for PtxIterator
//@ header impl<P: IsBuildable3D + IsMatrix4Transformable, R: BufRead> PtxIterator<P, R>
//@ fn next
//@ ret r
//@ sigreplace `Option<Self::Item>` => `Option<PtxIOResult<DataReserve<P>>>` ; associated type of the dropped trait header
//@ replace `.map(|x| DataReserve::Data(x))` => `.map(|x: P| -> (o: DataReserve<P>) ensures o == DataReserve::Data(x) { DataReserve::Data(x) })` ; contract on the closure
//@ replace `match $1.and_then(|columns| self.fetch_header(columns))` => `match (match $1 { Ok(columns) => self.fetch_header(columns), Err(e) => Err(e) })` ; closure writing to a captured variable
//@ spec
        requires old(self).good(),
        ensures r is Some && r->0 is Ok ==> final(self).good() && final(self).size() < old(self).size(),
            match r {
                None => old(self).left() == (Seq::<TP>::empty(), true) && final(self).left() == old(self).left(),
                Some(Ok(DataReserve::Reserve(n))) => final(self).left() == old(self).left(),
                Some(Ok(DataReserve::Data(p))) => old(self).left().0.len() > 0 && old(self).left().0[0].is(p) && final(self).left() == (old(self).left().0.skip(1), old(self).left().1),
                Some(Err(e)) => old(self).left() == (Seq::<TP>::empty(), false),
            },
//@ start
        proof { let s = self.read.left(); let m = if self.must_transform { Some(rows_of(self.transformation)) } else { None }; rest_is_shorter(s); after_is_shorter(rest(s), 9); let c = content(rest(s), self.n_points_to_fetch - 1, m); let e = TP { v: point_of(words(line(s)))->0, m: m }; assert((seq![e] + c.0).skip(1) == c.0); }
//@ enditem
//@ freefn load_ptx
//@ ret r
//@ replace `for rd in iterator` => `let mut iterator = iterator; while let Some(rd) = iterator.next()` ; desugared for loop over the library's own iterator
//@ spec
    requires read.reliable(), read.left().len() <= usize::MAX,
    ensures r.is_ok() == content(read.left(), 0, None).1, appended(old(ip).list(), final(ip).list(), content(read.left(), 0, None).0),
//@ start
    let ghost all = content(read.left(), 0, None);
    let ghost before = ip.list();
//@ loop 0 before
    proof { delivered_start(before, all); }
    let ghost mut now = all;
    let ghost mut size = iterator.size();
//@ loop 0 inv
        invariant_except_break now == iterator.left(), iterator.good(), size == iterator.size(),
        invariant all == content(read.left(), 0, None), before == old(ip).list(), delivered(before, ip.list(), all, now),
        ensures now == (Seq::<TP>::empty(), true),
        decreases size,
//@ loop 0 start
        proof { size = iterator.size(); if rd is Ok && rd->Ok_0 is Data { delivered_step(before, ip.list(), rd->Ok_0->Data_0, all, now, iterator.left()); now = iterator.left(); } else if rd is Err { delivered_end(before, ip.list(), all, now); } }
//@ loop 0 after
    proof { delivered_end(before, ip.list(), all, now); }
//@ enditem
fn main() {}
}

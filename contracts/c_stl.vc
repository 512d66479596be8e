#![allow(warnings)]
use vstd::prelude::*;
use vstd::float::FloatBitsProperties;
use vstd::std_specs::iter::*;
use std::io::{BufRead, Error as ioError, Read, Result as iRes};
use std::fmt;
use std::str::FromStr;
use std::marker::PhantomData;
use std::convert::TryInto;
verus! {
//@include float.inc
//@include float32.inc
broadcast use vstd::seq_lib::group_seq_properties;
//@include base.inc
global size_of f32 == 4;
global size_of f64 == 8;
//@include mesh_trait.inc
//@include mesh_edit.inc
//@include build.inc
//@include stream.inc
//@include bufread.inc
//@include bytes.inc
//@include bin.inc
//@include frombytes.inc
//@include lines.inc
//@include text.inc
//@include push.inc
//@include deliver.inc
//@include load3.inc
//@include meshload.inc
//@include literals.inc
//@include reserve.inc
/// a triangle of the file: three corners and the normal
pub struct Facet { pub a: V3, pub b: V3, pub c: V3, pub n: V3 }
impl<P: Coords> Described<StlFace<P>> for Facet { open spec fn is(self, p: StlFace<P>) -> bool { v3(p.a, self.a) && v3(p.b, self.b) && v3(p.c, self.c) && v3(p.n, self.n) } }
/// three numbers from offset i
pub open spec fn v3_at(s: Seq<u8>, i: int) -> V3 { V3 { x: fl32::up(f32_at(false, s, i)), y: fl32::up(f32_at(false, s, i + 4)), z: fl32::up(f32_at(false, s, i + 8)) } }
pub open spec fn triangle_at(s: Seq<u8>) -> Facet { Facet { n: v3_at(s, 0), a: v3_at(s, 12), b: v3_at(s, 24), c: v3_at(s, 36) } }
/// n triangles of 50 bytes
pub open spec fn triangles(s: Seq<u8>, n: int) -> (Seq<Facet>, bool) decreases n {
    if n <= 0 { (Seq::empty(), true) }
    else if s.len() < 50 { (Seq::empty(), false) }
    else { let c = triangles(s.skip(50), n - 1); (seq![triangle_at(s)] + c.0, c.1) }
}
/// 75 bytes, the number of triangles, the triangles
pub open spec fn binary(s: Seq<u8>) -> (Seq<Facet>, bool) {
    if s.len() < 79 || u32_at(false, s, 75) > 1_000_000_000 { (Seq::empty(), false) } else { triangles(s.skip(79), u32_at(false, s, 75) as int) }
}
pub open spec fn vertex_of(w: Seq<Seq<u8>>) -> Option<V3> { if w.len() >= 4 && f(w[1]) is Some && f(w[2]) is Some && f(w[3]) is Some { Some(V3 { x: f(w[1])->0, y: f(w[2])->0, z: f(w[3])->0 }) } else { None } }
pub open spec fn normal_of(w: Seq<Seq<u8>>) -> Option<V3> { if w.len() >= 5 && f(w[2]) is Some && f(w[3]) is Some && f(w[4]) is Some { Some(V3 { x: f(w[2])->0, y: f(w[3])->0, z: f(w[4])->0 }) } else { None } }
/// what the next lines of a text file are
pub enum Step { End, Bad, Next(Facet, Seq<u8>) }
pub open spec fn lead(s: Seq<u8>) -> Seq<u8> { left_trimmed(line(s)) }
/// lines: facet [normal], outer loop, three vertices, endloop, endfacet; ended by endsolid or the end of the file
pub open spec fn facet_at(s0: Seq<u8>) -> Step {
    let s1 = rest(s0); let s2 = rest(s1); let s3 = rest(s2); let s4 = rest(s3); let s5 = rest(s4); let s6 = rest(s5);
    if s0.len() == 0 || begins(lead(s0), seq![101u8, 110, 100, 115, 111, 108, 105, 100]) { Step::End }
    else if !begins(lead(s0), seq![102u8, 97, 99, 101, 116]) { Step::Bad }
    else if s1.len() == 0 { Step::End }
    else if !begins(lead(s1), seq![111u8, 117, 116, 101, 114, 32, 108, 111, 111, 112]) { Step::Bad }
    else if s2.len() == 0 { Step::End }
    else if vertex_of(words(line(s2))) is None { Step::Bad }
    else if s3.len() == 0 { Step::End }
    else if vertex_of(words(line(s3))) is None { Step::Bad }
    else if s4.len() == 0 { Step::End }
    else if vertex_of(words(line(s4))) is None { Step::Bad }
    else if s5.len() == 0 { Step::End }
    else if !begins(lead(s5), seq![101u8, 110, 100, 108, 111, 111, 112]) { Step::Bad }
    else if s6.len() == 0 { Step::End }
    else if !begins(lead(s6), seq![101u8, 110, 100, 102, 97, 99, 101, 116]) { Step::Bad }
    else { Step::Next(Facet { a: vertex_of(words(line(s2)))->0, b: vertex_of(words(line(s3)))->0, c: vertex_of(words(line(s4)))->0, n: facet_normal(words(lead(s0))) }, rest(s6)) }
}
/// upwards where the file has no readable normal
pub open spec fn facet_normal(w: Seq<Seq<u8>>) -> V3 { match normal_of(w) { Some(n) => n, None => V3 { x: 0.0f64, y: 0.0f64, z: 1.0f64 } } }
pub open spec fn facets(s: Seq<u8>) -> (Seq<Facet>, bool) decreases s.len() via facets_end {
    match facet_at(s) { Step::End => (Seq::empty(), true), Step::Bad => (Seq::empty(), false), Step::Next(x, r) => { let c = facets(r); (seq![x] + c.0, c.1) } }
}
pub proof fn facet_is_shorter(s: Seq<u8>) ensures facet_at(s) is Next ==> facet_at(s)->Next_1.len() < s.len() { let s1 = rest(s); let s2 = rest(s1); let s3 = rest(s2); let s4 = rest(s3); let s5 = rest(s4); let s6 = rest(s5); rest_is_shorter(s); rest_is_shorter(s1); rest_is_shorter(s2); rest_is_shorter(s3); rest_is_shorter(s4); rest_is_shorter(s5); rest_is_shorter(s6); }
#[via_fn] proof fn facets_end(s: Seq<u8>) { facet_is_shorter(s); }
/// the first five bytes and the wish of the caller decide about the format
pub open spec fn file(s: Seq<u8>, format: StlFormat) -> (Seq<Facet>, bool) {
    if s.len() < 5 { (Seq::empty(), false) }
    else if format is Ascii || (format is Auto && s.take(5) == seq![115u8, 111, 108, 105, 100]) { facets(rest(s.skip(5))) }
    else { binary(s.skip(5)) }
}
//@ file src/io/stl.rs
//@ const MAX_TRIANGLES_BINARY
//@ enditem
//@ struct StlFace
//@ attrs
//@ enditem
//@ struct StlTriangle
//@ attrs
//@ enditem
//@ enum StlFormat
//@ attrs
#[derive(Copy, Clone)]
//@ enditem
//@ enum StlError
//@ enditem
pub type StlResult<T> = std::result::Result<T, StlError>;
pub type StlIOResult<T> = IOResult<T, StlError>;
impl vstd::std_specs::convert::FromSpecImpl<ioError> for StlError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ioError) -> Self { StlError::AccessFile } }
//@ impl From<ioError> for StlError
//@ fn from
//@ enditem
impl vstd::std_specs::convert::FromSpecImpl<FromBytesError> for StlError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: FromBytesError) -> Self { StlError::BinaryData } }
//@ impl From<FromBytesError> for StlError
//@ fn from
//@ enditem
impl vstd::std_specs::convert::FromSpecImpl<FetchLineError> for StlError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: FetchLineError) -> Self { StlError::LoadFileEndReached } }
//@ impl From<FetchLineError> for StlError
//@ fn from
//@ enditem
impl vstd::std_specs::convert::FromSpecImpl<WithLineInfo<ioError>> for WithLineInfo<StlError> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: WithLineInfo<ioError>) -> Self { match e { WithLineInfo::None(x) => WithLineInfo::None(StlError::AccessFile), WithLineInfo::Index(i, x) => WithLineInfo::Index(i, StlError::AccessFile), WithLineInfo::Line(i, l, x) => WithLineInfo::Line(i, l, StlError::AccessFile) } } }
//@ impl From<WithLineInfo<ioError>> for WithLineInfo<StlError>
//@ fn from
//@ enditem
impl vstd::std_specs::convert::FromSpecImpl<WithLineInfo<FetchLineError>> for WithLineInfo<StlError> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: WithLineInfo<FetchLineError>) -> Self { match e { WithLineInfo::None(x) => WithLineInfo::None(StlError::LoadFileEndReached), WithLineInfo::Index(i, x) => WithLineInfo::Index(i, StlError::LoadFileEndReached), WithLineInfo::Line(i, l, x) => WithLineInfo::Line(i, l, StlError::LoadFileEndReached) } } }
//@ impl From<WithLineInfo<FetchLineError>> for WithLineInfo<StlError>
//@ fn from
//@ enditem
/// `"solid".as_bytes()` (assumed: std)
#[verifier::external_body]
pub fn solid_bytes() -> (r: &'static [u8]) ensures r@ == seq![115u8, 111, 108, 105, 100] { "solid".as_bytes() }
//@ freefn is_ascii
//@ ret r
//@ replace `"solid".as_bytes()` => `solid_bytes()` ; see solid_bytes
//@ spec
    requires (*old(read)).reliable(),
    ensures (*final(read)).reliable(), r.is_ok() == ((*old(read)).left().len() >= 5), r.is_ok() ==> (*final(read)).left() == (*old(read)).left().skip(5) && r->Ok_0 == (format is Ascii || (format is Auto && (*old(read)).left().take(5) == seq![115u8, 111, 108, 105, 100])),
//@ loop 0 inv
        invariant solid@ == seq![115u8, 111, 108, 105, 100], result == (forall|j: int| 0 <= j < i ==> buffer@[j] == solid@[j]), solid@.len() == 5,
//@ loop 0 after
    proof { assert((buffer@ =~= solid@) == (forall|j: int| 0 <= j < 5 ==> buffer@[j] == solid@[j])); }
//@ enditem
/// `&b[r]` (assumed: std)
#[verifier::external_body]
pub fn range<'a, const N: usize>(b: &'a [u8; N], r: std::ops::Range<usize>) -> (o: &'a [u8]) requires r.start <= r.end <= N ensures o@ == b@.subrange(r.start as int, r.end as int) { &b[r] }
/// three coordinates as read from the file
pub open spec fn wide(t: [f32; 3]) -> V3 { V3 { x: fl32::up(t@[0]), y: fl32::up(t@[1]), z: fl32::up(t@[2]) } }
//@ freefn read_stl_triangle
//@ ret r
//@ replace `array_from_bytes_le!($1, $2, &buffer[$3])?` => `array_from_bytes_le::<$1, $2>(range(&buffer, $3))?` ; the macro as a function (C16)
//@ start
    broadcast use sk::ax;
//@ spec
    requires (*old(read)).reliable(),
    ensures (*final(read)).reliable(), r.is_ok() == ((*old(read)).left().len() >= 50), r.is_ok() ==> (*final(read)).left() == (*old(read)).left().skip(50)
        && triangle_at((*old(read)).left()) == (Facet { n: wide(r->Ok_0.n), a: wide(r->Ok_0.x), b: wide(r->Ok_0.y), c: wide(r->Ok_0.z) }),
//@ enditem
//@ struct StlBinaryIterator
//@ attrs
#[verifier::reject_recursive_types(P)]
//@ enditem
impl<P: IsBuildable3D, R: Read> StlBinaryIterator<P, R> {
    pub closed spec fn good(&self) -> bool { self.read.reliable() && self.current <= self.n_triangles <= 1_000_000_000 && (!self.header_read ==> self.current == 0) }
    pub closed spec fn left(&self) -> (Seq<Facet>, bool) { if self.is_done { (Seq::empty(), true) } else if !self.header_read { binary(self.read.left()) } else { triangles(self.read.left(), self.n_triangles - self.current) } }
    pub closed spec fn size(&self) -> nat { if self.is_done { 0 } else { self.read.left().len() + 1 } }
}
//@ impl StlBinaryIterator
//@ fn new
//@ ret r
//@ spec
        requires read.reliable(),
        ensures r.good(), r.left() == binary(read.left()),
//@ enditem
//@ impl Iterator for StlBinaryIterator
//@ header impl<P: IsBuildable3D, R: Read> StlBinaryIterator<P, R>
//@ fn next
//@ ret r
//@ sigreplace `Option<Self::Item>` => `Option<StlIOResult<DataReserve<StlFace<P>>>>` ; associated type of the dropped trait header
//@ start
        broadcast use {sk::ax, fl32::ax};
        proof { let s = self.read.left(); let c = triangles(s.skip(50), self.n_triangles - self.current - 1); assert((seq![triangle_at(s)] + c.0).skip(1) == c.0); }
//@ spec
        requires old(self).good(),
        ensures final(self).good(), r is Some ==> final(self).size() < old(self).size(),
            match r {
                None => old(self).left() == (Seq::<Facet>::empty(), true) && final(self).left() == old(self).left(),
                Some(Ok(DataReserve::Reserve(n))) => final(self).left() == old(self).left() && n <= 1_000_000_000,
                Some(Ok(DataReserve::Data(p))) => old(self).left().0.len() > 0 && old(self).left().0[0].is(p) && final(self).left() == (old(self).left().0.skip(1), old(self).left().1),
                Some(Err(e)) => old(self).left() == (Seq::<Facet>::empty(), false) && final(self).left() == (Seq::<Facet>::empty(), true),
            },
//@ enditem
//@ freefn read_stl_vertex
//@ ret r
//@ start
    broadcast use wd::next_word;
//@ spec
    ensures r.is_some() == (vertex_of(words(line@)) is Some), r.is_some() ==> v3(r->0, vertex_of(words(line@))->0),
//@ enditem
//@ freefn read_stl_normal
//@ ret r
//@ start
    broadcast use wd::next_word;
//@ spec
    ensures r.is_some() == (normal_of(words(line@)) is Some), r.is_some() ==> v3(r->0, normal_of(words(line@))->0),
//@ enditem
//@ freefn read_stl_facet
//@ fattrs
#[verifier::spinoff_prover]
#[verifier::rlimit(100)]
//@ ret r
//@ replace `line.starts_with($1)` => `starts_with(line, $1)` ; see starts_with
//@ spec
    requires (*old(read)).reliable(), *old(i_line) + (*old(read)).left().len() <= usize::MAX,
    ensures (*final(read)).reliable(), *final(i_line) + (*final(read)).left().len() <= usize::MAX,
        match r {
            Ok(x) => facet_at((*old(read)).left()) is Next && v3(x[0], facet_at((*old(read)).left())->Next_0.a) && v3(x[1], facet_at((*old(read)).left())->Next_0.b) && v3(x[2], facet_at((*old(read)).left())->Next_0.c) && v3(x[3], facet_at((*old(read)).left())->Next_0.n)
                && (*final(read)).left() == facet_at((*old(read)).left())->Next_1,
            Err(e) => if cause(e) is LoadFileEndReached { facet_at((*old(read)).left()) is End } else { facet_at((*old(read)).left()) is Bad },
        },
//@ start
    broadcast use ax_question_mark;
    let ghost s0 = (*read).left(); let ghost s1 = rest(s0); let ghost s2 = rest(s1); let ghost s3 = rest(s2); let ghost s4 = rest(s3); let ghost s5 = rest(s4); let ghost s6 = rest(s5);
    proof { rest_is_shorter(s0); rest_is_shorter(s1); rest_is_shorter(s2); rest_is_shorter(s3); rest_is_shorter(s4); rest_is_shorter(s5); rest_is_shorter(s6); }
//@ enditem
/// the elements of an array (assumed: std)
#[verifier::external_body]
pub fn array4<P>(x: [P; 4]) -> (r: (P, P, P, P)) ensures r.0 == x[0], r.1 == x[1], r.2 == x[2], r.3 == x[3] { let [a, b, c, d] = x; (a, b, c, d) }
//@ struct StlAsciiIterator
//@ attrs
#[verifier::reject_recursive_types(P)]
//@ enditem
impl<P: IsBuildable3D, R: BufRead> StlAsciiIterator<P, R> {
    /// reading fails only at the end of the stream; line numbers are representable
    pub closed spec fn good(&self) -> bool { self.read.reliable() && self.i_line + (if self.header_read { 0int } else { 1 }) + self.read.left().len() <= usize::MAX }
    pub closed spec fn left(&self) -> (Seq<Facet>, bool) { if self.is_done { (Seq::empty(), true) } else if self.header_read { facets(self.read.left()) } else { facets(rest(self.read.left())) } }
    pub closed spec fn size(&self) -> nat { if self.is_done { 0 } else { self.read.left().len() + 1 } }
}
//@ impl StlAsciiIterator
//@ fn new
//@ ret r
//@ spec
        requires read.reliable(), read.left().len() < usize::MAX,
        ensures r.good(), r.left() == facets(rest(read.left())),
//@ enditem
//@ impl Iterator for StlAsciiIterator
//@ header impl<P: IsBuildable3D, R: BufRead> StlAsciiIterator<P, R>
//@ fn next
//@ ret r
//@ sigreplace `Option<Self::Item>` => `Option<StlIOResult<DataReserve<StlFace<P>>>>` ; associated type of the dropped trait header
//@ replace `Ok([a, b, c, n]) => return $1,` => `Ok(x__) => { let (a, b, c, n) = array4(x__); return $1 }` ; see array4
//@ start
        proof { let s = self.read.left(); rest_is_shorter(s); let s = if self.header_read { s } else { rest(s) }; facet_is_shorter(s); let c = facets(facet_at(s)->Next_1); assert((seq![facet_at(s)->Next_0] + c.0).skip(1) == c.0); }
//@ spec
        requires old(self).good(),
        ensures final(self).good(), r is Some ==> final(self).size() < old(self).size(),
            match r {
                None => old(self).left() == (Seq::<Facet>::empty(), true) && final(self).left() == (Seq::<Facet>::empty(), true),
                Some(Ok(DataReserve::Reserve(n))) => final(self).left() == old(self).left() && n <= 1_000_000_000,
                Some(Ok(DataReserve::Data(p))) => old(self).left().0.len() > 0 && old(self).left().0[0].is(p) && final(self).left() == (old(self).left().0.skip(1), old(self).left().1),
                Some(Err(e)) => old(self).left() == (Seq::<Facet>::empty(), false) && final(self).left() == (Seq::<Facet>::empty(), true),
            },
//@ enditem
//@ enum BinaryOrAsciiIterator
//@ attrs
#[verifier::reject_recursive_types(P)]
//@ enditem
//@ struct StlIterator
//@ attrs
#[verifier::reject_recursive_types(P)]
//@ enditem
impl<P: IsBuildable3D, R: BufRead> StlIterator<P, R> {
    pub closed spec fn good(&self) -> bool { match self.inner { BinaryOrAsciiIterator::Binary(x) => x.good(), BinaryOrAsciiIterator::Ascii(x) => x.good() } }
    pub closed spec fn left(&self) -> (Seq<Facet>, bool) { match self.inner { BinaryOrAsciiIterator::Binary(x) => x.left(), BinaryOrAsciiIterator::Ascii(x) => x.left() } }
    pub closed spec fn size(&self) -> nat { match self.inner { BinaryOrAsciiIterator::Binary(x) => x.size(), BinaryOrAsciiIterator::Ascii(x) => x.size() } }
}
//@ impl StlIterator
//@ fn new
//@ ret r
//@ spec
        requires read.reliable(), read.left().len() < usize::MAX,
        ensures match r { Ok(x) => x.good() && x.left() == file(read.left(), format), Err(e) => file(read.left(), format) == (Seq::<Facet>::empty(), false) },
//@ enditem
//@ impl Iterator for StlIterator
//@ header impl<P: IsBuildable3D, R: BufRead> StlIterator<P, R>
//@ fn next
//@ ret r
//@ sigreplace `Option<Self::Item>` => `Option<StlIOResult<DataReserve<StlFace<P>>>>` ; associated type of the dropped trait header
//@ spec
        requires old(self).good(),
        ensures final(self).good(), r is Some ==> final(self).size() < old(self).size(),
            match r {
                None => old(self).left() == (Seq::<Facet>::empty(), true) && final(self).left() == (Seq::<Facet>::empty(), true),
                Some(Ok(DataReserve::Reserve(n))) => final(self).left() == old(self).left() && n <= 1_000_000_000,
                Some(Ok(DataReserve::Data(p))) => old(self).left().0.len() > 0 && old(self).left().0[0].is(p) && final(self).left() == (old(self).left().0.skip(1), old(self).left().1),
                Some(Err(e)) => old(self).left() == (Seq::<Facet>::empty(), false) && final(self).left() == (Seq::<Facet>::empty(), true),
            },
//@ enditem
/// a, b, c of every triangle
pub open spec fn corners(s: Seq<Facet>) -> Seq<V3> decreases s.len() { if s.len() == 0 { Seq::empty() } else { corners(s.drop_last()).push(s.last().a).push(s.last().b).push(s.last().c) } }
pub open spec fn normals(s: Seq<Facet>) -> Seq<V3> decreases s.len() { if s.len() == 0 { Seq::empty() } else { normals(s.drop_last()).push(s.last().n) } }
pub proof fn next_normal(s: Seq<Facet>, x: Facet) ensures normals(s.push(x)) == normals(s).push(x.n), corners(s.push(x)) == corners(s).push(x.a).push(x.b).push(x.c) { assert(s.push(x).drop_last() == s); }
pub proof fn appended_nothing<P: Coords>(before: Seq<P>) ensures appended(before, before, Seq::<V3>::empty()) { assert(before.take(before.len() as int) == before); }
pub proof fn appended_push<P: Coords>(before: Seq<P>, now: Seq<P>, c: Seq<V3>, p: P, v: V3) requires appended(before, now, c), v3(p, v) ensures appended(before, now.push(p), c.push(v)) {
    assert(now.push(p).take(before.len() as int) == now.take(before.len() as int));
    assert forall|i: int| 0 <= i < c.push(v).len() implies c.push(v)[i].is(#[trigger] now.push(p)[before.len() + i]) by { if i < c.len() { assert(c[i].is(now[before.len() + i])); } }
}
/// done and what is left are all there is
pub open spec fn split(all: (Seq<Facet>, bool), done: Seq<Facet>, left: (Seq<Facet>, bool)) -> bool { all.0 == done + left.0 && all.1 == left.1 }
pub proof fn split_next(all: (Seq<Facet>, bool), done: Seq<Facet>, left: (Seq<Facet>, bool), next: (Seq<Facet>, bool)) requires split(all, done, left), left.0.len() > 0, next == (left.0.skip(1), left.1) ensures split(all, done.push(left.0[0]), next) { assert(done.push(left.0[0]) + left.0.skip(1) == done + left.0); }
pub proof fn split_end(all: (Seq<Facet>, bool), done: Seq<Facet>, left: (Seq<Facet>, bool)) requires split(all, done, left), left.0.len() == 0 ensures all == (done, left.1) { assert(done + left.0 == done); }
//@ freefn load_stl_triplets
//@ ret r
//@ replace `StlIterator::new(` => `StlIterator::<P, R>::new(` ; type arguments
//@ replace `for fr in iterator` => `let mut iterator = iterator; while let Some(fr) = iterator.next()` ; desugared for loop over the library's own iterator
//@ spec
    requires read.reliable(), read.left().len() < usize::MAX,
    ensures r.is_ok() == file(read.left(), format).1, appended(old(ip).list(), final(ip).list(), corners(file(read.left(), format).0)), appended(old(face_normals).list(), final(face_normals).list(), normals(file(read.left(), format).0)),
//@ start
    let ghost all = file(read.left(), format);
    let ghost before = ip.list();
    let ghost before_n = face_normals.list();
    proof { appended_nothing(before); appended_nothing(before_n); }
//@ loop 0 before
    let ghost mut now = all;
    let ghost mut done = Seq::<Facet>::empty();
    let ghost mut size = iterator.size();
    proof { assert(split(all, done, now)); }
//@ loop 0 inv
        invariant_except_break now == iterator.left(), iterator.good(), size == iterator.size(),
        invariant all == file(read.left(), format), before == old(ip).list(), before_n == old(face_normals).list(), split(all, done, now), appended(before, ip.list(), corners(done)), appended(before_n, face_normals.list(), normals(done)),
        ensures now == (Seq::<Facet>::empty(), true),
        decreases size,
//@ loop 0 start
        proof {
            if fr is Ok && fr->Ok_0 is Data { let x = now.0[0]; let p = fr->Ok_0->Data_0; let c = corners(done); let l = ip.list();
                appended_push(before, l, c, p.a, x.a); appended_push(before, l.push(p.a), c.push(x.a), p.b, x.b); appended_push(before, l.push(p.a).push(p.b), c.push(x.a).push(x.b), p.c, x.c); appended_push(before_n, face_normals.list(), normals(done), p.n, x.n);
                next_normal(done, x); split_next(all, done, now, iterator.left()); done = done.push(x); }
            else if fr is Err { split_end(all, done, now); }
            now = iterator.left(); size = iterator.size();
        }
//@ loop 0 after
    proof { split_end(all, done, now); }
//@ enditem
/// three new vertices and a face of them for every triangle; n vertices to begin with
pub open spec fn listed(s: Seq<Facet>, n: int) -> Seq<Part> decreases s.len() { if s.len() == 0 { Seq::empty() } else { let k = n + 3 * (s.len() - 1); listed(s.drop_last(), n).push(Part::Vertex(s.last().a)).push(Part::Vertex(s.last().b)).push(Part::Vertex(s.last().c)).push(Part::Face(k, k + 1, k + 2)) } }
pub proof fn next_listed(s: Seq<Facet>, n: int, x: Facet) ensures ({ let k = n + 3 * s.len(); listed(s.push(x), n) == listed(s, n).push(Part::Vertex(x.a)).push(Part::Vertex(x.b)).push(Part::Vertex(x.c)).push(Part::Face(k, k + 1, k + 2)) }) { assert(s.push(x).drop_last() == s); }
pub proof fn built_triangle<P: Coords, M: IsVertexEditableMesh<P, Face3>>(a: M, b: M, c: M, done: Seq<Facet>, x: Facet, p: StlFace<P>)
    requires built::<P, M>(a, b, listed(done, a.nv() as int)), b.nv() == a.nv() + 3 * done.len(), x.is(p), verts_kept::<P, Face3, M>(b, c), faces_kept::<P, Face3, M>(b, c), c.nv() == b.nv() + 3, c.nf() == b.nf() + 1,
        is_face::<P, Face3, M>(c.unit(b.nf() as int), b.nv() as int, (b.nv() + 1) as int, (b.nv() + 2) as int), forall|y: P| c.vert(b.nv() as int, y) == M::vrep(p.a, y), forall|y: P| c.vert((b.nv() + 1) as int, y) == M::vrep(p.b, y), forall|y: P| c.vert((b.nv() + 2) as int, y) == M::vrep(p.c, y),
    ensures built::<P, M>(a, c, listed(done.push(x), a.nv() as int)), c.nv() == a.nv() + 3 * (done.len() + 1),
{
    next_listed(done, a.nv() as int, x);
    built_three::<P, M>(a, b, c, listed(done, a.nv() as int), x.a, x.b, x.c, p.a, p.b, p.c);
}
pub proof fn built_nothing<P: Coords, M: IsVertexEditableMesh<P, Face3>>(a: M) ensures built::<P, M>(a, a, Seq::<Part>::empty()) { reveal(built); }
pub proof fn triangles_len(s: Seq<u8>, n: int) ensures triangles(s, n).0.len() <= s.len() decreases n { if n > 0 && s.len() >= 50 { triangles_len(s.skip(50), n - 1); } }
pub proof fn facets_len(s: Seq<u8>) ensures facets(s).0.len() <= s.len() decreases s.len() { facet_is_shorter(s); match facet_at(s) { Step::Next(x, r) => { facets_len(r); }, _ => {} } }
pub proof fn file_len(s: Seq<u8>, format: StlFormat) ensures file(s, format).0.len() <= s.len() {
    if s.len() >= 5 { facets_len(rest(s.skip(5))); rest_is_shorter(s.skip(5)); if s.len() >= 84 { triangles_len(s.skip(5).skip(79), u32_at(false, s.skip(5), 75) as int); } else if s.len() >= 79 { triangles_len(s.skip(5).skip(79), u32_at(false, s.skip(5), 75) as int); } }
}
//@ freefn load_stl_mesh_duped
//@ fattrs
#[verifier::spinoff_prover]
#[verifier::rlimit(100)]
//@ ret r
//@ replace `StlIterator::new(` => `StlIterator::<P, R>::new(` ; type arguments
//@ replace `for fr in iterator` => `let mut iterator = iterator; while let Some(fr) = iterator.next()` ; desugared for loop over the library's own iterator
//@ spec
    requires read.reliable(), read.left().len() < usize::MAX, old(mesh).mwf(), old(mesh).ewf(), forall|n: nat| n <= old(mesh).nv() + 3 * read.left().len() ==> #[trigger] EM::ids_ok(n),
    ensures final(mesh).mwf(), final(mesh).ewf(), valid::<P, Face3, EM>(*old(mesh)) ==> valid::<P, Face3, EM>(*final(mesh)),
        r.is_ok() == file(read.left(), format).1,
        built::<P, EM>(*old(mesh), *final(mesh), listed(file(read.left(), format).0, old(mesh).nv() as int)),
        appended(old(face_normals).list(), final(face_normals).list(), normals(file(read.left(), format).0)),
//@ start
    let ghost all = file(read.left(), format);
    let ghost n = read.left().len();
    let ghost m0 = *mesh;
    let ghost before_n = face_normals.list();
    proof { appended_nothing(before_n); file_len(read.left(), format); built_nothing::<P, EM>(m0); }
//@ loop 0 before
    let ghost mut now = all;
    let ghost mut done = Seq::<Facet>::empty();
    let ghost mut size = iterator.size();
    let ghost mut was = m0;
    proof { assert(split(all, done, now)); assert(listed(done, m0.nv() as int) == Seq::<Part>::empty()); }
//@ loop 0 inv
        invariant_except_break now == iterator.left(), iterator.good(), size == iterator.size(), was == *mesh,
        invariant all == file(read.left(), format), m0 == *old(mesh), before_n == old(face_normals).list(), split(all, done, now), all.0.len() <= n, n == read.left().len(), forall|k: nat| k <= m0.nv() + 3 * n ==> #[trigger] EM::ids_ok(k),
            mesh.mwf(), mesh.ewf(), valid::<P, Face3, EM>(m0) ==> valid::<P, Face3, EM>(*mesh), mesh.nv() == m0.nv() + 3 * done.len(),
            built::<P, EM>(m0, *mesh, listed(done, m0.nv() as int)), appended(before_n, face_normals.list(), normals(done)),
        ensures now == (Seq::<Facet>::empty(), true),
        decreases size,
//@ loop 0 start
        let ghost fed = if fr is Ok && fr->Ok_0 is Data { Some(fr->Ok_0->Data_0) } else { None };
        proof {
            size = iterator.size();
            if fed is Some { appended_push(before_n, face_normals.list(), normals(done), fed->0.n, now.0[0].n); }
            else if fr is Err { split_end(all, done, now); }
        }
        let ghost next = iterator.left();
//@ loop 0 end
        proof {
            if fed is Some { let x = now.0[0]; built_triangle::<P, EM>(m0, was, *mesh, done, x, fed->0); next_normal(done, x); split_next(all, done, now, next); done = done.push(x); }
            else {
                assert forall|i: int| 0 <= i < was.nf() implies #[trigger] mesh.unit(i) == was.unit(i) by { }
                if valid::<P, Face3, EM>(was) { assert forall|i: int, k: int| 0 <= i < mesh.nf() && 0 <= k < 3 implies #[trigger] EM::corner(mesh.unit(i), k) < mesh.nv() by { assert(EM::corner(was.unit(i), k) < was.nv()); } }
                built_same::<P, EM>(m0, was, *mesh, listed(done, m0.nv() as int));
            }
            now = next; was = *mesh;
        }
//@ loop 0 after
    proof { split_end(all, done, now); }
//@ enditem
/// a and b are equal keys of a map
pub uninterp spec fn same_key<P>(a: P, b: P) -> bool;
/// `FnvHashMap<K, V>` without values ever replaced: the entries in the order they came (assumed: std, and that Hash of K agrees with Eq)
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct KeyMap<K, V> { k: PhantomData<K>, v: PhantomData<V> }
impl<K, V: Copy> KeyMap<K, V> {
    pub uninterp spec fn view(&self) -> Seq<(K, V)>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<(K, V)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<V>) ensures match r { Some(v) => exists|i: int| 0 <= i < self@.len() && same_key((#[trigger] self@[i]).0, *k) && self@[i].1 == v, None => forall|i: int| 0 <= i < self@.len() ==> !same_key((#[trigger] self@[i]).0, *k) } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) requires forall|i: int| 0 <= i < old(self)@.len() ==> !same_key((#[trigger] old(self)@[i]).0, k) ensures final(self)@ == old(self)@.push((k, v)) { unimplemented!() }
}
pub open spec fn clone_ok<P: Clone>() -> bool { forall|a: P, b: P| #[trigger] call_ensures(P::clone, (&a,), b) ==> a == b }
/// no two are equal
pub open spec fn different<P>(keys: Seq<P>) -> bool { forall|i: int, j: int| 0 <= i < j < keys.len() ==> !same_key(#[trigger] keys[i], #[trigger] keys[j]) }
/// m is m0 and one vertex for every key
#[verifier::opaque]
pub open spec fn merged<P: Coords, M: IsVertexEditableMesh<P, Face3>>(m0: M, m: M, keys: Seq<P>) -> bool {
    verts_kept::<P, Face3, M>(m0, m) && m.nv() == m0.nv() + keys.len() && different(keys) && (forall|i: int, y: P| 0 <= i < keys.len() ==> #[trigger] m.vert(m0.nv() + i, y) == M::vrep(keys[i], y))
}
/// m is m0 and the faces t
#[verifier::opaque]
pub open spec fn faced<P: Coords, M: IsVertexEditableMesh<P, Face3>>(m0: M, m: M, t: Seq<(int, int, int)>) -> bool {
    faces_kept::<P, Face3, M>(m0, m) && m.nf() == m0.nf() + t.len() && (forall|j: int| m0.nf() <= j < m.nf() ==> is_face::<P, Face3, M>(#[trigger] m.unit(j), t[j - m0.nf()].0, t[j - m0.nf()].1, t[j - m0.nf()].2))
}
/// vertex id has the position v, or one that is equal as a key
#[verifier::opaque]
pub open spec fn spot<P: Coords>(keys: Seq<P>, n: int, v: V3, id: int) -> bool { n <= id < n + keys.len() && exists|p: P| #[trigger] v3(p, v) && (keys[id - n] == p || same_key(keys[id - n], p)) }
pub open spec fn spots<P: Coords>(keys: Seq<P>, n: int, x: Facet, id: (int, int, int)) -> bool { spot(keys, n, x.a, id.0) && spot(keys, n, x.b, id.1) && spot(keys, n, x.c, id.2) }
pub open spec fn proper(id: (int, int, int)) -> bool { id.0 != id.1 && id.0 != id.2 && id.1 != id.2 }
/// the triples of three different ids, in order, and the normals that go with them
pub open spec fn proper_ids(ids: Seq<(int, int, int)>) -> Seq<(int, int, int)> decreases ids.len() { if ids.len() == 0 { Seq::empty() } else if proper(ids.last()) { proper_ids(ids.drop_last()).push(ids.last()) } else { proper_ids(ids.drop_last()) } }
pub open spec fn proper_normals(s: Seq<Facet>, ids: Seq<(int, int, int)>) -> Seq<V3> decreases ids.len() { if ids.len() == 0 { Seq::empty() } else if proper(ids.last()) { proper_normals(s, ids.drop_last()).push(s[ids.len() - 1].n) } else { proper_normals(s, ids.drop_last()) } }
/// one vertex per different position, one face per triangle with three different corners
#[verifier::opaque]
pub open spec fn unified<P: Coords, M: IsVertexEditableMesh<P, Face3>>(m0: M, m: M, s: Seq<Facet>, keys: Seq<P>, ids: Seq<(int, int, int)>) -> bool {
    merged(m0, m, keys) && faced::<P, M>(m0, m, proper_ids(ids)) && ids.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> spots(keys, m0.nv() as int, #[trigger] s[i], ids[i]))
}
pub proof fn more_spots<P: Coords>(keys: Seq<P>, p: P, n: int)
    ensures forall|v: V3, id: int| spot(keys, n, v, id) ==> #[trigger] spot(keys.push(p), n, v, id)
{ reveal(spot); assert forall|v: V3, id: int| spot(keys, n, v, id) implies #[trigger] spot(keys.push(p), n, v, id) by { let q = choose|q: P| #[trigger] v3(q, v) && (keys[id - n] == q || same_key(keys[id - n], q)); assert(keys.push(p)[id - n] == keys[id - n]); assert(v3(q, v)); } }
pub proof fn new_key<P: Coords, M: IsVertexEditableMesh<P, Face3>>(m0: M, b: M, c: M, keys: Seq<P>, p: P, t: Seq<(int, int, int)>)
    requires merged(m0, b, keys), faced::<P, M>(m0, b, t), forall|i: int| 0 <= i < keys.len() ==> !same_key(#[trigger] keys[i], p), verts_kept::<P, Face3, M>(b, c), faces_kept::<P, Face3, M>(b, c), c.nv() == b.nv() + 1, c.nf() == b.nf(), forall|y: P| c.vert(b.nv() as int, y) == M::vrep(p, y),
    ensures merged(m0, c, keys.push(p)), faced::<P, M>(m0, c, t),
{
    same_faces::<P, M>(m0, b, c, t); reveal(merged);
    assert forall|i: int, y: P| 0 <= i < keys.push(p).len() implies #[trigger] c.vert(m0.nv() + i, y) == M::vrep(keys.push(p)[i], y) by { if i < keys.len() { assert(c.vert(m0.nv() + i, y) == b.vert(m0.nv() + i, y)); } }
    assert forall|i: int, y: P| 0 <= i < m0.nv() implies c.vert(i, y) == m0.vert(i, y) by { assert(c.vert(i, y) == b.vert(i, y)); }
}
pub proof fn same_faces<P: Coords, M: IsVertexEditableMesh<P, Face3>>(m0: M, b: M, c: M, t: Seq<(int, int, int)>)
    requires faced::<P, M>(m0, b, t), faces_kept::<P, Face3, M>(b, c), c.nf() == b.nf(), ensures faced::<P, M>(m0, c, t),
{
    reveal(faced);
    kept_unit::<P, Face3, M>(b, c);
    assert forall|j: int| m0.nf() <= j < c.nf() implies is_face::<P, Face3, M>(#[trigger] c.unit(j), t[j - m0.nf()].0, t[j - m0.nf()].1, t[j - m0.nf()].2) by { assert(c.unit(j) == b.unit(j)); }
    assert forall|j: int| 0 <= j < m0.nf() implies #[trigger] c.unit(j) == m0.unit(j) by { assert(b.unit(j) == m0.unit(j)); }
}
pub proof fn same_vertices<P: Coords, M: IsVertexEditableMesh<P, Face3>>(m0: M, b: M, c: M, keys: Seq<P>)
    requires merged(m0, b, keys), verts_kept::<P, Face3, M>(b, c), c.nv() == b.nv(), ensures merged(m0, c, keys),
{
    reveal(merged);
    assert forall|i: int, y: P| 0 <= i < keys.len() implies #[trigger] c.vert(m0.nv() + i, y) == M::vrep(keys[i], y) by { assert(c.vert(m0.nv() + i, y) == b.vert(m0.nv() + i, y)); }
    assert forall|i: int, y: P| 0 <= i < m0.nv() implies c.vert(i, y) == m0.vert(i, y) by { assert(c.vert(i, y) == b.vert(i, y)); }
}
pub proof fn new_face<P: Coords, M: IsVertexEditableMesh<P, Face3>>(m0: M, b: M, c: M, t: Seq<(int, int, int)>, id: (int, int, int))
    requires faced::<P, M>(m0, b, t), faces_kept::<P, Face3, M>(b, c), c.nf() == b.nf() + 1, is_face::<P, Face3, M>(c.unit(b.nf() as int), id.0, id.1, id.2), ensures faced::<P, M>(m0, c, t.push(id)),
{
    reveal(faced);
    kept_unit::<P, Face3, M>(b, c);
    assert forall|j: int| m0.nf() <= j < c.nf() implies is_face::<P, Face3, M>(#[trigger] c.unit(j), t.push(id)[j - m0.nf()].0, t.push(id)[j - m0.nf()].1, t.push(id)[j - m0.nf()].2) by { if j < b.nf() { assert(c.unit(j) == b.unit(j)); } }
    assert forall|j: int| 0 <= j < m0.nf() implies #[trigger] c.unit(j) == m0.unit(j) by { assert(b.unit(j) == m0.unit(j)); }
}
pub proof fn unified_nothing<P: Coords, M: IsVertexEditableMesh<P, Face3>>(m0: M) ensures unified::<P, M>(m0, m0, Seq::<Facet>::empty(), Seq::<P>::empty(), Seq::<(int, int, int)>::empty()) { reveal(unified); reveal(merged); reveal(faced); }
pub proof fn in_unified<P: Coords, M: IsVertexEditableMesh<P, Face3>>(m0: M, m: M, s: Seq<Facet>, keys: Seq<P>, ids: Seq<(int, int, int)>) requires unified::<P, M>(m0, m, s, keys, ids) ensures merged(m0, m, keys), faced::<P, M>(m0, m, proper_ids(ids)), ids.len() == s.len(), m.nv() == m0.nv() + keys.len() { reveal(unified); reveal(merged); }
pub proof fn merged_nv<P: Coords, M: IsVertexEditableMesh<P, Face3>>(m0: M, m: M, keys: Seq<P>) requires merged::<P, M>(m0, m, keys) ensures m.nv() == m0.nv() + keys.len() { reveal(merged); }
pub proof fn unified_same<P: Coords, M: IsVertexEditableMesh<P, Face3>>(m0: M, b: M, c: M, s: Seq<Facet>, keys: Seq<P>, ids: Seq<(int, int, int)>)
    requires unified::<P, M>(m0, b, s, keys, ids), verts_kept::<P, Face3, M>(b, c), c.nv() == b.nv(), faces_kept::<P, Face3, M>(b, c), c.nf() == b.nf() ensures unified::<P, M>(m0, c, s, keys, ids)
{ in_unified(m0, b, s, keys, ids); same_vertices(m0, b, c, keys); same_faces::<P, M>(m0, b, c, proper_ids(ids)); reveal(unified); }
pub proof fn unified_next<P: Coords, M: IsVertexEditableMesh<P, Face3>>(m0: M, a: M, b: M, c: M, s: Seq<Facet>, x: Facet, keys0: Seq<P>, keys: Seq<P>, ids: Seq<(int, int, int)>, id: (int, int, int))
    requires unified::<P, M>(m0, a, s, keys0, ids), keys0.is_prefix_of(keys), merged(m0, b, keys), faced::<P, M>(m0, b, proper_ids(ids)), spots(keys, m0.nv() as int, x, id), verts_kept::<P, Face3, M>(b, c), c.nv() == b.nv(), faces_kept::<P, Face3, M>(b, c),
        if proper(id) { c.nf() == b.nf() + 1 && is_face::<P, Face3, M>(c.unit(b.nf() as int), id.0, id.1, id.2) } else { c.nf() == b.nf() },
    ensures unified::<P, M>(m0, c, s.push(x), keys, ids.push(id)), proper_normals(s.push(x), ids.push(id)) == (if proper(id) { proper_normals(s, ids).push(x.n) } else { proper_normals(s, ids) }),
{
    in_unified(m0, a, s, keys0, ids);
    assert(ids.push(id).drop_last() == ids);
    normals_same(s, x, ids);
    same_vertices(m0, b, c, keys);
    if proper(id) { new_face::<P, M>(m0, b, c, proper_ids(ids), id); } else { same_faces::<P, M>(m0, b, c, proper_ids(ids)); }
    reveal(unified); reveal(spot);
    let n = m0.nv() as int;
    assert forall|i: int| 0 <= i < s.push(x).len() implies spots(keys, n, #[trigger] s.push(x)[i], ids.push(id)[i]) by {
        if i < s.len() { let y = s[i]; assert(spots(keys0, n, y, ids[i])); spot_grows(keys0, keys, n, y.a, ids[i].0); spot_grows(keys0, keys, n, y.b, ids[i].1); spot_grows(keys0, keys, n, y.c, ids[i].2); }
    }
}
pub proof fn spot_grows<P: Coords>(keys0: Seq<P>, keys: Seq<P>, n: int, v: V3, id: int) requires keys0.is_prefix_of(keys), spot(keys0, n, v, id) ensures spot(keys, n, v, id) { reveal(spot); assert(keys[id - n] == keys0[id - n]); }
pub proof fn normals_same(s: Seq<Facet>, x: Facet, ids: Seq<(int, int, int)>) requires ids.len() <= s.len() ensures proper_normals(s.push(x), ids) == proper_normals(s, ids) decreases ids.len() { if ids.len() > 0 { normals_same(s, x, ids.drop_last()); } }
/// the vertex of key k
pub proof fn spot_known<P: Coords>(map: Seq<(P, usize)>, keys: Seq<P>, n: int, v: V3, k: P, id: usize) requires entries(map, keys, n), v3(k, v), exists|i: int| 0 <= i < map.len() && same_key((#[trigger] map[i]).0, k) && map[i].1 == id ensures spot(keys, n, v, id as int)
{ reveal(spot); let i = choose|i: int| 0 <= i < map.len() && same_key((#[trigger] map[i]).0, k) && map[i].1 == id; assert(v3(k, v)); }
pub proof fn spot_new<P: Coords>(keys: Seq<P>, n: int, v: V3, k: P) requires v3(k, v) ensures spot(keys.push(k), n, v, n + keys.len()) { reveal(spot); assert(keys.push(k)[keys.len() as int] == k); assert(v3(k, v)); }
pub proof fn spot_range<P: Coords>(keys: Seq<P>, n: int, v: V3, id: int) requires spot(keys, n, v, id) ensures n <= id < n + keys.len() { reveal(spot); }
pub open spec fn entries<P>(map: Seq<(P, usize)>, keys: Seq<P>, n: int) -> bool { map.len() == keys.len() && forall|i: int| 0 <= i < map.len() ==> (#[trigger] map[i]).0 == keys[i] && map[i].1 == n + i }
//@ freefn load_stl_mesh_unique
//@ fattrs
#[verifier::spinoff_prover]
#[verifier::rlimit(100)]
//@ ret r
//@ replace `for fr in iterator` => `let mut iterator = iterator; while let Some(fr) = iterator.next()` ; desugared for loop over the library's own iterator
//@ replace `FnvHashMap::default()` => `KeyMap::<P, usize>::new()` ; see KeyMap
//@ replace `let [a, b, c, n] = [face.a, face.b, face.c, face.n];` => `let (a, b, c, n) = (face.a, face.b, face.c, face.n);` ; a tuple instead of an array
//@ replace `*map.entry($1.clone()).or_insert_with(|| $2)` => `{ let k__ = $1.clone(); let ghost g__ = k__; let id__ = match map.get(&k__) { Some(i__) => { proof { spot_known(map@, keys, m0.nv() as int, fed->0.$1, g__, i__); } i__ }, None => { let ghost m__ = *mesh; proof { merged_nv(m0, m__, keys); assert forall|i: int| 0 <= i < keys.len() implies !same_key(#[trigger] keys[i], g__) by { assert(map@[i].0 == keys[i]); } } let v__ = $2; map.insert(k__, v__); proof { new_key(m0, m__, *mesh, keys, g__, proper_ids(ids)); more_spots(keys, g__, m0.nv() as int); spot_new(keys, m0.nv() as int, fed->0.$1, g__); keys = keys.push(g__); } v__ } }; id__ }` ; Verus has no closures capturing `&mut` and no entry API
//@ spec
    requires read.reliable(), read.left().len() < usize::MAX, old(mesh).mwf(), old(mesh).ewf(), forall|n: nat| n <= old(mesh).nv() + 3 * read.left().len() ==> #[trigger] EM::ids_ok(n), clone_ok::<P>(),
    ensures final(mesh).mwf(), final(mesh).ewf(), valid::<P, Face3, EM>(*old(mesh)) ==> valid::<P, Face3, EM>(*final(mesh)),
        r.is_ok() == file(read.left(), format).1,
        exists|keys: Seq<P>, ids: Seq<(int, int, int)>| #[trigger] unified::<P, EM>(*old(mesh), *final(mesh), file(read.left(), format).0, keys, ids)
            && appended(old(face_normals).list(), final(face_normals).list(), proper_normals(file(read.left(), format).0, ids)),
//@ start
    let ghost all = file(read.left(), format);
    let ghost n_read = read.left().len();
    let ghost m0 = *mesh;
    let ghost before_n = face_normals.list();
    let ghost mut keys = Seq::<P>::empty();
    let ghost mut ids = Seq::<(int, int, int)>::empty();
    proof { appended_nothing(before_n); file_len(read.left(), format); unified_nothing::<P, EM>(m0); }
//@ loop 0 before
    let ghost mut now = all;
    let ghost mut done = Seq::<Facet>::empty();
    let ghost mut size = iterator.size();
    let ghost mut was = m0;
    proof { assert(split(all, done, now)); }
//@ loop 0 inv
        invariant_except_break now == iterator.left(), iterator.good(), size == iterator.size(), was == *mesh,
        invariant all == file(read.left(), format), m0 == *old(mesh), before_n == old(face_normals).list(), split(all, done, now), all.0.len() <= n_read, n_read == read.left().len(), forall|k: nat| k <= m0.nv() + 3 * n_read ==> #[trigger] EM::ids_ok(k),
            clone_ok::<P>(), mesh.mwf(), mesh.ewf(), valid::<P, Face3, EM>(m0) ==> valid::<P, Face3, EM>(*mesh), keys.len() <= 3 * done.len(), entries(map@, keys, m0.nv() as int),
            unified::<P, EM>(m0, *mesh, done, keys, ids), appended(before_n, face_normals.list(), proper_normals(done, ids)),
        ensures now == (Seq::<Facet>::empty(), true),
        decreases size,
//@ loop 0 start
        let ghost fed = if fr is Ok && fr->Ok_0 is Data { Some(now.0[0]) } else { None };
        proof {
            size = iterator.size();
            if fr is Err { split_end(all, done, now); }
        }
        let ghost next = iterator.left();
        let ghost keys0 = keys;
        let ghost mut id = (0int, 0int, 0int);
        let ghost mut here = *mesh;
        proof { in_unified(m0, *mesh, done, keys, ids); }
//@ before `match mesh.try_add_connection`
                proof {
                    here = *mesh; id = (id_a as int, id_b as int, id_c as int); merged_nv(m0, here, keys);
                    assert(keys0.is_prefix_of(keys)); assert(spot(keys, m0.nv() as int, fed->0.a, id.0)); assert(spot(keys, m0.nv() as int, fed->0.b, id.1)); assert(spot(keys, m0.nv() as int, fed->0.c, id.2));
                    spot_range(keys, m0.nv() as int, fed->0.a, id.0); spot_range(keys, m0.nv() as int, fed->0.b, id.1); spot_range(keys, m0.nv() as int, fed->0.c, id.2);
                    appended_push(before_n, face_normals.list(), proper_normals(done, ids), n, fed->0.n);
                }
//@ loop 0 end
        proof {
            if fed is None {
                assert forall|i: int| 0 <= i < was.nf() implies #[trigger] mesh.unit(i) == was.unit(i) by { }
                if valid::<P, Face3, EM>(was) { assert forall|i: int, k: int| 0 <= i < mesh.nf() && 0 <= k < 3 implies #[trigger] EM::corner(mesh.unit(i), k) < mesh.nv() by { assert(EM::corner(was.unit(i), k) < was.nv()); } }
                unified_same(m0, was, *mesh, done, keys, ids);
            } else {
                unified_next::<P, EM>(m0, was, here, *mesh, done, fed->0, keys0, keys, ids, id);
                split_next(all, done, now, next); done = done.push(fed->0); ids = ids.push(id);
            }
            now = next; was = *mesh;
        }
//@ loop 0 after
    proof { split_end(all, done, now); }
//@ enditem
fn main() {}
}

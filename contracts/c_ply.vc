#![allow(warnings)]
use vstd::prelude::*;
use vstd::float::FloatBitsProperties;
use vstd::std_specs::iter::*;
use std::io::{BufRead, Error as ioError, Read, Result as iRes};
use std::fmt;
use std::str::FromStr;
use std::marker::PhantomData;
use std::convert::TryInto;
verus! {
//@include float.inc
//@include float32.inc
broadcast use vstd::seq_lib::group_seq_properties;
//@include base.inc
global size_of f32 == 4;
global size_of f64 == 8;
//@include mesh_trait.inc
//@include mesh_edit.inc
//@include build.inc
//@include stream.inc
//@include bufread.inc
//@include bytes.inc
//@include bin.inc
//@include lines.inc
//@include text.inc
//@include push.inc
//@include deliver.inc
//@include load3.inc
//@include meshload.inc
//@include literals.inc
//@include reserve.inc
//@include skipwords.inc
//@include ply.inc
pub mod io { pub mod types {
use vstd::prelude::*;
use super::super::DataReserve;
verus! {
//@ file src/io/types.rs
//@ enum FaceData
//@ enditem
//@ enum FaceDataReserve
//@ enditem
impl<T> vstd::std_specs::convert::FromSpecImpl<FaceData<T>> for FaceDataReserve<T> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: FaceData<T>) -> Self { match x { FaceData::Data(x) => FaceDataReserve::Data(x), FaceData::Face(x) => FaceDataReserve::Face(x) } } }
//@ impl From<FaceData<T>> for FaceDataReserve<T>
//@ fn from
//@ enditem
}
} }
pub use io::types::FaceDataReserve;
//@ file src/io/ply/types.rs
//@ enum MeshOrPoints
//@ enditem
impl vstd::std_specs::convert::FromSpecImpl<ioError> for PlyError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ioError) -> Self { PlyError::AccessFile } }
//@ impl From for PlyError
//@ fn from
//@ enditem
//@ impl Into for FullHeader
//@ header impl FullHeader
//@ fn into
//@ ret r
//@ spec
        ensures r == (PartialHeader { format: self.format, vertex: self.vertex }),
//@ enditem
//@ impl Into for Header
//@ header impl Header
//@ fn into
//@ ret r
//@ spec
        ensures r == partial(self),
//@ enditem
/// the header without its faces
pub open spec fn partial(h: Header) -> PartialHeader { match h { Header::Full(x) => PartialHeader { format: x.format, vertex: x.vertex }, Header::Partial(x) => x } }
//@ file src/io/ply/header.rs
//@ freefn load_header trusted
//@ ret r
//@ spec
    requires (*old(read)).reliable(), *old(i_line) + (*old(read)).left().len() <= usize::MAX,
    ensures (*final(read)).reliable(), *final(i_line) + (*final(read)).left().len() <= usize::MAX,
        match r { Ok(x) => header(no_head(), (*old(read)).left()) == Some((x, (*final(read)).left())), Err(e) => header(no_head(), (*old(read)).left()) is None },
//@ enditem
pub proof fn header_rest(h: Head, s: Seq<u8>) ensures header(h, s) is Some ==> header(h, s)->Some_0.1.len() <= s.len() decreases s.len()
{ rest_is_shorter(s); if s.len() > 0 && step(h, line(s)) is Next { header_rest(step(h, line(s))->Next_0, rest(s)); } }
/// how numbers are written
pub open spec fn coding(big: bool) -> Format { if big { Format::BigEndian } else { Format::LittleEndian } }
/// three coordinates in the order of the file
pub open spec fn ordered(a: f64, b: f64, c: f64, o: VertexOrder) -> V3 {
    match o { VertexOrder::Xyz => V3 { x: a, y: b, z: c }, VertexOrder::Xzy => V3 { x: a, y: c, z: b }, VertexOrder::Yxz => V3 { x: b, y: a, z: c }, VertexOrder::Yzx => V3 { x: c, y: a, z: b }, VertexOrder::Zxy => V3 { x: b, y: c, z: a }, VertexOrder::Zyx => V3 { x: c, y: b, z: a } }
}
pub open spec fn without(s: Seq<u8>, n: int) -> Option<Seq<u8>> { if s.len() >= n { Some(s.skip(n)) } else { None } }
/// a coordinate and what follows it
pub open spec fn real_at(big: bool, t: VertexType, s: Seq<u8>) -> Option<(f64, Seq<u8>)> {
    match t {
        VertexType::Float => if s.len() >= 4 { Some((fl32::up(f32_at(big, s, 0)), s.skip(4))) } else { None },
        VertexType::Double => if s.len() >= 8 { Some((f64_at(big, s, 0), s.skip(8))) } else { None },
    }
}
/// a negative number is taken modulo 2^64 (no vertex has such an id)
pub open spec fn wrapped(x: int) -> int { if x < 0 { x + 0x1_0000_0000_0000_0000 } else { x } }
/// an id and what follows it
pub open spec fn id_at(big: bool, t: FaceType, s: Seq<u8>) -> Option<(int, Seq<u8>)> {
    match t {
        FaceType::Char => if s.len() >= 1 { Some((wrapped(signed(dec(big, s.take(1)), 0x80)), s.skip(1))) } else { None },
        FaceType::UChar => if s.len() >= 1 { Some((dec(big, s.take(1)) as int, s.skip(1))) } else { None },
        FaceType::Short => if s.len() >= 2 { Some((wrapped(signed(dec(big, s.take(2)), 0x8000)), s.skip(2))) } else { None },
        FaceType::UShort => if s.len() >= 2 { Some((dec(big, s.take(2)) as int, s.skip(2))) } else { None },
        FaceType::Int => if s.len() >= 4 { Some((wrapped(signed(dec(big, s.take(4)), 0x8000_0000)), s.skip(4))) } else { None },
        FaceType::UInt => if s.len() >= 4 { Some((dec(big, s.take(4)) as int, s.skip(4))) } else { None },
    }
}
/// `x as usize` (assumed: the language; sign extension)
#[verifier::external_body]
pub fn wide(x: i32) -> (r: usize) ensures r as int == wrapped(x as int) { x as usize }
/// the words of a line: the coordinates among the other properties
pub open spec fn point_of_line(v: VertexFormat, l: Seq<u8>) -> Option<V3> {
    let a = after(words(l), v.before.words as int);
    let b = after(a.skip(1), v.between_first_snd.words as int);
    let c = after(b.skip(1), v.between_snd_third.words as int);
    if a.len() == 0 || f(a[0]) is None || b.len() == 0 || f(b[0]) is None || c.len() == 0 || f(c[0]) is None { None } else { Some(ordered(f(a[0])->0, f(b[0])->0, f(c[0])->0, v.order)) }
}
/// the words of a line: 3 and three ids
pub open spec fn ids_of_line(before: int, l: Seq<u8>) -> Option<(int, int, int)> {
    let w = after(words(l), before);
    if w.len() < 4 || w[0] != seq![51u8] || parse::<usize>(w[1]) is None || parse::<usize>(w[2]) is None || parse::<usize>(w[3]) is None { None } else { Some((parse::<usize>(w[1])->0 as int, parse::<usize>(w[2])->0 as int, parse::<usize>(w[3])->0 as int)) }
}
pub open spec fn point_of_bytes(big: bool, v: VertexFormat, s: Seq<u8>) -> Option<(V3, Seq<u8>)> {
    match without(s, v.before.bytes as int) { None => None, Some(s) => match real_at(big, v.first, s) { None => None, Some((a, s)) => match without(s, v.between_first_snd.bytes as int) { None => None, Some(s) => match real_at(big, v.snd, s) { None => None, Some((b, s)) =>
    match without(s, v.between_snd_third.bytes as int) { None => None, Some(s) => match real_at(big, v.third, s) { None => None, Some((c, s)) => match without(s, v.after.bytes as int) { None => None, Some(s) => Some((ordered(a, b, c, v.order), s)) } } } } } } }
}
pub open spec fn ids_of_bytes(big: bool, t: FaceFormat, s: Seq<u8>) -> Option<((int, int, int), Seq<u8>)> {
    match without(s, t.before.bytes as int) { None => None, Some(s) => match id_at(big, t.count, s) { None => None, Some((n, s)) => if n != 3 { None } else { match id_at(big, t.index, s) { None => None, Some((a, s)) => match id_at(big, t.index, s) { None => None, Some((b, s)) => match id_at(big, t.index, s) { None => None, Some((c, s)) =>
    match without(s, t.after.bytes as int) { None => None, Some(s) => Some(((a, b, c), s)) } } } } } } }
}
/// the next point and what follows it
pub open spec fn point_in(c: Format, v: VertexFormat, s: Seq<u8>) -> Option<(V3, Seq<u8>)> {
    match c {
        Format::Ascii => if s.len() == 0 { None } else { match point_of_line(v, line(s)) { None => None, Some(p) => Some((p, rest(s))) } },
        Format::LittleEndian => point_of_bytes(false, v, s),
        Format::BigEndian => point_of_bytes(true, v, s),
    }
}
pub open spec fn ids_in(c: Format, t: FaceFormat, s: Seq<u8>) -> Option<((int, int, int), Seq<u8>)> {
    match c {
        Format::Ascii => if s.len() == 0 { None } else { match ids_of_line(t.before.words as int, line(s)) { None => None, Some(p) => Some((p, rest(s))) } },
        Format::LittleEndian => ids_of_bytes(false, t, s),
        Format::BigEndian => ids_of_bytes(true, t, s),
    }
}
/// n points, and whether they are all there
pub open spec fn points_in(c: Format, v: VertexFormat, n: int, s: Seq<u8>) -> (Seq<V3>, bool) decreases n {
    if n <= 0 { (Seq::empty(), true) } else { match point_in(c, v, s) { None => (Seq::empty(), false), Some((p, r)) => { let t = points_in(c, v, n - 1, r); (seq![p] + t.0, t.1) } } }
}
/// n points and m triangles; a text file may end before all triangles
pub open spec fn parts_in(c: Format, v: VertexFormat, t: FaceFormat, n: int, m: int, s: Seq<u8>) -> (Seq<Part>, bool) decreases (if n > 0 { n } else { 0 }) + (if m > 0 { m } else { 0 }) {
    if n > 0 { match point_in(c, v, s) { None => (Seq::empty(), false), Some((p, r)) => { let k = parts_in(c, v, t, n - 1, m, r); (seq![Part::Vertex(p)] + k.0, k.1) } } }
    else if m > 0 { if c is Ascii && s.len() == 0 { (Seq::empty(), true) } else { match ids_in(c, t, s) { None => (Seq::empty(), false), Some((i, r)) => { let k = parts_in(c, v, t, n, m - 1, r); (seq![Part::Face(i.0, i.1, i.2)] + k.0, k.1) } } } }
    else { (Seq::empty(), true) }
}
pub open spec fn points_of(h: PartialHeader, s: Seq<u8>) -> (Seq<V3>, bool) { points_in(h.format, h.vertex.format, h.vertex.count as int, s) }
pub open spec fn parts_of(h: FullHeader, s: Seq<u8>) -> (Seq<Part>, bool) { parts_in(h.format, h.vertex.format, h.face.format, h.vertex.count as int, h.face.count as int, s) }
/// the points of a file
pub open spec fn file_points(s: Seq<u8>) -> (Seq<V3>, bool) { match header(no_head(), s) { None => (Seq::empty(), false), Some((h, r)) => points_of(partial(h), r) } }
/// the vertices and faces of a file
pub open spec fn file_parts(s: Seq<u8>) -> (Seq<Part>, bool) { match header(no_head(), s) { None => (Seq::empty(), false), Some((h, r)) => match h { Header::Full(h) => parts_of(h, r), Header::Partial(h) => (Seq::empty(), false) } } }
proof fn real_shrinks(big: bool, t: VertexType, s: Seq<u8>) ensures real_at(big, t, s) is Some ==> real_at(big, t, s)->Some_0.1.len() < s.len() { }
proof fn point_of_bytes_shrinks(big: bool, v: VertexFormat, s: Seq<u8>) ensures point_of_bytes(big, v, s) is Some ==> point_of_bytes(big, v, s)->Some_0.1.len() < s.len() {
    hide(real_at);
    let s0 = without(s, v.before.bytes as int)->0; real_shrinks(big, v.first, s0);
    let s1 = without(real_at(big, v.first, s0)->Some_0.1, v.between_first_snd.bytes as int)->0; real_shrinks(big, v.snd, s1);
    let s2 = without(real_at(big, v.snd, s1)->Some_0.1, v.between_snd_third.bytes as int)->0; real_shrinks(big, v.third, s2);
}
pub proof fn point_shrinks(c: Format, v: VertexFormat, s: Seq<u8>) ensures point_in(c, v, s) is Some ==> point_in(c, v, s)->Some_0.1.len() < s.len() { hide(point_of_bytes); rest_is_shorter(s); point_of_bytes_shrinks(true, v, s); point_of_bytes_shrinks(false, v, s); }
proof fn id_shrinks(big: bool, t: FaceType, s: Seq<u8>) ensures id_at(big, t, s) is Some ==> id_at(big, t, s)->Some_0.1.len() < s.len() { }
proof fn ids_of_bytes_shrink(big: bool, t: FaceFormat, s: Seq<u8>) ensures ids_of_bytes(big, t, s) is Some ==> ids_of_bytes(big, t, s)->Some_0.1.len() < s.len() {
    hide(id_at);
    let s0 = without(s, t.before.bytes as int)->0; id_shrinks(big, t.count, s0);
    let s1 = id_at(big, t.count, s0)->Some_0.1; id_shrinks(big, t.index, s1);
    let s2 = id_at(big, t.index, s1)->Some_0.1; id_shrinks(big, t.index, s2);
    let s3 = id_at(big, t.index, s2)->Some_0.1; id_shrinks(big, t.index, s3);
}
pub proof fn ids_shrink(c: Format, t: FaceFormat, s: Seq<u8>) ensures ids_in(c, t, s) is Some ==> ids_in(c, t, s)->Some_0.1.len() < s.len() { hide(ids_of_bytes); rest_is_shorter(s); ids_of_bytes_shrink(true, t, s); ids_of_bytes_shrink(false, t, s); }
pub proof fn parts_len(c: Format, v: VertexFormat, t: FaceFormat, n: int, m: int, s: Seq<u8>) ensures parts_in(c, v, t, n, m, s).0.len() <= s.len() decreases (if n > 0 { n } else { 0 }) + (if m > 0 { m } else { 0 }) {
    point_shrinks(c, v, s); ids_shrink(c, t, s);
    if n > 0 { if point_in(c, v, s) is Some { parts_len(c, v, t, n - 1, m, point_in(c, v, s)->Some_0.1); } } else if m > 0 { if ids_in(c, t, s) is Some { parts_len(c, v, t, n, m - 1, ids_in(c, t, s)->Some_0.1); } }
}
//@ file src/io/ply/utils.rs
//@ freefn collect_index_line
//@ ret r
//@ replace `words.next()? != $1 {` => `!is_bytes(words.next()?, $1) {` ; see is_bytes
//@ spec
    ensures r is Some == (ids_of_line(n_words_before as int, line@) is Some), r is Some ==> ids_of_line(n_words_before as int, line@)->0 == (r->Some_0[0] as int, r->Some_0[1] as int, r->Some_0[2] as int),
//@ start
    broadcast use wd::next_word;
//@ enditem
//@ freefn read_face_type
//@ ret r
//@ replace `FaceType::Char => $1 as usize` => `FaceType::Char => wide($1 as i32)` ; see wide
//@ replace `FaceType::Short => $1 as usize` => `FaceType::Short => wide($1 as i32)` ; see wide
//@ replace `FaceType::Int => $1 as usize` => `FaceType::Int => wide($1 as i32)` ; see wide
//@ spec
    ensures (*final(read)).reliable() == (*old(read)).reliable(), r.is_ok() ==> id_at(BR::big(), t, (*old(read)).left()) == Some((r->Ok_0 as int, (*final(read)).left())),
        (*old(read)).reliable() && r.is_err() ==> id_at(BR::big(), t, (*old(read)).left()) is None,
//@ enditem
//@ freefn read_vertex_type
//@ ret r
//@ spec
    ensures (*final(read)).reliable() == (*old(read)).reliable(), r.is_ok() ==> real_at(BR::big(), t, (*old(read)).left()) == Some((r->Ok_0, (*final(read)).left())),
        (*old(read)).reliable() && r.is_err() ==> real_at(BR::big(), t, (*old(read)).left()) is None,
//@ start
    broadcast use {fl32::ax, sk::ax};
//@ enditem
//@ freefn point_with_order
//@ ret r
//@ spec
    ensures v3(r, ordered(fst, snd, third, order)),
//@ enditem
//@ file src/io/ply/iterators_internal.rs
//@ struct PlyBinaryPointsIterator
//@ attrs
#[verifier::reject_recursive_types(BR)]
#[verifier::reject_recursive_types(P)]
//@ enditem
impl<BR: IsByteReader, P: IsBuildable3D, R: Read> PlyBinaryPointsIterator<BR, P, R> {
    /// reading fails only at the end of the stream
    pub closed spec fn good(&self) -> bool { self.read.reliable() && self.current <= self.header.vertex.count }
    pub closed spec fn head(&self) -> PartialHeader { self.header }
    pub closed spec fn done(&self) -> bool { self.is_done }
    pub closed spec fn missing(&self) -> int { self.header.vertex.count - self.current }
    pub closed spec fn stream(&self) -> Seq<u8> { self.read.left() }
    pub closed spec fn reader(&self) -> R { self.read }
    pub open spec fn left(&self) -> (Seq<V3>, bool) { if self.done() { (Seq::empty(), true) } else { points_in(coding(BR::big()), self.head().vertex.format, self.missing(), self.stream()) } }
    pub open spec fn size(&self) -> int { if self.done() { 0 } else { self.missing() + 1 } }
}
//@ impl PlyBinaryPointsIterator
//@ fn new
//@ ret r
//@ spec
        requires read.reliable(),
        ensures r.good(), !r.done(), r.head() == header, r.missing() == header.vertex.count, r.stream() == read.left(),
//@ fn destruct
//@ ret r
//@ spec
        ensures r == self.reader(), r.left() == self.stream(), self.good() ==> r.reliable(),
//@ fn fetch_one
//@ ret r
//@ start
        hide(real_at);
//@ spec
        ensures final(self).is_done == old(self).is_done, final(self).header == old(self).header, final(self).current == old(self).current, old(self).read.reliable() ==> final(self).read.reliable(),
            r.is_ok() ==> point_of_bytes(BR::big(), old(self).header.vertex.format, old(self).read.left()) is Some && v3(r->Ok_0, point_of_bytes(BR::big(), old(self).header.vertex.format, old(self).read.left())->Some_0.0) && final(self).read.left() == point_of_bytes(BR::big(), old(self).header.vertex.format, old(self).read.left())->Some_0.1,
            old(self).read.reliable() && r.is_err() ==> point_of_bytes(BR::big(), old(self).header.vertex.format, old(self).read.left()) is None,
//@ enditem
//@ impl Iterator for PlyBinaryPointsIterator
//@ header impl<BR: IsByteReader, P: IsBuildable3D, R: Read> PlyBinaryPointsIterator<BR, P, R>
//@ fn next
//@ ret r
//@ sigreplace `Option<Self::Item>` => `Option<PlyResult<P>>` ; associated type of the dropped trait header
//@ replace `self.fetch_one().map_err(|e| { self.is_done = true; e })` => `match self.fetch_one() { Ok(x) => Ok(x), Err(e) => { self.is_done = true; Err(e) } }` ; closure writing to a captured variable
//@ spec
        requires old(self).good(),
        ensures final(self).good(), final(self).head() == old(self).head(), old(self).missing() >= 0,
            match r {
                None => (old(self).done() || old(self).missing() == 0) && final(self).done() && final(self).stream() == old(self).stream(),
                Some(Ok(p)) => !old(self).done() && old(self).missing() > 0 && point_in(coding(BR::big()), old(self).head().vertex.format, old(self).stream()) is Some && v3(p, point_in(coding(BR::big()), old(self).head().vertex.format, old(self).stream())->Some_0.0)
                    && final(self).stream() == point_in(coding(BR::big()), old(self).head().vertex.format, old(self).stream())->Some_0.1 && !final(self).done() && final(self).missing() == old(self).missing() - 1,
                Some(Err(e)) => !old(self).done() && old(self).missing() > 0 && point_in(coding(BR::big()), old(self).head().vertex.format, old(self).stream()) is None && final(self).done(),
            },
//@ enditem
//@ struct PlyAsciiPointsIterator
//@ attrs
#[verifier::reject_recursive_types(P)]
//@ enditem
impl<P: IsBuildable3D, R: BufRead> PlyAsciiPointsIterator<P, R> {
    /// reading fails only at the end of the stream; line numbers are representable
    pub closed spec fn good(&self) -> bool { self.read.reliable() && self.current <= self.header.vertex.count && self.i_line + self.read.left().len() <= usize::MAX }
    pub closed spec fn head(&self) -> PartialHeader { self.header }
    pub closed spec fn done(&self) -> bool { self.is_done }
    pub closed spec fn missing(&self) -> int { self.header.vertex.count - self.current }
    pub closed spec fn stream(&self) -> Seq<u8> { self.read.left() }
    pub open spec fn left(&self) -> (Seq<V3>, bool) { if self.done() { (Seq::empty(), true) } else { points_in(Format::Ascii, self.head().vertex.format, self.missing(), self.stream()) } }
    pub open spec fn size(&self) -> int { if self.done() { 0 } else { self.missing() + 1 } }
}
//@ impl PlyAsciiPointsIterator
//@ fn new
//@ ret r
//@ spec
        requires read.reliable(), i_line + read.left().len() <= usize::MAX,
        ensures r.good(), !r.done(), r.head() == header, r.missing() == header.vertex.count, r.stream() == read.left(),
//@ fn destruct
//@ ret r
//@ spec
        ensures r.0.left() == self.stream(), self.good() ==> r.0.reliable() && r.1 + r.0.left().len() <= usize::MAX,
//@ fn fetch_one
//@ ret r
//@ replace `.and_then(|w| from_ascii(w))` => `.and_then(|w: &[u8]| -> (o: Option<f64>) ensures o == parse::<f64>(w@) { from_ascii(w) })` ; contract on the closure
//@ spec
        ensures r.is_ok() == (point_of_line(header.vertex.format, line@) is Some), r.is_ok() ==> v3(r->Ok_0, point_of_line(header.vertex.format, line@)->0),
//@ start
        broadcast use wd::next_word;
//@ enditem
//@ impl Iterator for PlyAsciiPointsIterator
//@ header impl<P: IsBuildable3D, R: BufRead> PlyAsciiPointsIterator<P, R>
//@ fn next
//@ ret r
//@ sigreplace `Option<Self::Item>` => `Option<PlyIOResult<P>>` ; associated type of the dropped trait header
//@ replace `Some($1.map_err(|e| { self.is_done = true; e }),)` => `Some(match $1 { Ok(x) => Ok(x), Err(e) => { self.is_done = true; Err(e) } })` ; closure writing to a captured variable
//@ spec
        requires old(self).good(),
        ensures final(self).good(), final(self).head() == old(self).head(), old(self).missing() >= 0,
            match r {
                None => (old(self).done() || old(self).missing() == 0) && final(self).done() && final(self).stream() == old(self).stream(),
                Some(Ok(p)) => !old(self).done() && old(self).missing() > 0 && point_in(Format::Ascii, old(self).head().vertex.format, old(self).stream()) is Some && v3(p, point_in(Format::Ascii, old(self).head().vertex.format, old(self).stream())->Some_0.0)
                    && final(self).stream() == point_in(Format::Ascii, old(self).head().vertex.format, old(self).stream())->Some_0.1 && !final(self).done() && final(self).missing() == old(self).missing() - 1,
                Some(Err(e)) => !old(self).done() && old(self).missing() > 0 && point_in(Format::Ascii, old(self).head().vertex.format, old(self).stream()) is None && final(self).done(),
            },
//@ loop 0 start
            proof { rest_is_shorter(old(self).read.left()); }
//@ loop 0 inv
            invariant self.good(), !self.is_done, !old(self).is_done, self.header == old(self).header, self.current == old(self).current, self.current < self.header.vertex.count, self.read.left() == old(self).read.left(),
            ensures self.read.left().len() == 0,
            decreases 0int,
//@ enditem
//@ struct PlyBinaryFacesIterator
//@ attrs
#[verifier::reject_recursive_types(BR)]
//@ enditem
impl<BR: IsByteReader, R: Read> PlyBinaryFacesIterator<BR, R> {
    /// reading fails only at the end of the stream
    pub closed spec fn good(&self) -> bool { self.read.reliable() && self.current <= self.header.face.count }
    pub closed spec fn head(&self) -> FullHeader { self.header }
    pub closed spec fn done(&self) -> bool { self.is_done }
    pub closed spec fn missing(&self) -> int { self.header.face.count - self.current }
    pub closed spec fn stream(&self) -> Seq<u8> { self.read.left() }
    pub open spec fn size(&self) -> int { if self.done() { 0 } else { self.missing() + 1 } }
}
//@ impl PlyBinaryFacesIterator
//@ fn new
//@ ret r
//@ spec
        requires read.reliable(),
        ensures r.good(), !r.done(), r.head() == header, r.missing() == header.face.count, r.stream() == read.left(),
//@ fn fetch_one
//@ ret r
//@ start
        hide(id_at);
//@ spec
        ensures final(self).is_done == old(self).is_done, final(self).header == old(self).header, final(self).current == old(self).current, old(self).read.reliable() ==> final(self).read.reliable(),
            r.is_ok() ==> ids_of_bytes(BR::big(), old(self).header.face.format, old(self).read.left()) == Some(((r->Ok_0[0] as int, r->Ok_0[1] as int, r->Ok_0[2] as int), final(self).read.left())),
            old(self).read.reliable() && r.is_err() ==> ids_of_bytes(BR::big(), old(self).header.face.format, old(self).read.left()) is None,
//@ enditem
//@ impl Iterator for PlyBinaryFacesIterator
//@ header impl<BR: IsByteReader, R: Read> PlyBinaryFacesIterator<BR, R>
//@ fn next
//@ ret r
//@ sigreplace `Option<Self::Item>` => `Option<PlyResult<[usize; 3]>>` ; associated type of the dropped trait header
//@ replace `self.fetch_one().map_err(|e| { self.is_done = true; e })` => `match self.fetch_one() { Ok(x) => Ok(x), Err(e) => { self.is_done = true; Err(e) } }` ; closure writing to a captured variable
//@ spec
        requires old(self).good(),
        ensures final(self).good(), final(self).head() == old(self).head(), old(self).missing() >= 0,
            match r {
                None => (old(self).done() || old(self).missing() == 0) && final(self).done(),
                Some(Ok(x)) => !old(self).done() && old(self).missing() > 0 && ids_in(coding(BR::big()), old(self).head().face.format, old(self).stream()) == Some(((x[0] as int, x[1] as int, x[2] as int), final(self).stream()))
                    && !final(self).done() && final(self).missing() == old(self).missing() - 1,
                Some(Err(e)) => !old(self).done() && old(self).missing() > 0 && ids_in(coding(BR::big()), old(self).head().face.format, old(self).stream()) is None && final(self).done(),
            },
//@ enditem
//@ struct PlyAsciiFacesIterator
//@ attrs
//@ enditem
impl<R: BufRead> PlyAsciiFacesIterator<R> {
    /// reading fails only at the end of the stream; line numbers are representable
    pub closed spec fn good(&self) -> bool { self.read.reliable() && self.current <= self.header.face.count && self.i_line + self.read.left().len() <= usize::MAX }
    pub closed spec fn head(&self) -> FullHeader { self.header }
    pub closed spec fn done(&self) -> bool { self.is_done }
    pub closed spec fn missing(&self) -> int { self.header.face.count - self.current }
    pub closed spec fn stream(&self) -> Seq<u8> { self.read.left() }
    pub open spec fn size(&self) -> int { if self.done() { 0 } else { self.missing() + 1 } }
}
//@ impl PlyAsciiFacesIterator
//@ fn new
//@ ret r
//@ spec
        requires read.reliable(), i_line + read.left().len() <= usize::MAX,
        ensures r.good(), !r.done(), r.head() == header, r.missing() == header.face.count, r.stream() == read.left(),
//@ enditem
//@ impl Iterator for PlyAsciiFacesIterator
//@ header impl<R: BufRead> PlyAsciiFacesIterator<R>
//@ fn next
//@ ret r
//@ sigreplace `Option<Self::Item>` => `Option<PlyIOResult<[usize; 3]>>` ; associated type of the dropped trait header
//@ replace `Some($1.map_err(|e| { self.is_done = true; e }),)` => `Some(match $1 { Ok(x) => Ok(x), Err(e) => { self.is_done = true; Err(e) } })` ; closure writing to a captured variable
//@ spec
        requires old(self).good(),
        ensures final(self).good(), final(self).head() == old(self).head(), old(self).missing() >= 0,
            match r {
                None => (old(self).done() || old(self).missing() == 0 || old(self).stream().len() == 0) && final(self).done(),
                Some(Ok(x)) => !old(self).done() && old(self).missing() > 0 && ids_in(Format::Ascii, old(self).head().face.format, old(self).stream()) == Some(((x[0] as int, x[1] as int, x[2] as int), final(self).stream()))
                    && !final(self).done() && final(self).missing() == old(self).missing() - 1,
                Some(Err(e)) => !old(self).done() && old(self).missing() > 0 && old(self).stream().len() > 0 && ids_in(Format::Ascii, old(self).head().face.format, old(self).stream()) is None && final(self).done(),
            },
//@ loop 0 start
            proof { rest_is_shorter(old(self).read.left()); }
//@ loop 0 inv
            invariant self.good(), !self.is_done, !old(self).is_done, self.header == old(self).header, self.current == old(self).current + 1, self.current <= self.header.face.count, self.read.left() == old(self).read.left(),
            ensures self.read.left().len() == 0,
            decreases 0int,
//@ enditem
//@ struct PlyAsciiMeshIterator
//@ attrs
#[verifier::reject_recursive_types(P)]
//@ enditem
impl<P: IsBuildable3D, R: BufRead> PlyAsciiMeshIterator<P, R> {
    /// points until they are finished, then faces
    pub closed spec fn good(&self) -> bool {
        if self.p_iter is Some { self.p_iter->0.good() && self.p_iter->0.head() == partial(Header::Full(self.header)) && self.p_iter->0.missing() >= 0 }
        else { self.f_iter is Some && self.f_iter->0.good() && self.f_iter->0.head() == self.header && self.f_iter->0.missing() >= 0 }
    }
    pub closed spec fn left(&self) -> (Seq<Part>, bool) {
        if self.p_iter is Some { parts_in(Format::Ascii, self.header.vertex.format, self.header.face.format, if self.p_iter->0.done() { 0 } else { self.p_iter->0.missing() }, self.header.face.count as int, self.p_iter->0.stream()) }
        else if self.f_iter->0.done() { (Seq::empty(), true) }
        else { parts_in(Format::Ascii, self.header.vertex.format, self.header.face.format, 0, self.f_iter->0.missing(), self.f_iter->0.stream()) }
    }
    pub closed spec fn size(&self) -> int { if self.p_iter is Some { self.p_iter->0.size() + self.header.face.count + 2 } else { self.f_iter->0.size() } }
}
//@ impl PlyAsciiMeshIterator
//@ fn new
//@ ret r
//@ spec
        requires read.reliable(), i_line + read.left().len() <= usize::MAX,
        ensures r.good(), r.left() == parts_in(Format::Ascii, header.vertex.format, header.face.format, header.vertex.count as int, header.face.count as int, read.left()),
//@ enditem
//@ impl Iterator for PlyAsciiMeshIterator
//@ header impl<P: IsBuildable3D, R: BufRead> PlyAsciiMeshIterator<P, R>
//@ fn next
//@ ret r
//@ sigreplace `Option<Self::Item>` => `Option<PlyIOResult<io::types::FaceData<P>>>` ; associated type of the dropped trait header
//@ replace `x.map(|x| io::types::FaceData::Data(x))` => `x.map(|x: P| -> (o: io::types::FaceData<P>) ensures o == io::types::FaceData::Data(x) { io::types::FaceData::Data(x) })` ; contract on the closure
//@ replace `.map(|x| x.map(|x| io::types::FaceData::Face(x)))` => `.map(|x: PlyIOResult<[usize; 3]>| -> (o: PlyIOResult<io::types::FaceData<P>>) ensures o is Ok == x is Ok, x is Ok ==> o->Ok_0 == io::types::FaceData::<P>::Face(x->Ok_0) { x.map(|y: [usize; 3]| -> (o: io::types::FaceData<P>) ensures o == io::types::FaceData::<P>::Face(y) { io::types::FaceData::Face(y) }) })` ; contracts on the closures
//@ spec
        requires old(self).good(),
        ensures final(self).good(), final(self).size() >= 0, r is Some ==> final(self).size() < old(self).size(),
            match r {
                None => old(self).left() == (Seq::<Part>::empty(), true),
                Some(Ok(p)) => old(self).left().0.len() > 0 && final(self).left() == (old(self).left().0.skip(1), old(self).left().1) && match p {
                    io::types::FaceData::Data(x) => old(self).left().0[0] is Vertex && v3(x, old(self).left().0[0]->Vertex_0),
                    io::types::FaceData::Face(x) => old(self).left().0[0] == Part::Face(x[0] as int, x[1] as int, x[2] as int),
                },
                Some(Err(e)) => old(self).left() == (Seq::<Part>::empty(), false),
            },
//@ start
        proof { let t = (self.header.vertex.format, self.header.face.format);
            if self.p_iter is Some { let p = self.p_iter->0; let q = point_in(Format::Ascii, t.0, p.stream()); if q is Some && p.missing() > 0 { let k = parts_in(Format::Ascii, t.0, t.1, p.missing() - 1, self.header.face.count as int, q->Some_0.1); assert((seq![Part::Vertex(q->Some_0.0)] + k.0).skip(1) == k.0); } }
            let fs = if self.p_iter is Some { (self.header.face.count as int, self.p_iter->0.stream()) } else { (self.f_iter->0.missing(), self.f_iter->0.stream()) };
            let i = ids_in(Format::Ascii, t.1, fs.1);
            if i is Some && fs.0 > 0 { let x = i->Some_0.0; let k = parts_in(Format::Ascii, t.0, t.1, 0, fs.0 - 1, i->Some_0.1); assert((seq![Part::Face(x.0, x.1, x.2)] + k.0).skip(1) == k.0); }
        }
//@ enditem
//@ struct PlyBinaryMeshIterator
//@ attrs
#[verifier::reject_recursive_types(BR)]
#[verifier::reject_recursive_types(P)]
//@ enditem
impl<BR: IsByteReader, P: IsBuildable3D, R: Read> PlyBinaryMeshIterator<BR, P, R> {
    /// points until they are finished, then faces
    pub closed spec fn good(&self) -> bool {
        if self.p_iter is Some { self.p_iter->0.good() && self.p_iter->0.head() == partial(Header::Full(self.header)) && self.p_iter->0.missing() >= 0 }
        else { self.f_iter is Some && self.f_iter->0.good() && self.f_iter->0.head() == self.header && self.f_iter->0.missing() >= 0 }
    }
    pub closed spec fn left(&self) -> (Seq<Part>, bool) {
        if self.p_iter is Some { parts_in(coding(BR::big()), self.header.vertex.format, self.header.face.format, if self.p_iter->0.done() { 0 } else { self.p_iter->0.missing() }, self.header.face.count as int, self.p_iter->0.stream()) }
        else if self.f_iter->0.done() { (Seq::empty(), true) }
        else { parts_in(coding(BR::big()), self.header.vertex.format, self.header.face.format, 0, self.f_iter->0.missing(), self.f_iter->0.stream()) }
    }
    pub closed spec fn size(&self) -> int { if self.p_iter is Some { self.p_iter->0.size() + self.header.face.count + 2 } else { self.f_iter->0.size() } }
}
//@ impl PlyBinaryMeshIterator
//@ fn new
//@ ret r
//@ spec
        requires read.reliable(),
        ensures r.good(), r.left() == parts_in(coding(BR::big()), header.vertex.format, header.face.format, header.vertex.count as int, header.face.count as int, read.left()),
//@ enditem
//@ impl Iterator for PlyBinaryMeshIterator
//@ header impl<BR: IsByteReader, P: IsBuildable3D, R: Read> PlyBinaryMeshIterator<BR, P, R>
//@ fn next
//@ ret r
//@ sigreplace `Option<Self::Item>` => `Option<PlyResult<io::types::FaceData<P>>>` ; associated type of the dropped trait header
//@ replace `x.map(|x| io::types::FaceData::Data(x))` => `x.map(|x: P| -> (o: io::types::FaceData<P>) ensures o == io::types::FaceData::Data(x) { io::types::FaceData::Data(x) })` ; contract on the closure
//@ replace `.map(|x| x.map(|x| io::types::FaceData::Face(x)))` => `.map(|x: PlyResult<[usize; 3]>| -> (o: PlyResult<io::types::FaceData<P>>) ensures o is Ok == x is Ok, x is Ok ==> o->Ok_0 == io::types::FaceData::<P>::Face(x->Ok_0) { x.map(|y: [usize; 3]| -> (o: io::types::FaceData<P>) ensures o == io::types::FaceData::<P>::Face(y) { io::types::FaceData::Face(y) }) })` ; contracts on the closures
//@ spec
        requires old(self).good(),
        ensures final(self).good(), final(self).size() >= 0, r is Some ==> final(self).size() < old(self).size(),
            match r {
                None => old(self).left() == (Seq::<Part>::empty(), true),
                Some(Ok(p)) => old(self).left().0.len() > 0 && final(self).left() == (old(self).left().0.skip(1), old(self).left().1) && match p {
                    io::types::FaceData::Data(x) => old(self).left().0[0] is Vertex && v3(x, old(self).left().0[0]->Vertex_0),
                    io::types::FaceData::Face(x) => old(self).left().0[0] == Part::Face(x[0] as int, x[1] as int, x[2] as int),
                },
                Some(Err(e)) => old(self).left() == (Seq::<Part>::empty(), false),
            },
//@ start
        proof { let t = (self.header.vertex.format, self.header.face.format);
            if self.p_iter is Some { let p = self.p_iter->0; let q = point_in(coding(BR::big()), t.0, p.stream()); if q is Some && p.missing() > 0 { let k = parts_in(coding(BR::big()), t.0, t.1, p.missing() - 1, self.header.face.count as int, q->Some_0.1); assert((seq![Part::Vertex(q->Some_0.0)] + k.0).skip(1) == k.0); } }
            let fs = if self.p_iter is Some { (self.header.face.count as int, self.p_iter->0.stream()) } else { (self.f_iter->0.missing(), self.f_iter->0.stream()) };
            let i = ids_in(coding(BR::big()), t.1, fs.1);
            if i is Some && fs.0 > 0 { let x = i->Some_0.0; let k = parts_in(coding(BR::big()), t.0, t.1, 0, fs.0 - 1, i->Some_0.1); assert((seq![Part::Face(x.0, x.1, x.2)] + k.0).skip(1) == k.0); }
        }
//@ enditem
pub open spec fn points_step(c: Format, v: VertexFormat, n: int, s: Seq<u8>) -> bool {
    n > 0 && point_in(c, v, s) is Some ==> ({ let p = point_in(c, v, s)->Some_0; points_in(c, v, n, s).0.len() > 0 && points_in(c, v, n, s).0[0] == p.0 && (points_in(c, v, n, s).0.skip(1), points_in(c, v, n, s).1) == points_in(c, v, n - 1, p.1) })
}
pub proof fn point_delivered(c: Format, v: VertexFormat, n: int, s: Seq<u8>) ensures points_step(c, v, n, s)
{ if n > 0 && point_in(c, v, s) is Some { let p = point_in(c, v, s)->Some_0; let t = points_in(c, v, n - 1, p.1); assert((seq![p.0] + t.0).skip(1) == t.0); } }
//@ enum BinaryOrAsciiPlyPointsInteralIterator
//@ attrs
#[verifier::reject_recursive_types(P)]
//@ enditem
//@ enum BinaryOrAsciiPlyMeshInteralIterator
//@ attrs
#[verifier::reject_recursive_types(P)]
//@ enditem
//@ file src/io/ply/iterators.rs
//@ struct PlyMeshIterator
//@ attrs
#[verifier::reject_recursive_types(P)]
//@ enditem
impl<P: IsBuildable3D, R: BufRead> PlyMeshIterator<P, R> {
    pub closed spec fn good(&self) -> bool { match self.inner { BinaryOrAsciiPlyMeshInteralIterator::Ascii(x) => x.good() && x.size() >= 0, BinaryOrAsciiPlyMeshInteralIterator::BinaryLittle(x) => x.good() && x.size() >= 0, BinaryOrAsciiPlyMeshInteralIterator::BinaryBig(x) => x.good() && x.size() >= 0 } }
    pub closed spec fn left(&self) -> (Seq<Part>, bool) { match self.inner { BinaryOrAsciiPlyMeshInteralIterator::Ascii(x) => x.left(), BinaryOrAsciiPlyMeshInteralIterator::BinaryLittle(x) => x.left(), BinaryOrAsciiPlyMeshInteralIterator::BinaryBig(x) => x.left() } }
    pub closed spec fn size(&self) -> int { (if self.to_reserve_data_faces is Some { 1int } else { 0 }) + match self.inner { BinaryOrAsciiPlyMeshInteralIterator::Ascii(x) => x.size(), BinaryOrAsciiPlyMeshInteralIterator::BinaryLittle(x) => x.size(), BinaryOrAsciiPlyMeshInteralIterator::BinaryBig(x) => x.size() } }
}
//@ impl PlyMeshIterator
//@ fn new
//@ ret r
//@ spec
        requires read.reliable(), read.left().len() <= usize::MAX,
        ensures r.is_ok() ==> r->Ok_0.good() && r->Ok_0.size() >= 0 && r->Ok_0.left() == file_parts(read.left()), r.is_err() ==> file_parts(read.left()) == (Seq::<Part>::empty(), false),
//@ enditem
//@ impl Iterator for PlyMeshIterator
//@ header impl<P: IsBuildable3D, R: BufRead> PlyMeshIterator<P, R>
//@ fn next
//@ ret r
//@ sigreplace `Option<Self::Item>` => `Option<PlyIOResult<FaceDataReserve<P>>>` ; associated type of the dropped trait header
//@ replace `x.next().map(|x| x.map(|x| x.into()))` => `x.next().map(|x: PlyIOResult<io::types::FaceData<P>>| -> (o: PlyIOResult<FaceDataReserve<P>>) ensures o is Ok == x is Ok, x is Ok ==> o->Ok_0 == as_part(x->Ok_0) { x.map(|y: io::types::FaceData<P>| -> (o: FaceDataReserve<P>) ensures o == as_part(y) { y.into() }) })` ; contracts on the closures
//@ replace `x.next().map(|x| x.map(|x| x.into()).simple())` => `x.next().map(|x: PlyResult<io::types::FaceData<P>>| -> (o: PlyIOResult<FaceDataReserve<P>>) ensures o is Ok == x is Ok, x is Ok ==> o->Ok_0 == as_part(x->Ok_0) { x.map(|y: io::types::FaceData<P>| -> (o: FaceDataReserve<P>) ensures o == as_part(y) { y.into() }).simple() })` ; contracts on the closures
//@ spec
        requires old(self).good(),
        ensures final(self).good(), final(self).size() >= 0, r is Some ==> final(self).size() < old(self).size(),
            match r {
                None => old(self).left() == (Seq::<Part>::empty(), true),
                Some(Ok(FaceDataReserve::ReserveDataFaces(n, m))) => final(self).left() == old(self).left(),
                Some(Ok(p)) => old(self).left().0.len() > 0 && final(self).left() == (old(self).left().0.skip(1), old(self).left().1) && match p {
                    FaceDataReserve::Data(x) => old(self).left().0[0] is Vertex && v3(x, old(self).left().0[0]->Vertex_0),
                    FaceDataReserve::Face(x) => old(self).left().0[0] == Part::Face(x[0] as int, x[1] as int, x[2] as int),
                    FaceDataReserve::ReserveDataFaces(n, m) => true,
                },
                Some(Err(e)) => old(self).left() == (Seq::<Part>::empty(), false),
            },
//@ enditem
/// with the reserve case added
pub open spec fn as_part<T>(x: io::types::FaceData<T>) -> FaceDataReserve<T> { match x { io::types::FaceData::Data(x) => FaceDataReserve::Data(x), io::types::FaceData::Face(x) => FaceDataReserve::Face(x) } }
proof fn inner_next<P: IsBuildable3D, R: BufRead>(i: &BinaryOrAsciiPlyPointsInteralIterator<P, R>)
    ensures match *i {
        BinaryOrAsciiPlyPointsInteralIterator::Ascii(x) => points_step(Format::Ascii, x.head().vertex.format, x.missing(), x.stream()),
        BinaryOrAsciiPlyPointsInteralIterator::BinaryLittle(x) => points_step(Format::LittleEndian, x.head().vertex.format, x.missing(), x.stream()),
        BinaryOrAsciiPlyPointsInteralIterator::BinaryBig(x) => points_step(Format::BigEndian, x.head().vertex.format, x.missing(), x.stream()) },
{ match i { BinaryOrAsciiPlyPointsInteralIterator::Ascii(x) => { point_delivered(Format::Ascii, x.head().vertex.format, x.missing(), x.stream()); }, BinaryOrAsciiPlyPointsInteralIterator::BinaryLittle(x) => { point_delivered(Format::LittleEndian, x.head().vertex.format, x.missing(), x.stream()); }, BinaryOrAsciiPlyPointsInteralIterator::BinaryBig(x) => { point_delivered(Format::BigEndian, x.head().vertex.format, x.missing(), x.stream()); } } }
//@ struct PlyPointsIterator
//@ attrs
#[verifier::reject_recursive_types(P)]
//@ enditem
impl<P: IsBuildable3D, R: BufRead> PlyPointsIterator<P, R> {
    pub closed spec fn good(&self) -> bool { match self.inner { BinaryOrAsciiPlyPointsInteralIterator::Ascii(x) => x.good(), BinaryOrAsciiPlyPointsInteralIterator::BinaryLittle(x) => x.good(), BinaryOrAsciiPlyPointsInteralIterator::BinaryBig(x) => x.good() } }
    pub closed spec fn left(&self) -> (Seq<V3>, bool) { match self.inner { BinaryOrAsciiPlyPointsInteralIterator::Ascii(x) => x.left(), BinaryOrAsciiPlyPointsInteralIterator::BinaryLittle(x) => x.left(), BinaryOrAsciiPlyPointsInteralIterator::BinaryBig(x) => x.left() } }
    pub closed spec fn size(&self) -> int { (if self.to_reserve is Some { 1int } else { 0 }) + match self.inner { BinaryOrAsciiPlyPointsInteralIterator::Ascii(x) => x.size(), BinaryOrAsciiPlyPointsInteralIterator::BinaryLittle(x) => x.size(), BinaryOrAsciiPlyPointsInteralIterator::BinaryBig(x) => x.size() } }
}
//@ impl PlyPointsIterator
//@ fn new
//@ ret r
//@ spec
        requires read.reliable(), read.left().len() <= usize::MAX,
        ensures r.is_ok() ==> r->Ok_0.good() && r->Ok_0.size() >= 0 && r->Ok_0.left() == file_points(read.left()), r.is_err() ==> file_points(read.left()) == (Seq::<V3>::empty(), false),
//@ enditem
//@ impl Iterator for PlyPointsIterator
//@ header impl<P: IsBuildable3D, R: BufRead> PlyPointsIterator<P, R>
//@ fn next
//@ ret r
//@ sigreplace `Option<Self::Item>` => `Option<PlyIOResult<DataReserve<P>>>` ; associated type of the dropped trait header
//@ replace `x.next().map(|x| x.simple())` => `x.next().map(|x: PlyResult<P>| -> (o: PlyIOResult<P>) ensures o is Ok == x is Ok, x is Ok ==> o->Ok_0 == x->Ok_0 { x.simple() })` ; contract on the closure
//@ replace `.map(|x| x.map(|x| DataReserve::Data(x)))` => `.map(|x: PlyIOResult<P>| -> (o: PlyIOResult<DataReserve<P>>) ensures o is Ok == x is Ok, x is Ok ==> o->Ok_0 == DataReserve::Data(x->Ok_0) { x.map(|y: P| -> (o: DataReserve<P>) ensures o == DataReserve::Data(y) { DataReserve::Data(y) }) })` ; contracts on the closures
//@ spec
        requires old(self).good(),
        ensures final(self).good(), final(self).size() >= 0, r is Some ==> final(self).size() < old(self).size(),
            match r {
                None => old(self).left() == (Seq::<V3>::empty(), true) && final(self).left() == old(self).left(),
                Some(Ok(DataReserve::Reserve(n))) => final(self).left() == old(self).left(),
                Some(Ok(DataReserve::Data(p))) => old(self).left().0.len() > 0 && v3(p, old(self).left().0[0]) && final(self).left() == (old(self).left().0.skip(1), old(self).left().1),
                Some(Err(e)) => old(self).left() == (Seq::<V3>::empty(), false) && final(self).left() == (Seq::<V3>::empty(), true),
            },
//@ start
        proof { inner_next(&self.inner); }
//@ enditem
//@ file src/io/ply/load.rs
//@ freefn load_points_binary
//@ ret r
//@ sigreplace `read: &mut R` => `read: R` ; the iterator reads through the reference, the caller does not read on
//@ replace `for p in iterator` => `let mut iterator = iterator; while let Some(p) = iterator.next()` ; desugared for loop over the library's own iterator
//@ spec
    requires read.reliable(),
    ensures r.is_ok() == points_in(coding(BR::big()), header.vertex.format, header.vertex.count as int, read.left()).1, appended(old(ip).list(), final(ip).list(), points_in(coding(BR::big()), header.vertex.format, header.vertex.count as int, read.left()).0),
//@ start
    let ghost all = points_in(coding(BR::big()), header.vertex.format, header.vertex.count as int, read.left());
    let ghost before = ip.list();
//@ loop 0 before
    proof { delivered_start(before, all); }
    let ghost mut now = all;
    let ghost mut size = iterator.size();
    let ghost mut was = (iterator.missing(), iterator.stream());
//@ loop 0 inv
        invariant_except_break now == iterator.left(), iterator.good(), size == iterator.size(), size >= 0, !iterator.done(), iterator.missing() >= 0, was == (iterator.missing(), iterator.stream()), iterator.head() == header,
        invariant all == points_in(coding(BR::big()), header.vertex.format, header.vertex.count as int, read.left()), before == old(ip).list(), delivered(before, ip.list(), all, now),
        ensures now == (Seq::<V3>::empty(), true),
        decreases size,
//@ loop 0 start
        proof { size = iterator.size(); point_delivered(coding(BR::big()), iterator.head().vertex.format, was.0, was.1); if p is Ok { delivered_step(before, ip.list(), p->Ok_0, all, now, iterator.left()); now = iterator.left(); was = (iterator.missing(), iterator.stream()); } else { delivered_end(before, ip.list(), all, now); } }
//@ loop 0 after
    proof { delivered_end(before, ip.list(), all, now); }
//@ enditem
//@ freefn load_points_ascii
//@ ret r
//@ sigreplace `read: &mut R` => `read: R` ; the iterator reads through the reference, the caller does not read on
//@ replace `for p in iterator` => `let mut iterator = iterator; while let Some(p) = iterator.next()` ; desugared for loop over the library's own iterator
//@ spec
    requires read.reliable(), i_line + read.left().len() <= usize::MAX,
    ensures r.is_ok() == points_in(Format::Ascii, header.vertex.format, header.vertex.count as int, read.left()).1, appended(old(ip).list(), final(ip).list(), points_in(Format::Ascii, header.vertex.format, header.vertex.count as int, read.left()).0),
//@ start
    let ghost all = points_in(Format::Ascii, header.vertex.format, header.vertex.count as int, read.left());
    let ghost before = ip.list();
//@ loop 0 before
    proof { delivered_start(before, all); }
    let ghost mut now = all;
    let ghost mut size = iterator.size();
    let ghost mut was = (iterator.missing(), iterator.stream());
//@ loop 0 inv
        invariant_except_break now == iterator.left(), iterator.good(), size == iterator.size(), size >= 0, !iterator.done(), iterator.missing() >= 0, was == (iterator.missing(), iterator.stream()), iterator.head() == header,
        invariant all == points_in(Format::Ascii, header.vertex.format, header.vertex.count as int, read.left()), before == old(ip).list(), delivered(before, ip.list(), all, now),
        ensures now == (Seq::<V3>::empty(), true),
        decreases size,
//@ loop 0 start
        proof { size = iterator.size(); point_delivered(Format::Ascii, iterator.head().vertex.format, was.0, was.1); if p is Ok { delivered_step(before, ip.list(), p->Ok_0, all, now, iterator.left()); now = iterator.left(); was = (iterator.missing(), iterator.stream()); } else { delivered_end(before, ip.list(), all, now); } }
//@ loop 0 after
    proof { delivered_end(before, ip.list(), all, now); }
//@ enditem
//@ freefn load_mesh_binary
//@ ret r
//@ replace `.or(Err(PlyError::InvalidMeshIndices))` => `.map_err(|_e| PlyError::InvalidMeshIndices)` ; std's Result::or, for an error
//@ sigreplace `read: &mut R` => `read: R` ; the iterator reads through the reference, the caller does not read on
//@ replace `for fd in iterator` => `let mut iterator = iterator; while let Some(fd) = iterator.next()` ; desugared for loop over the library's own iterator
//@ replace `io::types::FaceData::Face([a, b, c]) => {` => `io::types::FaceData::Face(abc__) => { let a = abc__[0]; let b = abc__[1]; let c = abc__[2];` ; array pattern
//@ spec
    requires read.reliable(), old(mesh).mwf(), old(mesh).ewf(), forall|n: nat| n <= old(mesh).nv() + read.left().len() ==> #[trigger] EM::ids_ok(n),
    ensures final(mesh).mwf(), final(mesh).ewf(), valid::<P, Face3, EM>(*old(mesh)) ==> valid::<P, Face3, EM>(*final(mesh)),
        r.is_ok() == (parts_in(coding(BR::big()), header.vertex.format, header.face.format, header.vertex.count as int, header.face.count as int, read.left()).1 && sound(parts_in(coding(BR::big()), header.vertex.format, header.face.format, header.vertex.count as int, header.face.count as int, read.left()).0, old(mesh).nv())),
        r.is_ok() ==> built::<P, EM>(*old(mesh), *final(mesh), parts_in(coding(BR::big()), header.vertex.format, header.face.format, header.vertex.count as int, header.face.count as int, read.left()).0),
//@ start
    let ghost all = parts_in(coding(BR::big()), header.vertex.format, header.face.format, header.vertex.count as int, header.face.count as int, read.left());
    let ghost m0 = *mesh;
    proof { parts_len(coding(BR::big()), header.vertex.format, header.face.format, header.vertex.count as int, header.face.count as int, read.left()); }
//@ loop 0 before
    proof { meshed_start::<P, EM>(m0, all); }
    let ghost mut now = all;
    let ghost mut was = m0;
    let ghost mut size = iterator.size();
//@ loop 0 inv
        invariant_except_break now == iterator.left(), iterator.good(), was == *mesh, size == iterator.size(), size >= 0,
        invariant all == parts_in(coding(BR::big()), header.vertex.format, header.face.format, header.vertex.count as int, header.face.count as int, read.left()), m0 == *old(mesh), mesh.mwf(), mesh.ewf(), valid::<P, Face3, EM>(m0) ==> valid::<P, Face3, EM>(*mesh), meshed::<P, EM>(m0, *mesh, all, now),
            forall|n: nat| n <= m0.nv() + all.0.len() ==> #[trigger] EM::ids_ok(n),
        ensures now == (Seq::<Part>::empty(), true),
        decreases size,
//@ loop 0 start
        proof { size = iterator.size(); meshed_nv::<P, EM>(m0, was, all, now); if fd is Ok { if now.0.len() > 0 && !face_ok(now.0[0], was.nv() as int) { meshed_unsound::<P, EM>(m0, was, all, now); } } else { meshed_end::<P, EM>(m0, was, all, now); } }
        let ghost next = iterator.left();
        let ghost reserve = false;
//@ loop 0 end
        proof {
            if reserve {
                assert forall|i: int| 0 <= i < was.nf() implies #[trigger] mesh.unit(i) == was.unit(i) by { }
                if valid::<P, Face3, EM>(was) { assert forall|i: int, k: int| 0 <= i < mesh.nf() && 0 <= k < 3 implies #[trigger] EM::corner(mesh.unit(i), k) < mesh.nv() by { assert(EM::corner(was.unit(i), k) < was.nv()); } }
                meshed_same::<P, EM>(m0, was, *mesh, all, now);
            }
            else if now.0[0] is Vertex { let p = choose|p: P| v3(p, now.0[0]->Vertex_0) && forall|y: P| mesh.vert(was.nv() as int, y) == EM::vrep(p, y); meshed_vertex::<P, EM>(m0, was, *mesh, p, all, now, next); } else { meshed_face::<P, EM>(m0, was, *mesh, all, now, next); }
            now = next; was = *mesh;
        }
//@ loop 0 after
    proof { meshed_end::<P, EM>(m0, *mesh, all, now); }
//@ enditem
//@ freefn load_mesh_ascii
//@ ret r
//@ replace `.or(Err(PlyError::InvalidMeshIndices))` => `.map_err(|_e| PlyError::InvalidMeshIndices)` ; std's Result::or, for an error
//@ sigreplace `read: &mut R` => `read: R` ; the iterator reads through the reference, the caller does not read on
//@ replace `for fd in iterator` => `let mut iterator = iterator; while let Some(fd) = iterator.next()` ; desugared for loop over the library's own iterator
//@ replace `io::types::FaceData::Face([a, b, c]) => {` => `io::types::FaceData::Face(abc__) => { let a = abc__[0]; let b = abc__[1]; let c = abc__[2];` ; array pattern
//@ spec
    requires read.reliable(), *old(i_line) + read.left().len() <= usize::MAX, old(mesh).mwf(), old(mesh).ewf(), forall|n: nat| n <= old(mesh).nv() + read.left().len() ==> #[trigger] EM::ids_ok(n),
    ensures final(mesh).mwf(), final(mesh).ewf(), valid::<P, Face3, EM>(*old(mesh)) ==> valid::<P, Face3, EM>(*final(mesh)),
        r.is_ok() == (parts_in(Format::Ascii, header.vertex.format, header.face.format, header.vertex.count as int, header.face.count as int, read.left()).1 && sound(parts_in(Format::Ascii, header.vertex.format, header.face.format, header.vertex.count as int, header.face.count as int, read.left()).0, old(mesh).nv())),
        r.is_ok() ==> built::<P, EM>(*old(mesh), *final(mesh), parts_in(Format::Ascii, header.vertex.format, header.face.format, header.vertex.count as int, header.face.count as int, read.left()).0),
//@ start
    let ghost all = parts_in(Format::Ascii, header.vertex.format, header.face.format, header.vertex.count as int, header.face.count as int, read.left());
    let ghost m0 = *mesh;
    proof { parts_len(Format::Ascii, header.vertex.format, header.face.format, header.vertex.count as int, header.face.count as int, read.left()); }
//@ loop 0 before
    proof { meshed_start::<P, EM>(m0, all); }
    let ghost mut now = all;
    let ghost mut was = m0;
    let ghost mut size = iterator.size();
//@ loop 0 inv
        invariant_except_break now == iterator.left(), iterator.good(), was == *mesh, size == iterator.size(), size >= 0,
        invariant all == parts_in(Format::Ascii, header.vertex.format, header.face.format, header.vertex.count as int, header.face.count as int, read.left()), m0 == *old(mesh), mesh.mwf(), mesh.ewf(), valid::<P, Face3, EM>(m0) ==> valid::<P, Face3, EM>(*mesh), meshed::<P, EM>(m0, *mesh, all, now),
            forall|n: nat| n <= m0.nv() + all.0.len() ==> #[trigger] EM::ids_ok(n),
        ensures now == (Seq::<Part>::empty(), true),
        decreases size,
//@ loop 0 start
        proof { size = iterator.size(); meshed_nv::<P, EM>(m0, was, all, now); if fd is Ok { if now.0.len() > 0 && !face_ok(now.0[0], was.nv() as int) { meshed_unsound::<P, EM>(m0, was, all, now); } } else { meshed_end::<P, EM>(m0, was, all, now); } }
        let ghost next = iterator.left();
        let ghost reserve = false;
//@ loop 0 end
        proof {
            if reserve {
                assert forall|i: int| 0 <= i < was.nf() implies #[trigger] mesh.unit(i) == was.unit(i) by { }
                if valid::<P, Face3, EM>(was) { assert forall|i: int, k: int| 0 <= i < mesh.nf() && 0 <= k < 3 implies #[trigger] EM::corner(mesh.unit(i), k) < mesh.nv() by { assert(EM::corner(was.unit(i), k) < was.nv()); } }
                meshed_same::<P, EM>(m0, was, *mesh, all, now);
            }
            else if now.0[0] is Vertex { let p = choose|p: P| v3(p, now.0[0]->Vertex_0) && forall|y: P| mesh.vert(was.nv() as int, y) == EM::vrep(p, y); meshed_vertex::<P, EM>(m0, was, *mesh, p, all, now, next); } else { meshed_face::<P, EM>(m0, was, *mesh, all, now, next); }
            now = next; was = *mesh;
        }
//@ loop 0 after
    proof { meshed_end::<P, EM>(m0, *mesh, all, now); }
//@ enditem
//@ freefn load_ply_points
//@ ret r
//@ replace `for rp in iterator` => `let mut iterator = iterator; while let Some(rp) = iterator.next()` ; desugared for loop over the library's own iterator
//@ spec
    requires read.reliable(), read.left().len() <= usize::MAX,
    ensures r.is_ok() == file_points(read.left()).1, appended(old(ip).list(), final(ip).list(), file_points(read.left()).0),
//@ start
    let ghost all = file_points(read.left());
    let ghost before = ip.list();
//@ loop 0 before
    proof { delivered_start(before, all); }
    let ghost mut now = all;
    let ghost mut size = iterator.size();
//@ loop 0 inv
        invariant_except_break now == iterator.left(), iterator.good(), size == iterator.size(), size >= 0,
        invariant all == file_points(read.left()), before == old(ip).list(), delivered(before, ip.list(), all, now),
        ensures now == (Seq::<V3>::empty(), true),
        decreases size,
//@ loop 0 start
        proof { size = iterator.size(); if rp is Ok && rp->Ok_0 is Data { delivered_step(before, ip.list(), rp->Ok_0->Data_0, all, now, iterator.left()); now = iterator.left(); } else if rp is Err { delivered_end(before, ip.list(), all, now); } }
//@ loop 0 after
    proof { delivered_end(before, ip.list(), all, now); }
//@ enditem
//@ freefn load_ply_mesh
//@ ret r
//@ replace `.or(Err(PlyError::InvalidMeshIndices))` => `.map_err(|_e| PlyError::InvalidMeshIndices)` ; std's Result::or, for an error
//@ replace `for fr in iterator` => `let mut iterator = iterator; while let Some(fr) = iterator.next()` ; desugared for loop over the library's own iterator
//@ replace `FaceDataReserve::Face([a, b, c]) => {` => `FaceDataReserve::Face(abc__) => { let a = abc__[0]; let b = abc__[1]; let c = abc__[2];` ; array pattern
//@ spec
    requires read.reliable(), read.left().len() <= usize::MAX, old(mesh).mwf(), old(mesh).ewf(), forall|n: nat| n <= old(mesh).nv() + read.left().len() ==> #[trigger] EM::ids_ok(n),
    ensures final(mesh).mwf(), final(mesh).ewf(), valid::<P, Face3, EM>(*old(mesh)) ==> valid::<P, Face3, EM>(*final(mesh)),
        r.is_ok() == (file_parts(read.left()).1 && sound(file_parts(read.left()).0, old(mesh).nv())),
        r.is_ok() ==> built::<P, EM>(*old(mesh), *final(mesh), file_parts(read.left()).0),
//@ start
    let ghost all = file_parts(read.left());
    let ghost m0 = *mesh;
    proof { header_rest(no_head(), read.left()); let x = header(no_head(), read.left()); if x is Some && x->Some_0.0 is Full { let g = x->Some_0.0->Full_0; parts_len(g.format, g.vertex.format, g.face.format, g.vertex.count as int, g.face.count as int, x->Some_0.1); } }
//@ loop 0 before
    proof { meshed_start::<P, EM>(m0, all); }
    let ghost mut now = all;
    let ghost mut was = m0;
    let ghost mut size = iterator.size();
//@ loop 0 inv
        invariant_except_break now == iterator.left(), iterator.good(), was == *mesh, size == iterator.size(), size >= 0,
        invariant all == file_parts(read.left()), m0 == *old(mesh), mesh.mwf(), mesh.ewf(), valid::<P, Face3, EM>(m0) ==> valid::<P, Face3, EM>(*mesh), meshed::<P, EM>(m0, *mesh, all, now),
            forall|n: nat| n <= m0.nv() + all.0.len() ==> #[trigger] EM::ids_ok(n),
        ensures now == (Seq::<Part>::empty(), true),
        decreases size,
//@ loop 0 start
        proof { size = iterator.size(); meshed_nv::<P, EM>(m0, was, all, now); if fr is Ok { if now.0.len() > 0 && !face_ok(now.0[0], was.nv() as int) { meshed_unsound::<P, EM>(m0, was, all, now); } } else { meshed_end::<P, EM>(m0, was, all, now); } }
        let ghost next = iterator.left();
        let ghost reserve = fr is Ok && fr->Ok_0 is ReserveDataFaces;
//@ loop 0 end
        proof {
            if reserve {
                assert forall|i: int| 0 <= i < was.nf() implies #[trigger] mesh.unit(i) == was.unit(i) by { }
                if valid::<P, Face3, EM>(was) { assert forall|i: int, k: int| 0 <= i < mesh.nf() && 0 <= k < 3 implies #[trigger] EM::corner(mesh.unit(i), k) < mesh.nv() by { assert(EM::corner(was.unit(i), k) < was.nv()); } }
                meshed_same::<P, EM>(m0, was, *mesh, all, now);
            }
            else if now.0[0] is Vertex { let p = choose|p: P| v3(p, now.0[0]->Vertex_0) && forall|y: P| mesh.vert(was.nv() as int, y) == EM::vrep(p, y); meshed_vertex::<P, EM>(m0, was, *mesh, p, all, now, next); } else { meshed_face::<P, EM>(m0, was, *mesh, all, now, next); }
            now = next; was = *mesh;
        }
//@ loop 0 after
    proof { meshed_end::<P, EM>(m0, *mesh, all, now); }
//@ enditem
//@ freefn load_ply_either
//@ ret r
//@ replace `load_mesh_ascii(&mut read,` => `load_mesh_ascii(read,` ; the reader is not used afterwards
//@ replace `load_mesh_binary::<$1>(&mut read,` => `load_mesh_binary::<$1>(read,` ; the reader is not used afterwards
//@ replace `load_points_ascii(&mut read,` => `load_points_ascii(read,` ; the reader is not used afterwards
//@ replace `load_points_binary::<$1>(&mut read,` => `load_points_binary::<$1>(read,` ; the reader is not used afterwards
//@ spec
    requires read.reliable(), read.left().len() <= usize::MAX, old(mesh).mwf(), old(mesh).ewf(), forall|n: nat| n <= old(mesh).nv() + read.left().len() ==> #[trigger] EM::ids_ok(n),
    ensures final(mesh).mwf(), final(mesh).ewf(), valid::<P, Face3, EM>(*old(mesh)) ==> valid::<P, Face3, EM>(*final(mesh)),
        match header(no_head(), read.left()) {
            None => r.is_err() && *final(mesh) == *old(mesh) && *final(ip) == *old(ip),
            Some((Header::Full(h), s)) => *final(ip) == *old(ip) && r.is_ok() == (parts_of(h, s).1 && sound(parts_of(h, s).0, old(mesh).nv())) && (r.is_ok() ==> r->Ok_0 is Mesh && built::<P, EM>(*old(mesh), *final(mesh), parts_of(h, s).0)),
            Some((Header::Partial(h), s)) => *final(mesh) == *old(mesh) && r.is_ok() == points_of(h, s).1 && (r.is_ok() ==> r->Ok_0 is Points) && appended(old(ip).list(), final(ip).list(), points_of(h, s).0),
        },
//@ start
    proof { header_rest(no_head(), read.left()); }
    let ghost m0 = *mesh;
//@ after `mesh.reserve_faces(limit_reserve(header.face.count))`
            let ghost m1 = *mesh;
            let ghost all = parts_of(header, read.left());
//@ before `Ok(MeshOrPoints::Mesh)`
            proof { built_from::<P, EM>(m0, m1, *mesh, all.0); }
//@ enditem
fn main() {}
}

#![allow(warnings)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::io::{BufRead, Error as ioError, Read};
use std::fmt;
use std::str::FromStr;
use std::marker::PhantomData;
verus! {
broadcast use vstd::seq_lib::group_seq_properties;
//@include base.inc
//@include mesh_trait.inc
//@include mesh_edit.inc
//@include build.inc
//@include stream.inc
//@include bufread.inc
//@include lines.inc
//@include text.inc
//@include push.inc
//@include deliver.inc
//@include load3.inc
//@include meshload.inc
//@include literals.inc
//@include point_of3.inc
//@include reserve.inc
pub open spec fn num(w: Seq<u8>) -> Option<usize> { parse::<usize>(w) }
pub open spec fn is_off(l: Seq<u8>) -> bool { begins(l, seq![79u8, 70u8, 70u8]) }
pub open spec fn is_comment(l: Seq<u8>) -> bool { l.len() == 0 || begins(l, seq![35u8]) }
pub open spec fn count_of_line(l: Seq<u8>) -> Option<usize> { if words(l).len() > 0 { num(words(l)[0]) } else { None } }
/// the counts of vertices and faces
pub open spec fn counts_of(w: Seq<Seq<u8>>) -> Option<(usize, usize)> { if w.len() >= 2 && num(w[0]) is Some && num(w[1]) is Some { Some((num(w[0])->0, num(w[1])->0)) } else { None } }
/// a line of the number 3 and three ids
pub open spec fn face_of(w: Seq<Seq<u8>>) -> Option<Part> { if w.len() >= 4 && w[0] == seq![51u8] && num(w[1]) is Some && num(w[2]) is Some && num(w[3]) is Some { Some(Part::Face(num(w[1])->0 as int, num(w[2])->0 as int, num(w[3])->0 as int)) } else { None } }
/// vertex lines after the first line that is neither the first OFF nor a comment; missing: vertices still expected, once the number is known
pub open spec fn content(s: Seq<u8>, seen: bool, missing: Option<int>) -> (Seq<V3>, bool) decreases s.len() via content_ends {
    if s.len() == 0 { (Seq::empty(), true) }
    else if !seen && is_off(line(s)) { content(rest(s), true, missing) }
    else if is_comment(line(s)) { content(rest(s), seen, missing) }
    else if missing is None { if count_of_line(line(s)) is Some { content(rest(s), seen, Some(count_of_line(line(s))->0 as int)) } else { (Seq::empty(), false) } }
    else if missing->0 <= 0 { (Seq::empty(), true) }
    else if point_of(words(line(s))) is None { (Seq::empty(), false) }
    else { let c = content(rest(s), seen, Some(missing->0 - 1)); (seq![point_of(words(line(s)))->0] + c.0, c.1) }
}
#[via_fn] proof fn content_ends(s: Seq<u8>, seen: bool, missing: Option<int>) { rest_is_shorter(s); }
//@ file src/io/types.rs
//@ enum FaceDataReserve
//@ enditem
/// a vertex while vertices are missing, then faces
pub open spec fn part_of(l: Seq<u8>, missing: int) -> Option<Part> { if missing > 0 { match point_of(words(l)) { Some(v) => Some(Part::Vertex(v)), None => None } } else { face_of(words(l)) } }
pub open spec fn parts_of(s: Seq<u8>, seen: bool, missing: Option<int>) -> (Seq<Part>, bool) decreases s.len() via parts_end {
    if s.len() == 0 { (Seq::empty(), true) }
    else if !seen && is_off(line(s)) { parts_of(rest(s), true, missing) }
    else if is_comment(line(s)) { parts_of(rest(s), seen, missing) }
    else if missing is None { if counts_of(words(line(s))) is Some { parts_of(rest(s), seen, Some(counts_of(words(line(s)))->Some_0.0 as int)) } else { (Seq::empty(), false) } }
    else if part_of(line(s), missing->0) is None { (Seq::empty(), false) }
    else { let c = parts_of(rest(s), seen, Some(if missing->0 > 0 { missing->0 - 1 } else { 0 })); (seq![part_of(line(s), missing->0)->0] + c.0, c.1) }
}
#[via_fn] proof fn parts_end(s: Seq<u8>, seen: bool, missing: Option<int>) { rest_is_shorter(s); }
pub proof fn parts_len(s: Seq<u8>, seen: bool, missing: Option<int>) ensures parts_of(s, seen, missing).0.len() <= s.len() decreases s.len() {
    rest_is_shorter(s);
    if s.len() > 0 { let r = rest(s); parts_len(r, true, missing); parts_len(r, seen, missing); parts_len(r, seen, Some(counts_of(words(line(s)))->Some_0.0 as int)); parts_len(r, seen, Some(if missing->0 > 0 { missing->0 - 1 } else { 0 })); }
}
//@ file src/io/off.rs
//@ enum OffError
//@ enditem
pub type OffIOResult<T> = IOResult<T, OffError>;
type OffResult<T> = std::result::Result<T, OffError>;
//@ freefn fetch_vertex
//@ ret r
//@ replace `.and_then(|word| from_ascii(word))` => `.and_then(|w: &[u8]| -> (o: Option<f64>) ensures o == parse::<f64>(w@) { from_ascii(w) })` ; contract on the closure
//@ start
    broadcast use wd::next_word;
//@ spec
    ensures r.is_ok() == (point_of(words(line@)) is Some), r.is_ok() ==> v3(r->Ok_0, point_of(words(line@))->0),
//@ enditem
//@ struct OffPointsIterator
//@ attrs
#[verifier::reject_recursive_types(P)]
//@ enditem
impl<P: IsBuildable3D, R: BufRead> OffPointsIterator<P, R> {
    /// reading fails only at the end of the stream; line numbers are representable
    pub closed spec fn good(&self) -> bool { self.read.reliable() && self.i_line + self.read.left().len() <= usize::MAX && self.n_added <= (if self.n_vertices is Some { self.n_vertices->0 } else { 0 }) }
    pub closed spec fn missing(&self) -> Option<int> { if self.n_vertices is Some { Some(self.n_vertices->0 - self.n_added) } else { None } }
    pub closed spec fn left(&self) -> (Seq<V3>, bool) { if self.is_done { (Seq::empty(), true) } else { content(self.read.left(), self.off_seen, self.missing()) } }
    pub closed spec fn size(&self) -> nat { if self.is_done { 0 } else { self.read.left().len() + 1 } }
}
//@ impl OffPointsIterator
//@ fn new
//@ ret r
//@ spec
        requires read.reliable(), read.left().len() <= usize::MAX,
        ensures r.good(), r.left() == content(read.left(), false, None),
//@ enditem
//@ impl Iterator for OffPointsIterator
//@ header impl<P: IsBuildable3D, R: BufRead> OffPointsIterator<P, R>
//@ fn next
//@ ret r
//@ sigreplace `Option<Self::Item>` => `Option<OffIOResult<DataReserve<P>>>` ; associated type of the dropped trait header
//@ replace `line.starts_with($1)` => `starts_with(line, $1)` ; see starts_with
//@ replace `.and_then(|word| from_ascii(word))` => `.and_then(|w: &[u8]| -> (o: Option<usize>) ensures o == parse::<usize>(w@) { from_ascii(w) })` ; contract on the closure
//@ replace `.map(|x| DataReserve::Data(x))` => `.map(|x: P| -> (o: DataReserve<P>) ensures o == DataReserve::Data(x) { DataReserve::Data(x) })` ; contract on the closure
//@ replace `Some($1.map_err(|e| { self.is_done = true; e }),)` => `Some(match $1 { Ok(x) => Ok(x), Err(e) => { self.is_done = true; Err(e) } })` ; closure writing to a captured variable
//@ spec
        requires old(self).good(),
        ensures final(self).good(), r is Some ==> final(self).size() < old(self).size(),
            match r {
                None => old(self).left() == (Seq::<V3>::empty(), true) && final(self).left() == old(self).left(),
                Some(Ok(DataReserve::Reserve(n))) => final(self).left() == old(self).left(),
                Some(Ok(DataReserve::Data(p))) => old(self).left().0.len() > 0 && v3(p, old(self).left().0[0]) && final(self).left() == (old(self).left().0.skip(1), old(self).left().1),
                Some(Err(e)) => old(self).left() == (Seq::<V3>::empty(), false) && final(self).left() == (Seq::<V3>::empty(), true),
            },
//@ loop 0 before
        let ghost mut s = self.read.left();
        proof { rest_is_shorter(s); }
//@ loop 0 inv
            invariant !self.is_done, self.good(), self.left() == old(self).left(), s == self.read.left(), s.len() > 0 ==> rest(s).len() < s.len(), self.size() <= old(self).size(),
            ensures self.read.left().len() == 0,
            decreases self.read.left().len(),
//@ loop 0 start
            broadcast use wd::next_word;
            proof { let m = self.n_vertices->0 - self.n_added; let c = content(rest(s), self.off_seen, Some(m - 1)); let p = point_of(words(line@))->0; assert((seq![p] + c.0).skip(1) == c.0); rest_is_shorter(rest(s)); s = rest(s); }
//@ enditem
//@ struct OffMeshIterator
//@ attrs
#[verifier::reject_recursive_types(P)]
//@ enditem
impl<P: IsBuildable3D, R: BufRead> OffMeshIterator<P, R> {
    /// reading fails only at the end of the stream; line numbers are representable
    pub closed spec fn good(&self) -> bool { self.read.reliable() && self.i_line + self.read.left().len() <= usize::MAX && self.n_vertices_added <= (if self.counts is Some { self.counts->0[0] } else { 0 }) }
    pub closed spec fn missing(&self) -> Option<int> { if self.counts is Some { Some(self.counts->0[0] - self.n_vertices_added) } else { None } }
    pub closed spec fn left(&self) -> (Seq<Part>, bool) { if self.is_done { (Seq::empty(), true) } else { parts_of(self.read.left(), self.off_seen, self.missing()) } }
    pub closed spec fn size(&self) -> nat { if self.is_done { 0 } else { self.read.left().len() + 1 } }
}
//@ impl OffMeshIterator
//@ fn new
//@ ret r
//@ spec
        requires read.reliable(), read.left().len() <= usize::MAX,
        ensures r.good(), r.left() == parts_of(read.left(), false, None),
//@ fn fetch_face
//@ ret r
//@ replace `count_face == $1 {` => `is_bytes(count_face, $1) {` ; see is_bytes
//@ replace `.and_then(|word| from_ascii(word))` => `.and_then(|w: &[u8]| -> (o: Option<usize>) ensures o == parse::<usize>(w@) { from_ascii(w) })` ; contract on the closure
//@ start
        broadcast use wd::next_word;
//@ spec
        ensures r.is_ok() == (face_of(words(line@)) is Some), r.is_ok() ==> face_of(words(line@))->0 == Part::Face(r->Ok_0[0] as int, r->Ok_0[1] as int, r->Ok_0[2] as int),
//@ fn fetch_counts
//@ ret r
//@ replace `.and_then(|word| from_ascii(word))` => `.and_then(|w: &[u8]| -> (o: Option<usize>) ensures o == parse::<usize>(w@) { from_ascii(w) })` ; contract on the closure
//@ start
        broadcast use wd::next_word;
//@ spec
        ensures r.is_ok() == (counts_of(words(line@)) is Some), r.is_ok() ==> counts_of(words(line@))->0 == (r->Ok_0[0], r->Ok_0[1]),
//@ enditem
//@ impl Iterator for OffMeshIterator
//@ header impl<P: IsBuildable3D, R: BufRead> OffMeshIterator<P, R>
//@ fn next
//@ ret r
//@ sigreplace `Option<Self::Item>` => `Option<OffIOResult<FaceDataReserve<P>>>` ; associated type of the dropped trait header
//@ replace `line.starts_with($1)` => `starts_with(line, $1)` ; see starts_with
//@ replace `.map(|x| FaceDataReserve::Data(x))` => `.map(|x: P| -> (o: FaceDataReserve<P>) ensures o == FaceDataReserve::Data(x) { FaceDataReserve::Data(x) })` ; contract on the closure
//@ replace `|x| FaceDataReserve::Face(x)` => `|x: [usize; 3]| -> (o: FaceDataReserve<P>) ensures o == FaceDataReserve::<P>::Face(x) { FaceDataReserve::Face(x) }` ; contract on the closure
//@ replace `{ Self::fetch_face($1).map($2).line($3).map_err(|e| { self.is_done = true; e }) }` => `{ match Self::fetch_face($1).map($2).line($3) { Ok(x) => Ok(x), Err(e) => { self.is_done = true; Err(e) } } }` ; closure writing to a captured variable
//@ replace `Some($1.map_err(|e| { self.is_done = true; e }),)` => `Some(match $1 { Ok(x) => Ok(x), Err(e) => { self.is_done = true; Err(e) } })` ; closure writing to a captured variable
//@ spec
        requires old(self).good(),
        ensures final(self).good(), r is Some ==> final(self).size() < old(self).size(),
            match r {
                None => old(self).left() == (Seq::<Part>::empty(), true) && final(self).left() == old(self).left(),
                Some(Ok(FaceDataReserve::ReserveDataFaces(n, m))) => final(self).left() == old(self).left(),
                Some(Ok(p)) => old(self).left().0.len() > 0 && final(self).left() == (old(self).left().0.skip(1), old(self).left().1) && match p {
                    FaceDataReserve::Data(x) => old(self).left().0[0] is Vertex && v3(x, old(self).left().0[0]->Vertex_0),
                    FaceDataReserve::Face(x) => old(self).left().0[0] == Part::Face(x[0] as int, x[1] as int, x[2] as int),
                    FaceDataReserve::ReserveDataFaces(n, m) => true,
                },
                Some(Err(e)) => old(self).left() == (Seq::<Part>::empty(), false) && final(self).left() == (Seq::<Part>::empty(), true),
            },
//@ loop 0 before
        let ghost mut s = self.read.left();
        proof { rest_is_shorter(s); }
//@ loop 0 inv
            invariant !self.is_done, self.good(), self.left() == old(self).left(), s == self.read.left(), s.len() > 0 ==> rest(s).len() < s.len(), self.size() <= old(self).size(),
            ensures self.read.left().len() == 0,
            decreases self.read.left().len(),
//@ loop 0 start
            proof { let m = self.counts->0[0] - self.n_vertices_added; let c = parts_of(rest(s), self.off_seen, Some(if m > 0 { m - 1 } else { 0 })); let p = part_of(line@, m)->0; assert((seq![p] + c.0).skip(1) == c.0); rest_is_shorter(rest(s)); s = rest(s); }
//@ enditem
//@ freefn load_off_points
//@ ret r
//@ replace `for rd in iterator` => `let mut iterator = iterator; while let Some(rd) = iterator.next()` ; desugared for loop over the library's own iterator
//@ spec
    requires read.reliable(), read.left().len() <= usize::MAX,
    ensures r.is_ok() == content(read.left(), false, None).1, appended(old(ip).list(), final(ip).list(), content(read.left(), false, None).0),
//@ start
    let ghost all = content(read.left(), false, None);
    let ghost before = ip.list();
//@ loop 0 before
    proof { delivered_start(before, all); }
    let ghost mut now = all;
    let ghost mut size = iterator.size();
//@ loop 0 inv
        invariant_except_break now == iterator.left(), iterator.good(), size == iterator.size(),
        invariant all == content(read.left(), false, None), before == old(ip).list(), delivered(before, ip.list(), all, now),
        ensures now == (Seq::<V3>::empty(), true),
        decreases size,
//@ loop 0 start
        proof { size = iterator.size(); if rd is Ok && rd->Ok_0 is Data { delivered_step(before, ip.list(), rd->Ok_0->Data_0, all, now, iterator.left()); now = iterator.left(); } else if rd is Err { delivered_end(before, ip.list(), all, now); } }
//@ loop 0 after
    proof { delivered_end(before, ip.list(), all, now); }
//@ enditem
//@ freefn load_off_mesh
//@ ret r
//@ replace `for rd in iterator` => `let mut iterator = iterator; while let Some(rd) = iterator.next()` ; desugared for loop over the library's own iterator
//@ replace `FaceDataReserve::Face([a, b, c]) => {` => `FaceDataReserve::Face(abc__) => { let a = abc__[0]; let b = abc__[1]; let c = abc__[2];` ; array pattern
//@ replace `.map_err(|_| OffError::InvalidMeshIndices)` => `.map_err(|_e| OffError::InvalidMeshIndices)` ; name for the ignored argument
//@ spec
    requires read.reliable(), read.left().len() <= usize::MAX, old(mesh).mwf(), old(mesh).ewf(), forall|n: nat| n <= old(mesh).nv() + read.left().len() ==> #[trigger] EM::ids_ok(n),
    ensures final(mesh).mwf(), final(mesh).ewf(), valid::<P, Face3, EM>(*old(mesh)) ==> valid::<P, Face3, EM>(*final(mesh)),
        r.is_ok() == (parts_of(read.left(), false, None).1 && sound(parts_of(read.left(), false, None).0, old(mesh).nv())),
        r.is_ok() ==> built::<P, EM>(*old(mesh), *final(mesh), parts_of(read.left(), false, None).0),
//@ start
    let ghost all = parts_of(read.left(), false, None);
    let ghost m0 = *mesh;
    proof { parts_len(read.left(), false, None); }
//@ loop 0 before
    proof { meshed_start::<P, EM>(m0, all); }
    let ghost mut now = all;
    let ghost mut was = m0;
    let ghost mut size = iterator.size();
//@ loop 0 inv
        invariant_except_break now == iterator.left(), iterator.good(), was == *mesh, size == iterator.size(),
        invariant all == parts_of(read.left(), false, None), m0 == *old(mesh), mesh.mwf(), mesh.ewf(), valid::<P, Face3, EM>(m0) ==> valid::<P, Face3, EM>(*mesh), meshed::<P, EM>(m0, *mesh, all, now),
            forall|n: nat| n <= m0.nv() + all.0.len() ==> #[trigger] EM::ids_ok(n),
        ensures now == (Seq::<Part>::empty(), true),
        decreases size,
//@ loop 0 start
        proof { size = iterator.size(); meshed_nv::<P, EM>(m0, was, all, now); if rd is Ok { if now.0.len() > 0 && !face_ok(now.0[0], was.nv() as int) { meshed_unsound::<P, EM>(m0, was, all, now); } } else { meshed_end::<P, EM>(m0, was, all, now); } }
        let ghost next = iterator.left();
        let ghost reserve = rd is Ok && rd->Ok_0 is ReserveDataFaces;
//@ loop 0 end
        proof {
            if reserve {
                assert forall|i: int| 0 <= i < was.nf() implies #[trigger] mesh.unit(i) == was.unit(i) by { }
                if valid::<P, Face3, EM>(was) { assert forall|i: int, k: int| 0 <= i < mesh.nf() && 0 <= k < 3 implies #[trigger] EM::corner(mesh.unit(i), k) < mesh.nv() by { assert(EM::corner(was.unit(i), k) < was.nv()); } }
                meshed_same::<P, EM>(m0, was, *mesh, all, now);
            }
            else if now.0[0] is Vertex { let p = choose|p: P| v3(p, now.0[0]->Vertex_0) && forall|y: P| mesh.vert(was.nv() as int, y) == EM::vrep(p, y); meshed_vertex::<P, EM>(m0, was, *mesh, p, all, now, next); } else { meshed_face::<P, EM>(m0, was, *mesh, all, now, next); } now = next; was = *mesh; }
//@ loop 0 after
    proof { meshed_end::<P, EM>(m0, *mesh, all, now); }
//@ enditem
fn main() {}
}

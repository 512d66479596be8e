#![allow(warnings)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::io::{BufRead, Error as ioError, Read};
use std::fmt;
use std::str::FromStr;
use std::marker::PhantomData;
verus! {
broadcast use vstd::seq_lib::group_seq_properties;
//@include base.inc
//@include mesh_trait.inc
//@include mesh_edit.inc
//@include build.inc
//@include stream.inc
//@include bufread.inc
//@include lines.inc
//@include text.inc
//@include push.inc
//@include deliver.inc
//@include load3.inc
//@ file src/io/types.rs
//@ enum FaceData
//@ enditem
//@include meshload.inc
//@include literals.inc
/// the coordinates of a vertex line: the words after the first
pub open spec fn vertex_of(w: Seq<Seq<u8>>) -> Option<V3> { if w.len() >= 4 && f(w[1]) is Some && f(w[2]) is Some && f(w[3]) is Some { Some(V3 { x: f(w[1])->0, y: f(w[2])->0, z: f(w[3])->0 }) } else { None } }
/// the id in front of the first slash, counted from 1
pub open spec fn id(w: Seq<u8>) -> Option<usize> { let i = parse::<usize>(parts(w, |x: u8| x == 47)[0]); if i is Some && i->0 > 0 { Some((i->0 - 1) as usize) } else { None } }
pub open spec fn face_of(w: Seq<Seq<u8>>) -> Option<Part> { if w.len() >= 4 && id(w[1]) is Some && id(w[2]) is Some && id(w[3]) is Some { Some(Part::Face(id(w[1])->0 as int, id(w[2])->0 as int, id(w[3])->0 as int)) } else { None } }
pub open spec fn is_v(l: Seq<u8>) -> bool { begins(l, seq![118u8, 32u8]) }
pub open spec fn is_f(l: Seq<u8>) -> bool { begins(l, seq![102u8, 32u8]) }
/// the lines starting with v, in order; false if one of them has no coordinates
pub open spec fn content(s: Seq<u8>) -> (Seq<V3>, bool) decreases s.len() via content_ends {
    if s.len() == 0 { (Seq::empty(), true) }
    else if !is_v(line(s)) { content(rest(s)) }
    else if vertex_of(words(line(s))) is None { (Seq::empty(), false) }
    else { let c = content(rest(s)); (seq![vertex_of(words(line(s)))->0] + c.0, c.1) }
}
#[via_fn] proof fn content_ends(s: Seq<u8>) { rest_is_shorter(s); }
/// what a line describes
pub open spec fn part_of(l: Seq<u8>) -> Option<Part> { if is_v(l) { match vertex_of(words(l)) { Some(v) => Some(Part::Vertex(v)), None => None } } else { face_of(words(l)) } }
/// the lines starting with v or f, in order
pub open spec fn parts_of(s: Seq<u8>) -> (Seq<Part>, bool) decreases s.len() via parts_end {
    if s.len() == 0 { (Seq::empty(), true) }
    else if !is_v(line(s)) && !is_f(line(s)) { parts_of(rest(s)) }
    else if part_of(line(s)) is None { (Seq::empty(), false) }
    else { let c = parts_of(rest(s)); (seq![part_of(line(s))->0] + c.0, c.1) }
}
#[via_fn] proof fn parts_end(s: Seq<u8>) { rest_is_shorter(s); }
pub proof fn parts_len(s: Seq<u8>) ensures parts_of(s).0.len() <= s.len() decreases s.len() { rest_is_shorter(s); if s.len() > 0 { parts_len(rest(s)); } }
//@ file src/io/obj.rs
//@ enum ObjError
//@ enditem
pub type ObjIOResult<T> = IOResult<T, ObjError>;
type ObjResult<T> = std::result::Result<T, ObjError>;
//@ freefn fetch_vertex
//@ ret r
//@ replace `.and_then(|w| from_ascii(w))` => `.and_then(|w: &[u8]| -> (o: Option<f64>) ensures o == parse::<f64>(w@) { from_ascii(w) })` ; contract on the closure
//@ start
    broadcast use wd::next_word;
//@ spec
    ensures r.is_ok() == (vertex_of(words(line@)) is Some), r.is_ok() ==> v3(r->Ok_0, vertex_of(words(line@))->0),
//@ enditem
//@ freefn fetch_face
//@ ret r
//@ start
    broadcast use wd::next_word;
//@ spec
    ensures r.is_ok() == (face_of(words(line@)) is Some), r.is_ok() ==> face_of(words(line@))->0 == Part::Face(r->Ok_0[0] as int, r->Ok_0[1] as int, r->Ok_0[2] as int),
//@ enditem
//@ struct ObjPointsIterator
//@ attrs
#[verifier::reject_recursive_types(P)]
//@ enditem
impl<P: IsBuildable3D, R: BufRead> ObjPointsIterator<P, R> {
    /// reading fails only at the end of the stream; line numbers are representable
    pub closed spec fn good(&self) -> bool { self.read.reliable() && self.i_line + self.read.left().len() <= usize::MAX }
    pub closed spec fn left(&self) -> (Seq<V3>, bool) { if self.is_done { (Seq::empty(), true) } else { content(self.read.left()) } }
}
//@ impl ObjPointsIterator
//@ fn new
//@ ret r
//@ spec
        requires read.reliable(), read.left().len() <= usize::MAX,
        ensures r.good(), r.left() == content(read.left()),
//@ enditem
//@ impl Iterator for ObjPointsIterator
//@ header impl<P: IsBuildable3D, R: BufRead> ObjPointsIterator<P, R>
//@ fn next
//@ ret r
//@ sigreplace `Option<Self::Item>` => `Option<ObjIOResult<P>>` ; associated type of the dropped trait header
//@ replace `line.starts_with($1)` => `starts_with(line, $1)` ; see starts_with
//@ replace `Some($1.map_err(|e| { self.is_done = true; e }))` => `Some(match $1 { Ok(x) => Ok(x), Err(e) => { self.is_done = true; Err(e) } })` ; closure writing to a captured variable
//@ spec
        requires old(self).good(),
        ensures final(self).good(),
            match r {
                None => old(self).left() == (Seq::<V3>::empty(), true) && final(self).left() == old(self).left(),
                Some(Ok(p)) => old(self).left().0.len() > 0 && v3(p, old(self).left().0[0]) && final(self).left() == (old(self).left().0.skip(1), old(self).left().1),
                Some(Err(e)) => old(self).left() == (Seq::<V3>::empty(), false) && final(self).left() == (Seq::<V3>::empty(), true),
            },
//@ loop 0 before
        let ghost mut s = self.read.left();
        proof { rest_is_shorter(s); }
//@ loop 0 inv
            invariant !self.is_done, self.good(), self.left() == old(self).left(), s == self.read.left(), s.len() > 0 ==> rest(s).len() < s.len(),
            ensures self.read.left().len() == 0,
            decreases self.read.left().len(),
//@ loop 0 start
            proof { let c = content(rest(s)); let p = vertex_of(words(line@))->0; assert((seq![p] + c.0).skip(1) == c.0); rest_is_shorter(rest(s)); s = rest(s); }
//@ enditem
//@ struct ObjMeshIterator
//@ attrs
#[verifier::reject_recursive_types(P)]
//@ enditem
impl<P: IsBuildable3D, R: BufRead> ObjMeshIterator<P, R> {
    /// reading fails only at the end of the stream; line numbers are representable
    pub closed spec fn good(&self) -> bool { self.read.reliable() && self.i_line + self.read.left().len() <= usize::MAX }
    pub closed spec fn left(&self) -> (Seq<Part>, bool) { if self.is_done { (Seq::empty(), true) } else { parts_of(self.read.left()) } }
}
//@ impl ObjMeshIterator
//@ fn new
//@ ret r
//@ spec
        requires read.reliable(), read.left().len() <= usize::MAX,
        ensures r.good(), r.left() == parts_of(read.left()),
//@ enditem
//@ impl Iterator for ObjMeshIterator
//@ header impl<P: IsBuildable3D, R: BufRead> ObjMeshIterator<P, R>
//@ fn next
//@ ret r
//@ sigreplace `Option<Self::Item>` => `Option<ObjIOResult<FaceData<P>>>` ; associated type of the dropped trait header
//@ replace `line.starts_with($1)` => `starts_with(line, $1)` ; see starts_with
//@ replace `.map(|x| FaceData::Data(x))` => `.map(|x: P| -> (o: FaceData<P>) ensures o == FaceData::Data(x) { FaceData::Data(x) })` ; contract on the closure
//@ replace `.map(|x| FaceData::Face(x))` => `.map(|x: [usize; 3]| -> (o: FaceData<P>) ensures o == FaceData::<P>::Face(x) { FaceData::Face(x) })` ; contract on the closure
//@ replace `Some($1.map_err(|e| { self.is_done = true; e }),)` => `Some(match $1 { Ok(x) => Ok(x), Err(e) => { self.is_done = true; Err(e) } })` ; closure writing to a captured variable
//@ spec
        requires old(self).good(),
        ensures final(self).good(),
            match r {
                None => old(self).left() == (Seq::<Part>::empty(), true) && final(self).left() == old(self).left(),
                Some(Ok(p)) => old(self).left().0.len() > 0 && final(self).left() == (old(self).left().0.skip(1), old(self).left().1) && match p {
                    FaceData::Data(x) => old(self).left().0[0] is Vertex && v3(x, old(self).left().0[0]->Vertex_0),
                    FaceData::Face(x) => old(self).left().0[0] == Part::Face(x[0] as int, x[1] as int, x[2] as int),
                },
                Some(Err(e)) => old(self).left() == (Seq::<Part>::empty(), false) && final(self).left() == (Seq::<Part>::empty(), true),
            },
//@ loop 0 before
        let ghost mut s = self.read.left();
        proof { rest_is_shorter(s); }
//@ loop 0 inv
            invariant !self.is_done, self.good(), self.left() == old(self).left(), s == self.read.left(), s.len() > 0 ==> rest(s).len() < s.len(),
            ensures self.read.left().len() == 0,
            decreases self.read.left().len(),
//@ loop 0 start
            proof { let c = parts_of(rest(s)); let p = part_of(line@)->0; assert((seq![p] + c.0).skip(1) == c.0); rest_is_shorter(rest(s)); s = rest(s); }
//@ enditem
//@ freefn load_obj_points
//@ ret r
//@ replace `for p in iterator` => `let mut iterator = iterator; while let Some(p) = iterator.next()` ; desugared for loop over the library's own iterator
//@ spec
    requires read.reliable(), read.left().len() <= usize::MAX,
    ensures r.is_ok() == content(read.left()).1, appended(old(ip).list(), final(ip).list(), content(read.left()).0),
//@ start
    let ghost all = content(read.left());
    let ghost before = ip.list();
//@ loop 0 before
    proof { delivered_start(before, all); }
    let ghost mut now = all;
//@ loop 0 inv
        invariant_except_break now == iterator.left(), iterator.good(), 
        invariant all == content(read.left()), before == old(ip).list(), delivered(before, ip.list(), all, now),
        ensures now == (Seq::<V3>::empty(), true),
        decreases now.0.len(),
//@ loop 0 start
        proof { if p is Ok { delivered_step(before, ip.list(), p->Ok_0, all, now, iterator.left()); now = iterator.left(); } else { delivered_end(before, ip.list(), all, now); } }
//@ loop 0 after
    proof { delivered_end(before, ip.list(), all, now); }
//@ enditem
//@ freefn load_obj_mesh
//@ ret r
//@ replace `ObjMeshIterator::new(read)` => `ObjMeshIterator::<P, R>::new(read)` ; type argument
//@ replace `for rd in iterator` => `let mut iterator = iterator; while let Some(rd) = iterator.next()` ; desugared for loop over the library's own iterator
//@ replace `FaceData::Face([a, b, c]) => {` => `FaceData::Face(abc__) => { let a = abc__[0]; let b = abc__[1]; let c = abc__[2];` ; array pattern
//@ replace `.map_err(|_| ObjError::InvalidMeshIndices)` => `.map_err(|_e| ObjError::InvalidMeshIndices)` ; name for the ignored argument
//@ spec
    requires read.reliable(), read.left().len() <= usize::MAX, old(mesh).mwf(), old(mesh).ewf(), forall|n: nat| n <= old(mesh).nv() + read.left().len() ==> #[trigger] EM::ids_ok(n),
    ensures final(mesh).mwf(), final(mesh).ewf(), valid::<P, Face3, EM>(*old(mesh)) ==> valid::<P, Face3, EM>(*final(mesh)),
        r.is_ok() == (parts_of(read.left()).1 && sound(parts_of(read.left()).0, old(mesh).nv())),
        r.is_ok() ==> built::<P, EM>(*old(mesh), *final(mesh), parts_of(read.left()).0),
//@ start
    let ghost all = parts_of(read.left());
    let ghost m0 = *mesh;
    proof { parts_len(read.left()); }
//@ loop 0 before
    proof { meshed_start::<P, EM>(m0, all); }
    let ghost mut now = all;
    let ghost mut was = m0;
//@ loop 0 inv
        invariant_except_break now == iterator.left(), iterator.good(), was == *mesh,
        invariant all == parts_of(read.left()), m0 == *old(mesh), mesh.mwf(), mesh.ewf(), valid::<P, Face3, EM>(m0) ==> valid::<P, Face3, EM>(*mesh), meshed::<P, EM>(m0, *mesh, all, now),
            forall|n: nat| n <= m0.nv() + all.0.len() ==> #[trigger] EM::ids_ok(n),
        ensures now == (Seq::<Part>::empty(), true),
        decreases now.0.len(),
//@ loop 0 start
        proof { meshed_nv::<P, EM>(m0, was, all, now); if rd is Ok { if !face_ok(now.0[0], was.nv() as int) { meshed_unsound::<P, EM>(m0, was, all, now); } } else { meshed_end::<P, EM>(m0, was, all, now); } }
        let ghost next = iterator.left();
//@ loop 0 end
        proof { if now.0[0] is Vertex { let p = choose|p: P| v3(p, now.0[0]->Vertex_0) && forall|y: P| mesh.vert(was.nv() as int, y) == EM::vrep(p, y); meshed_vertex::<P, EM>(m0, was, *mesh, p, all, now, next); } else { meshed_face::<P, EM>(m0, was, *mesh, all, now, next); } now = next; was = *mesh; }
//@ loop 0 after
    proof { meshed_end::<P, EM>(m0, *mesh, all, now); }
//@ enditem
fn main() {}
}

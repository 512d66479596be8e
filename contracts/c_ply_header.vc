#![allow(warnings)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::io::{BufRead, Error as ioError, Read, Result as iRes};
use std::fmt;
use std::str::FromStr;
verus! {
broadcast use vstd::seq_lib::group_seq_properties;
global size_of usize == 8;
//@include build.inc
//@include stream.inc
//@include bufread.inc
//@include lines.inc
//@include text.inc
//@include literals.inc
//@include ply.inc
/// `contains(haystack, needle)` of src/utils.rs (assumed: the meaning of windows and any)
#[verifier::external_body]
pub fn has_bytes<const N: usize>(l: &[u8], w: &[u8; N]) -> (r: bool) ensures r == has(l@, w@) { l.windows(N).any(|x| x == w) }
/// `std::str::from_utf8(x).unwrap_or("").to_string()` (error message text, not specified)
#[verifier::external_body]
pub fn message(x: &[u8]) -> String { std::str::from_utf8(x).unwrap_or("").to_string() }
//@ file src/io/ply/types.rs
//@ impl TryFrom for Type
//@ header impl Type
//@ fn try_from
//@ ret r
//@ replace `std::str::from_utf8(x).unwrap_or("").to_string()` => `message(x)` ; see message
//@ spec
        ensures r.is_ok() == (type_of(x@) is Some), r.is_ok() ==> Some(r->Ok_0) == type_of(x@),
//@ enditem
//@ impl TryFrom for VertexOrder
//@ header impl VertexOrder
//@ fn try_from
//@ ret r
//@ replace `match x {` => `match (x[0], x[1], x[2]) {` ; array pattern
//@ replace `[Xyz::$1, Xyz::$2, Xyz::$3] =>` => `(Xyz::$1, Xyz::$2, Xyz::$3) =>` ; array pattern
//@ spec
        ensures r.is_ok() == (order_of(x[0], x[1], x[2]) is Some), r.is_ok() ==> Some(r->Ok_0) == order_of(x[0], x[1], x[2]),
//@ enditem
//@ impl TryFrom for VertexType
//@ header impl VertexType
//@ fn try_from
//@ ret r
//@ spec
        ensures r.is_ok() == (vertex_type(x) is Some), r.is_ok() ==> Some(r->Ok_0) == vertex_type(x),
//@ enditem
//@ impl TryFrom for FaceType
//@ header impl FaceType
//@ fn try_from
//@ ret r
//@ spec
        ensures r.is_ok() == (face_type(x) is Some), r.is_ok() ==> Some(r->Ok_0) == face_type(x),
//@ enditem
/// three words on: the default Iterator::nth
pub fn nth_word<'a>(words: &mut SkipEmpty<'a, u8, std::vec::IntoIter<&'a [u8]>>, n: usize) -> (r: Option<&'a [u8]>)
    requires n == 2, IteratorSpec::obeys_prophetic_iter_laws(&old(words).iterator), IteratorSpec::will_return_none(&old(words).iterator),
    ensures ({ let w = wds(IteratorSpec::remaining(&old(words).iterator)); r.is_some() == (w.len() >= 3) && (w.len() >= 3 ==> r->0@ == w[2]) }),
{
    broadcast use wd::next_word;
    words.next(); words.next(); words.next()
}
//@include skipwords.inc
pub proof fn coord_next(v: Seq<VProp>, p: VProp)
    ensures coords(v.push(p)) == (match p { VProp::Coord(d, t) => coords(v).push((d, t)), VProp::Other(t) => coords(v) }),
        forall|k: int| #[trigger] gap(v.push(p), k) == (match p { VProp::Other(t) if coords(v).len() == k => gap(v, k).push(t), _ => gap(v, k) }),
{ assert(v.push(p).drop_last() == v); }
pub proof fn face_next(f: Seq<FProp>, p: FProp)
    ensures indices(f.push(p)) == (match p { FProp::Index(a, b) => Some((a, b)), FProp::Other(t) => indices(f) }),
        forall|k: bool| #[trigger] side(f.push(p), k) == (match p { FProp::Other(t) if (indices(f) is Some) == k => side(f, k).push(t), _ => side(f, k) }),
{ assert(f.push(p).drop_last() == f); }
pub broadcast proof fn bytes_next(t: Seq<Type>, x: Type) ensures #[trigger] bytes_of(t.push(x)) == bytes_of(t) + type_size(x) { assert(t.push(x).drop_last() == t); }
/// how the layout grows with the declarations
pub proof fn head_next(h: Head, l: Seq<u8>)
    ensures step(h, l) is Next ==> ({ let n = step(h, l)->Next_0;
        (n.v == h.v || (n.v.len() == h.v.len() + 1 && n.v == h.v.push(n.v.last()) && n.f == h.f)) && (n.f == h.f || (n.f == h.f.push(n.f.last()) && n.v == h.v)) })
{ if step(h, l) is Next { let n = step(h, l)->Next_0; if n.v != h.v { assert(n.v == h.v.push(n.v.last())); } if n.f != h.f { assert(n.f == h.f.push(n.f.last())); } } }
pub open spec fn text_line(s: Seq<u8>) -> Seq<u8> { line(s) }
pub open spec fn is_skipped(b: BytesWords, t: Seq<Type>, used: int) -> bool { b.bytes == bytes_of(t) && b.words == t.len() && b.bytes <= used && b.words <= used }
//@ file src/io/ply/header.rs
//@ freefn load_header
//@ ret r
//@ fattrs
#[verifier::spinoff_prover]
#[verifier::rlimit(200)]
//@ replace `line.starts_with($1)` => `starts_with(line, $1)` ; see starts_with
//@ replace `line == $1 { ply_found = true;` => `is_bytes(line, $1) { ply_found = true;` ; see is_bytes
//@ replace `line == $1 && ply_found` => `is_bytes(line, $1) && ply_found` ; see is_bytes
//@ replace `contains(line, $1)` => `has_bytes(line, $1)` ; see has_bytes
//@ replace `BytesWords::default()` => `BytesWords { bytes: 0, words: 0 }` ; the derived Default
//@ replace `words.nth(2)` => `nth_word(&mut words, 2)` ; see nth_word
//@ replace `.and_then(|w| from_ascii(w))` => `.and_then(|w: &[u8]| -> (o: Option<usize>) ensures o == parse::<usize>(w@) { from_ascii(w) })` ; contract on the closure
//@ replace `words.next().ok_or(PlyError::InvalidProperty).and_then(|$1| Type::try_from($1)).and_then(|$2| FaceType::try_from($2))` => `(match words.next() { Some($1) => match Type::try_from($1) { Ok($2) => FaceType::try_from($2), Err(e) => Err(e) }, None => Err(PlyError::InvalidProperty) })` ; closures as matches
//@ replace `words.next().ok_or(PlyError::InvalidProperty).and_then(|$1| Type::try_from($1)).line` => `(match words.next() { Some($1) => Type::try_from($1), None => Err(PlyError::InvalidProperty) }).line` ; closure as match
//@ replace `super::types::FaceData` => `FaceData` ; module path
//@ spec
    requires (*old(read)).reliable(), *old(i_line) + (*old(read)).left().len() <= usize::MAX,
    ensures (*final(read)).reliable(), *final(i_line) + (*final(read)).left().len() <= usize::MAX,
        match r { Ok(x) => header(no_head(), (*old(read)).left()) == Some((x, (*final(read)).left())), Err(e) => header(no_head(), (*old(read)).left()) is None },
//@ start
    hide(type_of); hide(order_of); hide(vertex_type); hide(face_type); hide(type_size);
    broadcast use {wd::next_word, bytes_next};
    let ghost s0 = (*read).left();
    let ghost mut h = no_head();
    let ghost mut now = s0;
//@ loop 0 inv
        invariant_except_break now == (*read).left(),
        invariant (*read).reliable(), *i_line + (*read).left().len() <= usize::MAX, s0 == (*old(read)).left(), s0.len() <= usize::MAX, (*read).left().len() <= s0.len(),
            header(h, (*read).left()) == header(no_head(), s0),
            h.ply == ply_found, h.format == opt_format, h.nv == opt_n_vertices, h.nf == opt_n_faces, h.state == read_state,
            n_types_found == coords(h.v).len(), n_types_found <= 3,
            forall|k: int| 0 <= k < n_types_found ==> #[trigger] vertex_order[k] == coords(h.v)[k].0,
            opt_fst_type == (if n_types_found > 0 { Some(coords(h.v)[0].1) } else { None::<VertexType> }),
            opt_snd_type == (if n_types_found > 1 { Some(coords(h.v)[1].1) } else { None::<VertexType> }),
            opt_third_type == (if n_types_found > 2 { Some(coords(h.v)[2].1) } else { None::<VertexType> }),
            opt_face_count_type == (if indices(h.f) is Some { Some(indices(h.f)->Some_0.0) } else { None::<FaceType> }),
            opt_face_index_type == (if indices(h.f) is Some { Some(indices(h.f)->Some_0.1) } else { None::<FaceType> }),
            is_skipped(vertex_before, gap(h.v, 0), s0.len() - (*read).left().len()), is_skipped(vertex_between_first_snd, gap(h.v, 1), s0.len() - (*read).left().len()), is_skipped(vertex_between_snd_third, gap(h.v, 2), s0.len() - (*read).left().len()), is_skipped(after, gap(h.v, 3), s0.len() - (*read).left().len()),
            is_skipped(face_before, side(h.f, false), s0.len() - (*read).left().len()), is_skipped(face_after, side(h.f, true), s0.len() - (*read).left().len()),
        ensures (*read).left().len() == 0,
        decreases (*read).left().len(),
//@ loop 0 start
        broadcast use {wd::next_word, bytes_next};
        let ghost h0 = h;
        let ghost st = step(h, line@);
        proof {
            upto_bounds(now, 10); trimmed_is_prefix(first_line(now)); assert(line@ == text_line(now)); assert((*read).left() == rest(now));
            now = (*read).left();
            head_next(h, line@);
            if st is Next { h = st->Next_0; if h.v != h0.v { coord_next(h0.v, h.v.last()); } if h.f != h0.f { face_next(h0.f, h.f.last()); } }
        }
//@ enditem
fn main() {}
}

#![allow(warnings)]
use vstd::prelude::*;
use vstd::float::FloatBitsProperties;
use vstd::std_specs::iter::*;
use std::io::{Error as ioError, Read, Result as iRes};
use std::marker::PhantomData;
verus! {
//@include float.inc
//@include float32.inc
broadcast use {vstd::seq_lib::group_seq_properties, fl::ax, fl32::ax, sk::ax};
global size_of usize == 8;
//@include build.inc
global size_of f32 == 4;
global size_of f64 == 8;
//@include stream.inc
//@include bytes.inc
//@include bin.inc
//@include push.inc
//@include deliver.inc
//@include load3.inc
use fl32::*;
pub open spec fn point_at(s: Seq<u8>) -> V3 { V3 { x: up(f32_at(false, s, 0)), y: up(f32_at(false, s, 4)), z: up(f32_at(false, s, 8)) } }
/// what is left to deliver: passes, each with lines, each with points; false if the stream ends too early
pub open spec fn content(s: Seq<u8>, passes: int, lines: int, points: int) -> (Seq<V3>, bool) decreases s.len() {
    if points > 0 {
        if s.len() < 12 { (Seq::empty(), false) } else { let c = content(s.skip(12), passes, lines, points - 1); (seq![point_at(s)] + c.0, c.1) }
    } else if lines > 0 {
        if s.len() < 64 { (Seq::empty(), false) } else { content(s.skip(64), passes, lines - 1, i32_at(false, s, 0) as int) }
    } else if passes > 0 {
        if s.len() < 64 { (Seq::empty(), false) } else { content(s.skip(64), passes - 1, i32_at(false, s, 0) as int, points) }
    } else { (Seq::empty(), true) }
}
/// a file: header of 512 bytes with the number of passes, then the passes
pub open spec fn file(s: Seq<u8>) -> (Seq<V3>, bool) { if s.len() < 512 { (Seq::empty(), false) } else { content(s.skip(512), i32_at(false, s, 136) as int, 0, 0) } }
//@ file src/io/psl.rs
//@ enum PslError
//@ enditem
pub type PslResult<T> = std::result::Result<T, PslError>;
//@ impl From for PslError
//@ fn from
//@ enditem
//@ struct PslIterator
//@ attrs
#[verifier::reject_recursive_types(P)]
//@ enditem
impl<P: IsBuildable3D, R: Read> PslIterator<P, R> {
    pub closed spec fn good(&self) -> bool { self.read.reliable() }
    pub closed spec fn left(&self) -> (Seq<V3>, bool) {
        if self.is_done { (Seq::empty(), true) }
        else if !self.is_initialized { file(self.read.left()) }
        else { content(self.read.left(), self.n_passes_left as int, self.n_lines_left as int, self.n_point_left as int) }
    }
    pub closed spec fn zeroed(&self) -> bool { !self.is_initialized ==> self.n_lines_left == 0 && self.n_point_left == 0 }
}
//@ impl PslIterator
//@ fn new
//@ ret r
//@ spec
        ensures r.zeroed(), r.good() == read.reliable(), r.left() == file(read.left()),
//@ fn initialize
//@ ret r
//@ spec
        requires old(self).good(),
        ensures final(self).good(), final(self).is_done == old(self).is_done, final(self).is_initialized == old(self).is_initialized, final(self).n_lines_left == old(self).n_lines_left, final(self).n_point_left == old(self).n_point_left,
            r.is_ok() == (old(self).read.left().len() >= 512), r.is_ok() ==> final(self).read.left() == old(self).read.left().skip(512) && final(self).n_passes_left == i32_at(false, old(self).read.left(), 136),
//@ fn fetch_counts
//@ ret r
//@ spec
        requires old(self).good(), old(self).is_initialized, !old(self).is_done,
        ensures final(self).good(), final(self).is_done == old(self).is_done, final(self).is_initialized == old(self).is_initialized,
            r.is_ok() ==> final(self).left() == old(self).left() && (final(self).n_point_left <= 0 ==> final(self).left() == (Seq::<V3>::empty(), true)),
            r.is_err() ==> old(self).left() == (Seq::<V3>::empty(), false),
//@ loop 0 inv
            invariant self.good(), self.is_initialized, !self.is_done, self.left() == old(self).left(),
            ensures self.n_point_left <= 0 ==> self.left() == (Seq::<V3>::empty(), true),
            decreases self.read.left().len(),
//@ enditem
//@ impl Iterator for PslIterator
//@ header impl<P: IsBuildable3D, R: Read> PslIterator<P, R>
//@ fn next
//@ ret r
//@ sigreplace `Option<Self::Item>` => `Option<PslResult<P>>` ; associated type of the dropped trait header
//@ replace `$1.map_err(|e| { self.is_done = true; e })` => `match $1 { Ok(x) => Ok(x), Err(e) => { self.is_done = true; Err(e) } }` ; closure writing to a captured variable
//@ spec
        requires old(self).good(), old(self).zeroed(),
        ensures final(self).good(), final(self).zeroed(),
            match r {
                None => old(self).left() == (Seq::<V3>::empty(), true) && final(self).left() == old(self).left(),
                Some(Ok(p)) => old(self).left().0.len() > 0 && v3(p, old(self).left().0[0]) && final(self).left() == (old(self).left().0.skip(1), old(self).left().1),
                Some(Err(e)) => old(self).left() == (Seq::<V3>::empty(), false) && final(self).left() == (Seq::<V3>::empty(), true),
            },
//@ enditem
//@ freefn fetch_header_return_n_passes
//@ ret r
//@ spec
    requires (*old(read)).reliable(),
    ensures (*final(read)).reliable(), r.is_ok() == ((*old(read)).left().len() >= 512), r.is_ok() ==> (*final(read)).left() == (*old(read)).left().skip(512) && r->Ok_0 == i32_at(false, (*old(read)).left(), 136),
//@ enditem
//@ freefn fetch_pass_header_return_n_lines
//@ ret r
//@ spec
    requires (*old(read)).reliable(),
    ensures (*final(read)).reliable(), r.is_ok() == ((*old(read)).left().len() >= 64), r.is_ok() ==> (*final(read)).left() == (*old(read)).left().skip(64) && r->Ok_0 == i32_at(false, (*old(read)).left(), 0),
//@ enditem
//@ freefn fetch_line_header_return_n_points
//@ ret r
//@ spec
    requires (*old(read)).reliable(),
    ensures (*final(read)).reliable(), r.is_ok() == ((*old(read)).left().len() >= 64), r.is_ok() ==> (*final(read)).left() == (*old(read)).left().skip(64) && r->Ok_0 == i32_at(false, (*old(read)).left(), 0),
//@ enditem
//@ freefn fetch_point
//@ ret r
//@ spec
    requires (*old(read)).reliable(),
    ensures (*final(read)).reliable(), r.is_ok() == ((*old(read)).left().len() >= 12), r.is_ok() ==> (*final(read)).left() == (*old(read)).left().skip(12) && v3(r->Ok_0, point_at((*old(read)).left())),
//@ enditem
//@ freefn load_psl
//@ ret r
//@ replace `for p in iterator` => `let mut iterator = iterator; while let Some(p) = iterator.next()` ; desugared for loop over the library's own iterator
//@ spec
    requires read.reliable(),
    ensures r.is_ok() == file(read.left()).1, appended(old(ip).list(), final(ip).list(), file(read.left()).0),
//@ start
    let ghost all = file(read.left());
    let ghost before = ip.list();
//@ loop 0 before
    proof { delivered_start(before, all); }
    let ghost mut now = all;
//@ loop 0 inv
        invariant_except_break now == iterator.left(), iterator.good(), iterator.zeroed(), 
        invariant all == file(read.left()), before == old(ip).list(), delivered(before, ip.list(), all, now),
        ensures now == (Seq::<V3>::empty(), true),
        decreases now.0.len(),
//@ loop 0 start
        proof { if p is Ok { delivered_step(before, ip.list(), p->Ok_0, all, now, iterator.left()); now = iterator.left(); } else { delivered_end(before, ip.list(), all, now); } }
//@ loop 0 after
    proof { delivered_end(before, ip.list(), all, now); }
//@ enditem
fn main() {}
}

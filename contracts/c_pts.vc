#![allow(warnings)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::io::{BufRead, Error as ioError, Read};
use std::fmt;
use std::str::FromStr;
use std::marker::PhantomData;
verus! {
broadcast use vstd::seq_lib::group_seq_properties;
global size_of usize == 8;
//@include build.inc
//@include stream.inc
//@include bufread.inc
//@include lines.inc
//@include text.inc
//@include push.inc
//@include deliver.inc
//@include load3.inc
//@include point_of3.inc
//@include reserve.inc
/// the number a line starts with
pub open spec fn count_of_line(l: Seq<u8>) -> Option<usize> { if words(l).len() > 0 { parse::<usize>(words(l)[0]) } else { None } }
/// blocks: the number of points, then the points; empty lines are skipped. missing: points still expected in this block
pub open spec fn content(s: Seq<u8>, missing: int) -> (Seq<V3>, bool) decreases s.len() via content_ends {
    if s.len() == 0 { (Seq::empty(), true) }
    else { let l = line(s); let r = rest(s);
        if l.len() == 0 { content(r, missing) }
        else if missing <= 0 { if count_of_line(l) is None { (Seq::empty(), false) } else { content(r, count_of_line(l)->0 as int) } }
        else if point_of(words(l)) is None { (Seq::empty(), false) }
        else { let c = content(r, missing - 1); (seq![point_of(words(l))->0] + c.0, c.1) } }
}
#[via_fn] proof fn content_ends(s: Seq<u8>, missing: int) { rest_is_shorter(s); }
//@ file src/io/pts.rs
//@ enum PtsError
//@ enditem
pub type PtsIOResult<T> = IOResult<T, PtsError>;
type PtsResult<T> = std::result::Result<T, PtsError>;
//@ struct PtsIterator
//@ attrs
#[verifier::reject_recursive_types(P)]
//@ enditem
impl<P: IsBuildable3D, R: BufRead> PtsIterator<P, R> {
    /// reading fails only at the end of the stream; line numbers are representable
    pub closed spec fn good(&self) -> bool { self.read.reliable() && self.i_line + self.read.left().len() <= usize::MAX && (self.n_vertices is None ==> self.n_vertices_added == 0) }
    pub closed spec fn left(&self) -> (Seq<V3>, bool) { if self.is_done { (Seq::empty(), true) } else { content(self.read.left(), if self.n_vertices is Some { self.n_vertices->0 - self.n_vertices_added } else { 0 }) } }
    pub closed spec fn size(&self) -> nat { if self.is_done { 0 } else { self.read.left().len() + 1 } }
}
//@ impl PtsIterator
//@ fn new
//@ ret r
//@ spec
        requires read.reliable(), read.left().len() <= usize::MAX,
        ensures r.good(), r.left() == content(read.left(), 0),
//@ fn fetch_one
//@ ret r
//@ replace `.and_then(|word| from_ascii(word))` => `.and_then(|word: &[u8]| -> (o: Option<f64>) ensures o == parse::<f64>(word@) { from_ascii(word) })` ; contract on the closure
//@ start
        broadcast use wd::next_word;
//@ spec
        ensures r.is_ok() == (point_of(words(line@)) is Some), r.is_ok() ==> v3(r->Ok_0, point_of(words(line@))->0),
//@ enditem
//@ impl Iterator for PtsIterator
//@ header impl<P: IsBuildable3D, R: BufRead> PtsIterator<P, R>
//@ fn next
//@ ret r
//@ sigreplace `Option<Self::Item>` => `Option<PtsIOResult<DataReserve<P>>>` ; associated type of the dropped trait header
//@ replace `.and_then(|word| from_ascii(word))` => `.and_then(|word: &[u8]| -> (o: Option<usize>) ensures o == parse::<usize>(word@) { from_ascii(word) })` ; contract on the closure
//@ replace `.map(|x| DataReserve::Data(x))` => `.map(|x: P| -> (o: DataReserve<P>) ensures o == DataReserve::Data(x) { DataReserve::Data(x) })` ; contract on the closure
//@ replace `Some($1.map_err(|e| { self.is_done = true; e }),)` => `Some(match $1 { Ok(x) => Ok(x), Err(e) => { self.is_done = true; Err(e) } })` ; closure writing to a captured variable
//@ spec
        requires old(self).good(),
        ensures final(self).good(), r is Some ==> final(self).size() < old(self).size(),
            match r {
                None => old(self).left() == (Seq::<V3>::empty(), true) && final(self).left() == old(self).left(),
                Some(Ok(DataReserve::Reserve(n))) => final(self).left() == old(self).left(),
                Some(Ok(DataReserve::Data(p))) => old(self).left().0.len() > 0 && v3(p, old(self).left().0[0]) && final(self).left() == (old(self).left().0.skip(1), old(self).left().1),
                Some(Err(e)) => old(self).left() == (Seq::<V3>::empty(), false) && final(self).left() == (Seq::<V3>::empty(), true),
            },
//@ loop 0 before
        let ghost mut s = self.read.left();
        proof { rest_is_shorter(s); }
//@ loop 0 inv
            invariant !self.is_done, self.good(), self.left() == old(self).left(), s == self.read.left(), s.len() > 0 ==> rest(s).len() < s.len(), self.size() <= old(self).size(),
            ensures self.read.left().len() == 0,
            decreases self.read.left().len(),
//@ loop 0 start
            broadcast use wd::next_word;
            proof { let c = content(rest(s), (if self.n_vertices is Some { self.n_vertices->0 - self.n_vertices_added } else { 0 }) - 1); let p = point_of(words(line@))->0; assert((seq![p] + c.0).skip(1) == c.0); rest_is_shorter(rest(s)); s = rest(s); }
//@ enditem
//@ freefn load_pts
//@ ret r
//@ replace `for rd in iterator` => `let mut iterator = iterator; while let Some(rd) = iterator.next()` ; desugared for loop over the library's own iterator
//@ spec
    requires read.reliable(), read.left().len() <= usize::MAX,
    ensures r.is_ok() == content(read.left(), 0).1, appended(old(ip).list(), final(ip).list(), content(read.left(), 0).0),
//@ start
    let ghost all = content(read.left(), 0);
    let ghost before = ip.list();
//@ loop 0 before
    proof { delivered_start(before, all); }
    let ghost mut now = all;
    let ghost mut size = iterator.size();
//@ loop 0 inv
        invariant_except_break now == iterator.left(), iterator.good(), size == iterator.size(),
        invariant all == content(read.left(), 0), before == old(ip).list(), delivered(before, ip.list(), all, now),
        ensures now == (Seq::<V3>::empty(), true),
        decreases size,
//@ loop 0 start
        proof { size = iterator.size(); if rd is Ok && rd->Ok_0 is Data { delivered_step(before, ip.list(), rd->Ok_0->Data_0, all, now, iterator.left()); now = iterator.left(); } else if rd is Err { delivered_end(before, ip.list(), all, now); } }
//@ loop 0 after
    proof { delivered_end(before, ip.list(), all, now); }
//@ enditem
fn main() {}
}

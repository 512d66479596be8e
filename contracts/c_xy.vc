#![allow(warnings)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::io::{BufRead, Error as ioError, Read};
use std::fmt;
use std::str::FromStr;
use std::marker::PhantomData;
verus! {
broadcast use vstd::seq_lib::group_seq_properties;
global size_of usize == 8;
//@include build.inc
//@include stream.inc
//@include bufread.inc
//@include lines.inc
//@include text.inc
//@include push.inc
//@include deliver.inc
//@include load2.inc
//@include format_xy.inc
//@ file src/io/xy.rs
//@ enum XyError
//@ enditem
pub type XyResult<T> = std::result::Result<T, XyError>;
pub type XyIOResult<T> = IOResult<T, XyError>;
impl vstd::std_specs::convert::FromSpecImpl<ioError> for XyError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ioError) -> Self { XyError::AccessFile } }
//@ impl From for XyError
//@ fn from
//@ enditem
//@ struct XyIterator
//@ attrs
#[verifier::reject_recursive_types(P)]
//@ enditem
impl<P: IsBuildable2D, R: BufRead> XyIterator<P, R> {
    /// reading fails only at the end of the stream; line numbers are representable
    pub closed spec fn good(&self) -> bool { self.read.reliable() && self.i_line + self.read.left().len() <= usize::MAX }
    pub closed spec fn left(&self) -> (Seq<V2>, bool) {
        if self.is_done { (Seq::empty(), true) } else { content(self.read.left(), if self.delim_determined { Some(self.delim) } else { None }) }
    }
}
//@ impl XyIterator
//@ fn new
//@ ret r
//@ spec
        requires read.reliable(), read.left().len() <= usize::MAX,
        ensures r.good(), r.left() == content(read.left(), None),
//@ fn fetch_one
//@ ret r
//@ replace `line.split(|x| *x == *delim)` => `{ let d__ = *delim; split_by(line, |x: &u8| -> (b: bool) ensures b == (*x == d__) { *x == d__ }) }` ; see split_by
//@ replace `.and_then(|word| from_ascii(word))` => `.and_then(|word: &[u8]| -> (o: Option<f64>) ensures o == parse::<f64>(word@) { from_ascii(word) })` ; contract on the closure
//@ start
        broadcast use wd::next_word;
//@ spec
        ensures ({ let d = if *old(delim_determined) { Some(*old(delim)) } else { separator(line@, 1) };
            r.is_ok() == (d is Some && point_of(line@, d->0) is Some) && (r.is_ok() ==> v2(r->Ok_0, point_of(line@, d->0)->0) && *final(delim_determined) && *final(delim) == d->0) }),
//@ enditem
//@ impl Iterator for XyIterator
//@ header impl<P: IsBuildable2D, R: BufRead> XyIterator<P, R>
//@ fn next
//@ ret r
//@ sigreplace `Option<Self::Item>` => `Option<XyIOResult<P>>` ; associated type of the dropped trait header
//@ replace `Some($1.map_err(|e| { self.is_done = true; e }),)` => `Some(match $1 { Ok(x) => Ok(x), Err(e) => { self.is_done = true; Err(e) } })` ; closure writing to a captured variable
//@ start
        proof { let s = self.read.left(); rest_is_shorter(s); let sep = if self.delim_determined { Some(self.delim) } else { None::<u8> }; let d = if sep is Some { sep } else { separator(line(s), 1) }; let c = content(rest(s), d); assert forall|p: V2| (#[trigger] (seq![p] + c.0)).skip(1) == c.0 by { }; }
//@ spec
        requires old(self).good(),
        ensures final(self).good(),
            match r {
                None => old(self).left() == (Seq::<V2>::empty(), true) && final(self).left() == old(self).left(),
                Some(Ok(p)) => old(self).left().0.len() > 0 && v2(p, old(self).left().0[0]) && final(self).left() == (old(self).left().0.skip(1), old(self).left().1),
                Some(Err(e)) => old(self).left() == (Seq::<V2>::empty(), false) && final(self).left() == (Seq::<V2>::empty(), true),
            },
//@ enditem
//@ freefn load_xy
//@ ret r
//@ replace `for p in iterator` => `let mut iterator = iterator; while let Some(p) = iterator.next()` ; desugared for loop over the library's own iterator
//@ spec
    requires read.reliable(), read.left().len() <= usize::MAX,
    ensures r.is_ok() == content(read.left(), None).1, appended(old(ip).list(), final(ip).list(), content(read.left(), None).0),
//@ start
    let ghost all = content(read.left(), None);
    let ghost before = ip.list();
//@ loop 0 before
    proof { delivered_start(before, all); }
    let ghost mut now = all;
//@ loop 0 inv
        invariant_except_break now == iterator.left(), iterator.good(), 
        invariant all == content(read.left(), None), before == old(ip).list(), delivered(before, ip.list(), all, now),
        ensures now == (Seq::<V2>::empty(), true),
        decreases now.0.len(),
//@ loop 0 start
        proof { if p is Ok { delivered_step(before, ip.list(), p->Ok_0, all, now, iterator.left()); now = iterator.left(); } else { delivered_end(before, ip.list(), all, now); } }
//@ loop 0 after
    proof { delivered_end(before, ip.list(), all, now); }
//@ enditem
fn main() {}
}

#![allow(warnings)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::io::{BufRead, Error as ioError, Read};
use std::fmt;
use std::str::FromStr;
use std::marker::PhantomData;
verus! {
//@include float.inc
broadcast use vstd::seq_lib::group_seq_properties;
global size_of usize == 8;
//@include build.inc
//@include stream.inc
//@include bufread.inc
//@include lines.inc
//@include text.inc
//@include push.inc
//@include deliver.inc
//@include load3.inc
/// the stated coordinates of a command: words X.. Y.. Z.. up to a comment, at most three; None if one is no number
pub open spec fn stated(ws: Seq<Seq<u8>>, n: int, x: Option<f64>, y: Option<f64>, z: Option<f64>) -> Option<(Option<f64>, Option<f64>, Option<f64>)> decreases ws.len() {
    if ws.len() == 0 || n == 3 { Some((x, y, z)) }
    else { let w = ws[0]; let t = ws.drop_first(); let v = f(w.skip(1));
        if w.len() > 0 && w[0] == 59 { Some((x, y, z)) }
        else if w.len() < 2 || !(88 <= w[0] <= 90) { stated(t, n, x, y, z) }
        else if v is None { None }
        else if w[0] == 88 { stated(t, n + 1, v, y, z) }
        else if w[0] == 89 { stated(t, n + 1, x, v, z) }
        else { stated(t, n + 1, x, y, v) } }
}
pub open spec fn arguments(s: Seq<u8>) -> Option<(Option<f64>, Option<f64>, Option<f64>)> { stated(parts(s, |x: u8| x == 32), 0, None, None, None) }
/// the machine: coordinates are absolute or relative, and the position
pub struct Machine { pub absolute: bool, pub at: V3 }
pub open spec fn go(absolute: bool, old: f64, new: Option<f64>) -> f64 { if new is None { old } else if absolute { new->0 } else { old.ieee_add(new->0) } }
/// the machine after a line, whether the line reaches a point, and whether it is readable
pub open spec fn step(l: Seq<u8>, m: Machine) -> (Machine, bool, bool) {
    let a = arguments(l.skip(3));
    let moved = |absolute: bool| if a is None { (m, false, false) } else { (Machine { absolute: m.absolute, at: V3 { x: go(absolute, m.at.x, a->Some_0.0), y: go(absolute, m.at.y, a->Some_0.1), z: go(absolute, m.at.z, a->Some_0.2) } }, a->Some_0.0 is Some || a->Some_0.1 is Some || a->Some_0.2 is Some, true) };
    if l.len() < 3 || l[0] != 71 { (m, false, true) }
    else if l[2] == 32 && 49 <= l[1] <= 51 { moved(m.absolute) }
    else if l[1] == 57 && (l.len() == 3 || l[3] == 32) {
        if l[2] == 48 { (Machine { absolute: true, at: m.at }, false, true) }
        else if l[2] == 49 { (Machine { absolute: false, at: m.at }, false, true) }
        else if l[2] == 50 { moved(true) }
        else { (m, false, true) } }
    else { (m, false, true) }
}
/// the points reached by a program; false if there is a line that is not readable
pub open spec fn content(s: Seq<u8>, m: Machine) -> (Seq<V3>, bool) decreases s.len() via content_ends {
    if s.len() == 0 { (Seq::empty(), true) }
    else { let t = step(line(s), m);
        if !t.2 { (Seq::empty(), false) }
        else { let c = content(rest(s), t.0); if t.1 { (seq![t.0.at] + c.0, c.1) } else { c } } }
}
#[via_fn] proof fn content_ends(s: Seq<u8>, m: Machine) { rest_is_shorter(s); }
pub open spec fn begin() -> Machine { Machine { absolute: true, at: V3 { x: 0.0, y: 0.0, z: 0.0 } } }
//@ file src/io/gcode.rs
//@ enum RelativeAbsolute
//@ enditem
//@ enum GcodeError
//@ enditem
pub type GcodeResult<T> = IOResult<T, GcodeError>;
//@ freefn command
//@ ret r
//@ replace `line.split(|x| *x == b' ')` => `split_vec(line, |x: &u8| -> (b: bool) ensures b == (*x == 32u8) { *x == b' ' })` ; see split_vec
//@ spec
    ensures match r { None => arguments(line@) is None, Some(a) => arguments(line@) == Some((a@[0], a@[1], a@[2])) },
//@ loop 0 before
    let ghost all = words@;
    proof { assert(views(all) == parts(line@, |x: u8| x == 32)); assert(views(all).skip(0) == views(all)); }
//@ loop 0 iter it
//@ loop 0 inv
        invariant_except_break n_found <= 3, n_found <= it.index@, arguments(line@) == stated(views(all).skip(it.index@), n_found as int, x, y, z),
        invariant it.seq() == all,
        ensures arguments(line@) == Some((x, y, z)),
//@ loop 0 start
        proof { let v = views(all).skip(it.index@); assert(v.len() > 0); assert(v[0] == word@); if word@.len() > 0 { assert(word@.subrange(1, word@.len() as int) == v[0].skip(1)); } assert(v.drop_first() == views(all).skip(it.index@ + 1)); }
//@ enditem
//@ struct GcodeIterator
//@ attrs
#[verifier::reject_recursive_types(P)]
//@ enditem
impl<P: IsBuildable3D, R: BufRead> GcodeIterator<P, R> {
    /// reading fails only at the end of the stream; line numbers are representable
    pub closed spec fn good(&self) -> bool { self.read.reliable() && self.i_line + self.read.left().len() <= usize::MAX }
    pub closed spec fn machine(&self) -> Machine { Machine { absolute: self.ra is Absolute, at: V3 { x: self.x, y: self.y, z: self.z } } }
    pub closed spec fn left(&self) -> (Seq<V3>, bool) { if self.is_done { (Seq::empty(), true) } else { content(self.read.left(), self.machine()) } }
}
//@ impl GcodeIterator
//@ fn new
//@ ret r
//@ spec
        requires read.reliable(), read.left().len() <= usize::MAX,
        ensures r.good(), r.left() == content(read.left(), begin()),
//@ enditem
//@ impl Iterator for GcodeIterator
//@ header impl<P: IsBuildable3D, R: BufRead> GcodeIterator<P, R>
//@ fn next
//@ ret r
//@ floatassign
//@ replace `Ok([opt_x, opt_y, opt_z])` => `Ok(opt__)` ; array pattern
//@ replace `if let Some(new_x) = opt_x` => `if let Some(new_x) = opt__[0]` ; see above
//@ replace `if let Some(new_y) = opt_y` => `if let Some(new_y) = opt__[1]` ; see above
//@ replace `if let Some(new_z) = opt_z` => `if let Some(new_z) = opt__[2]` ; see above
//@ sigreplace `Option<Self::Item>` => `Option<GcodeResult<P>>` ; associated type of the dropped trait header
//@ start
        broadcast use fl::ax;
//@ spec
        requires old(self).good(),
        ensures final(self).good(),
            match r {
                None => old(self).left() == (Seq::<V3>::empty(), true) && final(self).left() == old(self).left(),
                Some(Ok(p)) => old(self).left().0.len() > 0 && v3(p, old(self).left().0[0]) && final(self).left() == (old(self).left().0.skip(1), old(self).left().1),
                Some(Err(e)) => old(self).left() == (Seq::<V3>::empty(), false) && final(self).left() == (Seq::<V3>::empty(), true),
            },
//@ loop 0 before
        let ghost mut s = self.read.left();
        let ghost mut m = self.machine();
        proof { rest_is_shorter(s); }
//@ loop 0 inv
            invariant !self.is_done, self.good(), self.left() == old(self).left(), s == self.read.left(), m == self.machine(), s.len() > 0 ==> rest(s).len() < s.len(),
            ensures self.read.left().len() == 0,
            decreases self.read.left().len(),
//@ loop 0 start
            broadcast use fl::ax;
            proof { let t = step(line@, m); let c = content(rest(s), t.0); assert((seq![t.0.at] + c.0).skip(1) == c.0); }
//@ loop 0 end
            proof { s = self.read.left(); m = self.machine(); rest_is_shorter(s); }
//@ enditem
//@ freefn load_gcode_points
//@ ret r
//@ replace `for p in iterator` => `let mut iterator = iterator; while let Some(p) = iterator.next()` ; desugared for loop over the library's own iterator
//@ spec
    requires read.reliable(), read.left().len() <= usize::MAX,
    ensures r.is_ok() == content(read.left(), begin()).1, appended(old(ip).list(), final(ip).list(), content(read.left(), begin()).0),
//@ start
    let ghost all = content(read.left(), begin());
    let ghost before = ip.list();
//@ loop 0 before
    proof { delivered_start(before, all); }
    let ghost mut now = all;
//@ loop 0 inv
        invariant_except_break now == iterator.left(), iterator.good(), 
        invariant all == content(read.left(), begin()), before == old(ip).list(), delivered(before, ip.list(), all, now),
        ensures now == (Seq::<V3>::empty(), true),
        decreases now.0.len(),
//@ loop 0 start
        proof { if p is Ok { delivered_step(before, ip.list(), p->Ok_0, all, now, iterator.left()); now = iterator.left(); } else { delivered_end(before, ip.list(), all, now); } }
//@ loop 0 after
    proof { delivered_end(before, ip.list(), all, now); }
//@ enditem
fn main() {}
}

#![allow(warnings)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use vstd::float::*;
use std::io::{BufRead, Error as ioError, Read};
use std::fmt;
use std::str::FromStr;
use std::marker::PhantomData;
verus! {
broadcast use vstd::seq_lib::group_seq_properties;
global size_of usize == 8;
//@include build.inc
//@include stream.inc
//@include bufread.inc
//@include lines.inc
//@include text.inc
//@include push.inc
//@include deliver.inc
//@include load2.inc
//@include load3.inc
//@include rows.inc
pub mod xyz {
use super::*;
//@include point_of3.inc
//@include format_xyz.inc
}
pub mod xy {
use super::*;
//@include format_xy.inc
}
/// neither white space nor one of the separators, and ASCII
pub open spec fn plain(b: u8) -> bool { b < 128 && !is_white(b) && b != 59 && b != 44 }
pub open spec fn all_plain(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> plain(#[trigger] s[i]) }
/// `x.to_string()` consists of digits, sign, point and letters, and is read back as x (assumed: std)
pub axiom fn ax_num(x: f64) requires !x.is_nan_spec() ensures num(x).len() > 0, all_plain(num(x)), parsed::<f64>(num(x)) == Some(x);
pub open spec fn sep(d: u8) -> bool { d == 32 || d == 59 || d == 44 || d == 9 }
pub open spec fn no_nan<P: Coords>(l: Seq<P>, n: int) -> bool { forall|i: int, k: int| 0 <= i < l.len() && 0 <= k < n ==> !(#[trigger] l[i].at(k)).is_nan_spec() }
proof fn occ_none(s: Seq<u8>, x: u8) requires all_plain(s), !plain(x) ensures occurrences(s, x) == 0 decreases s.len() { if s.len() > 0 { assert(plain(s[s.len() - 1])); occ_none(s.drop_last(), x); } }
proof fn occ_cat(a: Seq<u8>, b: Seq<u8>, x: u8) ensures occurrences(a + b, x) == occurrences(a, x) + occurrences(b, x) decreases b.len() {
    if b.len() == 0 { assert(a + b == a); } else { assert((a + b).drop_last() == a + b.drop_last()); occ_cat(a, b.drop_last(), x); }
}
proof fn occ_one(d: u8, x: u8) ensures occurrences(seq![d], x) == (if d == x { 1nat } else { 0 }) { reveal_with_fuel(occurrences, 2); assert(seq![d].drop_last() == Seq::<u8>::empty()); }
proof fn upto_line(a: Seq<u8>, r: Seq<u8>) requires forall|i: int| 0 <= i < a.len() ==> a[i] != 10 ensures upto(a + seq![10u8] + r, 10) == a.len() + 1 decreases a.len() {
    let s = a + seq![10u8] + r;
    if a.len() == 0 { assert(s[0] == 10); } else { assert(s.drop_first() == a.drop_first() + seq![10u8] + r); assert(s[0] == a[0]); upto_line(a.drop_first(), r); }
}
/// the first line of a + newline + r is a, if a has no newline and no white space at the end
proof fn line_of(a: Seq<u8>, r: Seq<u8>) requires a.len() > 0, !is_white(a.last()), forall|i: int| 0 <= i < a.len() ==> a[i] != 10
    ensures line(a + seq![10u8] + r) == a, rest(a + seq![10u8] + r) == r
{
    let s = a + seq![10u8] + r; upto_line(a, r);
    assert(s[a.len() as int] == 10); assert(s.take(a.len() as int) == a); assert(s.skip(a.len() as int + 1) == r);
}
/// p tells which bytes are d
pub open spec fn tells(p: spec_fn(u8) -> bool, d: u8) -> bool { forall|x: u8| #[trigger] p(x) == (x == d) }
proof fn plain_rest(s: Seq<u8>) requires all_plain(s), s.len() > 0 ensures plain(s[0]), all_plain(s.drop_first()) { assert forall|i: int| 0 <= i < s.drop_first().len() implies plain(#[trigger] s.drop_first()[i]) by { assert(plain(s[i + 1])); } }
proof fn parts_plain(s: Seq<u8>, d: u8, p: spec_fn(u8) -> bool) requires tells(p, d), all_plain(s), !plain(d) ensures parts(s, p) == seq![s] decreases s.len() {
    if s.len() > 0 { plain_rest(s); parts_plain(s.drop_first(), d, p); assert(seq![s[0]] + s.drop_first() == s); assert(!p(s[0])); assert(seq![s.drop_first()].update(0, s) =~= seq![s]); }
    else { assert(s == Seq::<u8>::empty()); }
}
proof fn parts_cut(s: Seq<u8>, r: Seq<u8>, d: u8, p: spec_fn(u8) -> bool) requires tells(p, d), all_plain(s), !plain(d) ensures parts(s + seq![d] + r, p) == seq![s] + parts(r, p) decreases s.len() {
    let t = s + seq![d] + r;
    if s.len() == 0 { assert(t.drop_first() == r); assert(p(t[0])); assert(s == Seq::<u8>::empty()); }
    else {
        plain_rest(s);
        assert(t.drop_first() == s.drop_first() + seq![d] + r); assert(t[0] == s[0]); assert(!p(t[0])); parts_cut(s.drop_first(), r, d, p); assert(seq![s[0]] + s.drop_first() == s);
        assert((seq![s.drop_first()] + parts(r, p)).update(0, s) =~= seq![s] + parts(r, p));
    }
}
proof fn filled_all(s: Seq<Seq<u8>>) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() > 0 ensures filled(s) == s decreases s.len() {
    reveal_with_fuel(Seq::filter, 2);
    if s.len() > 0 { let r = s.drop_first(); assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).len() > 0 by { assert(s[i + 1].len() > 0); } filled_all(r); wd::filled_cons(s[0], r); assert(seq![s[0]] + r == s); }
}
proof fn ends(a: Seq<u8>, s: Seq<u8>) requires all_plain(s), s.len() > 0 ensures (a + s).len() > 0, !is_white((a + s).last()) { assert((a + s)[(a + s).len() - 1] == s[s.len() - 1]); assert(plain(s[s.len() - 1])); }
pub open spec fn one_line(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != 10 }
proof fn on_line(a: Seq<u8>, s: Seq<u8>) requires one_line(a), all_plain(s) || s.len() == 1 && s[0] != 10 ensures one_line(a + s) { assert forall|i: int| 0 <= i < (a + s).len() implies (a + s)[i] != 10 by { if i >= a.len() { let k = i - a.len(); assert(s.len() == 1 || plain(s[k])); assert((a + s)[i] == s[k]); } } }
/// what the loader sees in a line of three words
proof fn three_words(x: Seq<u8>, y: Seq<u8>, z: Seq<u8>, d: u8)
    requires sep(d), all_plain(x), all_plain(y), all_plain(z), x.len() > 0, y.len() > 0, z.len() > 0,
    ensures ({ let a = x + seq![d] + y + seq![d] + z; a.len() > 0 && !is_white(a.last()) && one_line(a) && separator(a, 2) == Some(d) && tokens(a, d) == seq![x, y, z] })
{
    let c = seq![d]; let (e, f, g) = (x + c, x + c + y, x + c + y + c); let a = g + z;
    ends(g, z); on_line(Seq::empty(), x); assert(Seq::<u8>::empty() + x == x); on_line(x, c); on_line(e, y); on_line(f, c); on_line(g, z);
    assert forall|q: u8| sep(q) implies #[trigger] occurrences(a, q) == (if q == d { 2nat } else { 0 }) by { occ_cat(g, z, q); occ_cat(f, c, q); occ_cat(e, y, q); occ_cat(x, c, q); occ_one(d, q); occ_none(x, q); occ_none(y, q); occ_none(z, q); }
    assert(sep(32) && sep(59) && sep(44) && sep(9));
    let w = seq![x, y, z]; let yz = y + c + z;
    assert(a =~= e + yz); filled_all(w);
    assert forall|p: spec_fn(u8) -> bool| tells(p, d) implies #[trigger] parts(a, p) == w by { parts_cut(x, yz, d, p); parts_cut(y, z, d, p); parts_plain(z, d, p); assert(seq![x] + (seq![y] + seq![z]) =~= w); }
}
/// what the loader sees in a line of two words
proof fn two_words(x: Seq<u8>, y: Seq<u8>, d: u8)
    requires sep(d), all_plain(x), all_plain(y), x.len() > 0, y.len() > 0,
    ensures ({ let a = x + seq![d] + y; a.len() > 0 && !is_white(a.last()) && one_line(a) && separator(a, 1) == Some(d) && tokens(a, d) == seq![x, y] })
{
    let c = seq![d]; let e = x + c; let a = e + y;
    ends(e, y); on_line(Seq::empty(), x); assert(Seq::<u8>::empty() + x == x); on_line(x, c); on_line(e, y);
    assert forall|q: u8| sep(q) implies #[trigger] occurrences(a, q) == (if q == d { 1nat } else { 0 }) by { occ_cat(e, y, q); occ_cat(x, c, q); occ_one(d, q); occ_none(x, q); occ_none(y, q); }
    assert(sep(32) && sep(59) && sep(44) && sep(9));
    let w = seq![x, y]; filled_all(w);
    assert forall|p: spec_fn(u8) -> bool| tells(p, d) implies #[trigger] parts(a, p) == w by { parts_cut(x, y, d, p); parts_plain(y, d, p); assert(seq![x] + seq![y] =~= w); }
}
proof fn xyz_front<P: Coords>(l: Seq<P>, c: Seq<u8>, d: Seq<u8>) requires l.len() > 0
    ensures xyz_rows(l, c, d) == num(l[0].at(0)) + c + num(l[0].at(1)) + c + num(l[0].at(2)) + d + xyz_rows(l.drop_first(), c, d) decreases l.len()
{
    let p = l.last();
    if l.len() == 1 { assert(l.drop_last() == Seq::<P>::empty()); assert(l.drop_first() == Seq::<P>::empty()); }
    else { xyz_front(l.drop_last(), c, d); assert(l.drop_last().drop_first() == l.drop_first().drop_last()); assert(l.drop_first().last() == p); assert(l.drop_last()[0] == l[0]); }
}
proof fn xy_front<P: Coords>(l: Seq<P>, c: Seq<u8>, d: Seq<u8>) requires l.len() > 0
    ensures xy_rows(l, c, d) == num(l[0].at(0)) + c + num(l[0].at(1)) + d + xy_rows(l.drop_first(), c, d) decreases l.len()
{
    let p = l.last();
    if l.len() == 1 { assert(l.drop_last() == Seq::<P>::empty()); assert(l.drop_first() == Seq::<P>::empty()); }
    else { xy_front(l.drop_last(), c, d); assert(l.drop_last().drop_first() == l.drop_first().drop_last()); assert(l.drop_first().last() == p); assert(l.drop_last()[0] == l[0]); }
}
/// what save_xyz writes, with one of the separators that are recognised and a newline, is read back as the same points
pub proof fn xyz_is_read_back<P: Coords>(l: Seq<P>, d: u8, s: Option<u8>) requires sep(d), s is None || s == Some(d), no_nan(l, 3)
    ensures ({ let c = xyz::content(xyz_rows(l, seq![d], seq![10u8]), s); c.1 && c.0.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> v3(l[i], #[trigger] c.0[i]) }), decreases l.len()
{
    let (c, n) = (seq![d], seq![10u8]);
    let t = xyz_rows(l, c, n);
    if l.len() > 0 {
        let p = l[0]; let r = l.drop_first(); let (x, y, z) = (num(p.at(0)), num(p.at(1)), num(p.at(2)));
        assert(!l[0].at(0).is_nan_spec() && !l[0].at(1).is_nan_spec() && !l[0].at(2).is_nan_spec());
        ax_num(p.at(0)); ax_num(p.at(1)); ax_num(p.at(2));
        xyz_front(l, c, n);
        let a = x + c + y + c + z;
        assert(t == a + n + xyz_rows(r, c, n));
        three_words(x, y, z, d); line_of(a, xyz_rows(r, c, n));
        assert forall|i: int, k: int| 0 <= i < r.len() && 0 <= k < 3 implies !(#[trigger] r[i].at(k)).is_nan_spec() by { assert(!l[i + 1].at(k).is_nan_spec()); }
        xyz_is_read_back(r, d, Some(d));
        let rec = xyz::content(xyz_rows(r, c, n), Some(d)); let v = xyz::content(t, s);
        assert forall|i: int| 0 <= i < l.len() implies v3(l[i], #[trigger] v.0[i]) by { if i > 0 { assert(l[i] == r[i - 1]); assert(v.0[i] == rec.0[i - 1]); } }
    }
}
/// what save_xy writes, with one of the separators that are recognised and a newline, is read back as the same points
pub proof fn xy_is_read_back<P: Coords>(l: Seq<P>, d: u8, s: Option<u8>) requires sep(d), s is None || s == Some(d), no_nan(l, 2)
    ensures ({ let c = xy::content(xy_rows(l, seq![d], seq![10u8]), s); c.1 && c.0.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> v2(l[i], #[trigger] c.0[i]) }), decreases l.len()
{
    let (c, n) = (seq![d], seq![10u8]);
    let t = xy_rows(l, c, n);
    if l.len() > 0 {
        let p = l[0]; let r = l.drop_first(); let (x, y) = (num(p.at(0)), num(p.at(1)));
        assert(!l[0].at(0).is_nan_spec() && !l[0].at(1).is_nan_spec());
        ax_num(p.at(0)); ax_num(p.at(1));
        xy_front(l, c, n);
        let a = x + c + y;
        assert(t == a + n + xy_rows(r, c, n));
        two_words(x, y, d); line_of(a, xy_rows(r, c, n));
        assert forall|i: int, k: int| 0 <= i < r.len() && 0 <= k < 2 implies !(#[trigger] r[i].at(k)).is_nan_spec() by { assert(!l[i + 1].at(k).is_nan_spec()); }
        xy_is_read_back(r, d, Some(d));
        let rec = xy::content(xy_rows(r, c, n), Some(d)); let v = xy::content(t, s);
        assert forall|i: int| 0 <= i < l.len() implies v2(l[i], #[trigger] v.0[i]) by { if i > 0 { assert(l[i] == r[i - 1]); assert(v.0[i] == rec.0[i - 1]); } }
    }
}
fn main() {}
}

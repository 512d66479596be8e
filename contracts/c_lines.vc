#![allow(warnings)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::io::{BufRead, Error as ioError, Read};
use std::fmt;
use std::str::FromStr;
verus! {
broadcast use vstd::seq_lib::group_seq_properties;
global size_of usize == 8;
//@include stream.inc
//@include bufread.inc
//@include lines.inc
//@include text.inc
//@include skipwords.inc
/// the first line contains no terminator; with its terminator (if any) and the rest it is the stream: nothing is lost
pub proof fn line_is_complete(s: Seq<u8>)
    ensures !first_line(s).contains(10), ({ let n = upto(s, 10); let rest = s.skip(n); s == first_line(s) + rest && rest.len() == 0 || s == first_line(s) + seq![10u8] + rest }),
{ upto_bounds(s, 10); let n = upto(s, 10); assert(s == s.take(n) + s.skip(n)); if n > 0 && s[n - 1] == 10 { assert(s.take(n) == s.take(n - 1) + seq![10u8]); } else if n > 0 { } }
/// what repeated calls of SkipEmpty::next return: the non-empty parts, in order, none left out
pub proof fn words_in_order<T>(s: Seq<&[T]>)
    ensures ({ let t = from_nonempty(s); if t.len() == 0 { nonempty(s).len() == 0 } else { t[0]@.len() > 0 && nonempty(s) == seq![t[0]] + nonempty(t.skip(1)) } })
    decreases s.len()
{
    broadcast use vstd::seq::group_seq_axioms;
    let f = |x: &[T]| x@.len() > 0;
    reveal_with_fuel(Seq::filter, 1);
    if s.len() > 0 {
        assert(s == seq![s[0]] + s.drop_first());
        vstd::seq_lib::assert_seqs_equal!(seq![s[0]] + s.drop_first(), s);
        Seq::filter_distributes_over_add(seq![s[0]], s.drop_first(), f);
        assert(seq![s[0]].filter(f) == (if f(s[0]) { seq![s[0]] } else { Seq::empty() })) by { reveal_with_fuel(Seq::filter, 2); assert(seq![s[0]].drop_last() == Seq::<&[T]>::empty()); }
        if s[0]@.len() == 0 { words_in_order(s.drop_first()); assert(nonempty(s) == nonempty(s.drop_first())); }
        else { assert(s.skip(1) == s.drop_first()); }
    }
}
/// needle occurs in haystack
pub open spec fn occurs<T>(haystack: Seq<T>, needle: Seq<T>) -> bool { exists|i: int| 0 <= i <= haystack.len() - needle.len() && #[trigger] haystack.subrange(i, i + needle.len()) == needle }
/// `haystack.windows(n).any(|x| x == needle)` (assumed: std, for elements whose == is equality)
#[verifier::external_body]
pub fn any_window<T: PartialEq>(haystack: &[T], n: usize, needle: &[T]) -> (r: bool) requires n > 0 ensures n == needle@.len() && same_eq::<T>() ==> r == occurs(haystack@, needle@) { haystack.windows(n).any(|x| x == needle) }
/// the element type compares with == as equality
pub uninterp spec fn same_eq<T>() -> bool;
//@ file src/utils.rs
//@ freefn contains
//@ ret r
//@ replace `haystack.windows($1).any(|x| x == needle)` => `any_window(haystack, $1, needle)` ; see any_window
//@ spec
    ensures same_eq::<T>() ==> r == occurs(haystack@, needle@),
//@ start
    proof { if needle@.len() == 0 { assert(haystack@.subrange(0, 0 + needle@.len() as int) == needle@); } }
//@ enditem
/// `s == ""` (assumed: std)
#[verifier::external_body]
pub fn str_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s == "" }
/// without its leading empty strings
pub open spec fn from_nonempty_str(s: Seq<&str>) -> Seq<&str> decreases s.len() { if s.len() > 0 && s[0]@.len() == 0 { from_nonempty_str(s.drop_first()) } else { s } }
//@ file src/skip_empty_string.rs
//@ struct SkipEmptyString
//@ attrs
//@ enditem
//@ impl SkipEmptyString
//@ fn new
//@ ret r
//@ spec
        ensures r.iterator == iterator,
//@ enditem
//@ impl Iterator for SkipEmptyString
//@ header impl<'a, I> SkipEmptyString<'a, I> where I: Iterator<Item = &'a str>
//@ fn next
//@ ret r
//@ fattrs
#[verifier::exec_allows_no_decreases_clause]
//@ sigreplace `Option<Self::Item>` => `Option<&'a str>` ; associated type of the dropped trait header
//@ replace `Some("") => continue` => `Some(x) if str_is_empty(x) => continue` ; string pattern
//@ spec
        requires old(self).iterator.obeys_prophetic_iter_laws(), old(self).iterator.will_return_none(),
        ensures final(self).iterator.obeys_prophetic_iter_laws(), final(self).iterator.will_return_none(),
            ({ let t = from_nonempty_str(old(self).iterator.remaining());
               if t.len() == 0 { r is None && final(self).iterator.remaining() == t } else { r == Some(t[0]) && final(self).iterator.remaining() == t.skip(1) } }),
//@ loop 0 inv
            invariant self.iterator.obeys_prophetic_iter_laws(), self.iterator.will_return_none(), from_nonempty_str(self.iterator.remaining()) == from_nonempty_str((*old(self)).iterator.remaining()),
//@ enditem
fn main() {}
}

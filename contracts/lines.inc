pub open spec fn is_white(b: u8) -> bool { 9 <= b <= 13 || b == 32 || b == 0x85 || b == 0xA0 }
/// `(b as char).is_whitespace()` (assumed: the Unicode white space below 256)
#[verifier::external_body]
pub fn white(b: u8) -> (r: bool) ensures r == is_white(b) { (b as char).is_whitespace() }
/// without trailing white space
pub open spec fn trimmed(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() > 0 && is_white(s.last()) { trimmed(s.drop_last()) } else { s } }
pub proof fn upto_bounds(s: Seq<u8>, b: u8)
    ensures 0 <= upto(s, b) <= s.len(), s.len() > 0 ==> upto(s, b) > 0,
        forall|i: int| 0 <= i < upto(s, b) - 1 ==> s[i] != b,
        upto(s, b) < s.len() ==> s[upto(s, b) - 1] == b,
    decreases s.len()
{ if s.len() > 0 && s[0] != b { let t = s.drop_first(); upto_bounds(t, b); assert forall|i: int| 0 <= i < upto(s, b) - 1 implies s[i] != b by { if i > 0 { assert(s[i] == t[i - 1]); } } } }
/// the first line of s, without its terminator
pub open spec fn first_line(s: Seq<u8>) -> Seq<u8> { let n = upto(s, 10); if n > 0 && s[n - 1] == 10 { s.take(n - 1) } else { s.take(n) } }
/// trimming removes only white space at the end
pub proof fn trimmed_is_prefix(s: Seq<u8>)
    ensures trimmed(s).len() <= s.len(), trimmed(s) == s.take(trimmed(s).len() as int), forall|i: int| trimmed(s).len() <= i < s.len() ==> is_white(#[trigger] s[i]), trimmed(s).len() > 0 ==> !is_white(trimmed(s).last())
    decreases s.len()
{ if s.len() > 0 && is_white(s.last()) { let t = s.drop_last(); trimmed_is_prefix(t); assert forall|i: int| trimmed(s).len() <= i < s.len() implies is_white(#[trigger] s[i]) by { if i < t.len() { assert(t[i] == s[i]); } } assert(t.take(trimmed(s).len() as int) == s.take(trimmed(s).len() as int)); } }
//@ file src/io/utils.rs
//@ struct FetchLineError
//@ attrs
#[derive(Debug)]
//@ enditem
pub type FetchLineResult<T> = std::result::Result<T, FetchLineError>;
//@ impl From for FetchLineError
//@ fn from
//@ enditem
//@ freefn fetch_line
//@ ret r
//@ replace `(line_buffer[line_buffer.len() - i - 1] as char).is_whitespace()` => `white(line_buffer[line_buffer.len() - i - 1])` ; see white
//@ spec
    ensures r.is_ok() ==> (*old(read)).left().len() > 0 && r->Ok_0@ == trimmed(first_line((*old(read)).left())) && (*final(read)).left() == (*old(read)).left().skip(upto((*old(read)).left(), 10)),
        (*old(read)).reliable() && (*old(read)).left().len() > 0 ==> r.is_ok(), (*old(read)).reliable() && r.is_err() ==> (*final(read)).left() == (*old(read)).left(), (*final(read)).reliable() == (*old(read)).reliable(),
//@ start
    let ghost s = (*read).left();
    proof { upto_bounds(s, 10); }
//@ loop 0 before
    let ghost b = line_buffer@;
    let ghost base = first_line(s);
    let ghost start_at = ignore_end;
    proof { assert(b == s.take(upto(s, 10))); assert(b.take(b.len() - ignore_end) == base); }
//@ loop 0 iter it
//@ loop 0 inv
        invariant_except_break ignore_end == i,
        invariant line_buffer@ == b, b.len() <= usize::MAX, ignore_end <= b.len(), i <= b.len(), trimmed(b.take(b.len() - ignore_end)) == trimmed(base), it.seq().len() == b.len() - start_at, i == start_at + it.index@, 
        ensures ignore_end <= b.len(), b.take(b.len() - ignore_end) == trimmed(base), 
//@ loop 0 start
        proof { let t = b.take(b.len() - ignore_end); assert(t.last() == b[b.len() - i - 1]); assert(t.drop_last() == b.take(b.len() - i - 1)); }
//@ enditem
/// without the spaces and tabs at the start
pub open spec fn left_trimmed(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() > 0 && (s[0] == 32 || s[0] == 9) { left_trimmed(s.drop_first()) } else { s } }
proof fn left_trimmed_is(s: Seq<u8>, k: int) requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> s[i] == 32 || s[i] == 9, k < s.len() ==> s[k] != 32 && s[k] != 9 ensures left_trimmed(s) == s.skip(k) decreases k
{ if k > 0 { left_trimmed_is(s.drop_first(), k - 1); assert(s.drop_first().skip(k - 1) == s.skip(k)); } else { assert(s.skip(0) == s); } }
//@ freefn trim_start
//@ ret r
//@ spec
    ensures r@ == left_trimmed(text@), r@.len() <= text@.len(), r@ == text@.skip(text@.len() - r@.len()), forall|i: int| 0 <= i < text@.len() - r@.len() ==> text@[i] == 32 || text@[i] == 9, r@.len() > 0 ==> r@[0] != 32 && r@[0] != 9,
//@ start
    proof { assert(text@.len() == vstd::slice::spec_slice_len(text)); }
//@ loop 0 iter it
//@ loop 0 inv
        invariant_except_break to_drop == it.index@,
        invariant it.seq().len() == text@.len(), forall|i: int| 0 <= i < text@.len() ==> *(#[trigger] it.seq()[i]) == text@[i], to_drop <= text@.len(), forall|i: int| 0 <= i < to_drop ==> text@[i] == 32 || text@[i] == 9, text@.len() <= usize::MAX,
        ensures to_drop < text@.len() ==> text@[to_drop as int] != 32 && text@[to_drop as int] != 9,
//@ loop 0 after
    proof { left_trimmed_is(text@, to_drop as int); }
//@ enditem
//@ freefn skip_bytes
//@ ret r
//@ spec
    ensures r.is_ok() ==> (*old(read)).left().len() >= n_bytes && (*final(read)).left() == (*old(read)).left().skip(n_bytes as int),
        (*old(read)).reliable() && (*old(read)).left().len() >= n_bytes ==> r.is_ok(), (*final(read)).reliable() == (*old(read)).reliable(),
//@ start
    let ghost s = (*read).left();
    let ghost good = (*read).reliable();
//@ loop 0 iter it
//@ loop 0 inv
        invariant it.index@ <= s.len(), (*read).left() == s.skip(it.index@), (*read).reliable() == good, s == (*old(read)).left(), good == (*old(read)).reliable(), it.seq().len() == n_bytes,
//@ enditem
/// without its leading empty parts
pub open spec fn from_nonempty<T>(s: Seq<&[T]>) -> Seq<&[T]> decreases s.len() { if s.len() > 0 && s[0]@.len() == 0 { from_nonempty(s.drop_first()) } else { s } }
pub open spec fn nonempty<T>(s: Seq<&[T]>) -> Seq<&[T]> { s.filter(|x: &[T]| x@.len() > 0) }
//@ file src/skip_empty.rs
//@ struct SkipEmpty
//@ attrs
#[verifier::reject_recursive_types(T)]
//@ enditem
//@ impl SkipEmpty
//@ fn new
//@ ret r
//@ spec
        ensures r.iterator == iterator,
//@ enditem
//@ impl Iterator for SkipEmpty
//@ header impl<'a, T, I> SkipEmpty<'a, T, I> where T: 'a, I: Iterator<Item = &'a [T]>
//@ fn next
//@ ret r
//@ fattrs
#[verifier::exec_allows_no_decreases_clause]
//@ sigreplace `Option<Self::Item>` => `Option<&'a [T]>` ; associated type of the dropped trait header
//@ replace `Some([]) => continue` => `Some(x) if x.is_empty() => continue` ; slice pattern
//@ spec
        requires old(self).iterator.obeys_prophetic_iter_laws(), old(self).iterator.will_return_none(),
        ensures final(self).iterator.obeys_prophetic_iter_laws(), final(self).iterator.will_return_none(),
            ({ let t = from_nonempty(old(self).iterator.remaining());
               if t.len() == 0 { r is None && final(self).iterator.remaining() == t } else { r == Some(t[0]) && final(self).iterator.remaining() == t.skip(1) } }),
//@ loop 0 inv
            invariant self.iterator.obeys_prophetic_iter_laws(), self.iterator.will_return_none(), from_nonempty(self.iterator.remaining()) == from_nonempty((*old(self)).iterator.remaining()),
//@ enditem
/// the parts of s between the elements that p accepts (std's slice::split)
pub open spec fn parts(s: Seq<u8>, p: spec_fn(u8) -> bool) -> Seq<Seq<u8>> decreases s.len() {
    if s.len() == 0 { seq![Seq::empty()] }
    else { let t = parts(s.drop_first(), p); if p(s[0]) { seq![Seq::<u8>::empty()] + t } else { t.update(0, seq![s[0]] + t[0]) } }
}
/// `line.split(f)` (assumed: std), for a separator test f that is the pure predicate p
#[verifier::external_body]
pub fn split_by<'a, F: Fn(&u8) -> bool>(line: &'a [u8], f: F) -> (r: std::vec::IntoIter<&'a [u8]>)
    requires forall|x: &u8| #[trigger] call_requires(f, (x,)),
    ensures IteratorSpec::obeys_prophetic_iter_laws(&r), IteratorSpec::will_return_none(&r),
        forall|p: spec_fn(u8) -> bool| (forall|x: &u8, y: bool| #[trigger] call_ensures(f, (x,), y) ==> y == p(*x)) ==> views(IteratorSpec::remaining(&r)) == #[trigger] parts(line@, p),
{ line.split(|x| f(x)).collect::<Vec<_>>().into_iter() }
pub proof fn parts_nonempty(s: Seq<u8>, p: spec_fn(u8) -> bool) ensures parts(s, p).len() > 0 decreases s.len() { if s.len() > 0 { parts_nonempty(s.drop_first(), p); } }
pub open spec fn views(s: Seq<&[u8]>) -> Seq<Seq<u8>> { s.map_values(|x: &[u8]| x@) }
//@ file src/utils.rs
//@ freefn until_bytes
//@ ret r
//@ replace `line.split(` => `split_by(line, ` ; see split_by
//@ replace `|x| *x == delimiter` => `|x: &u8| -> (b: bool) ensures b == (*x == delimiter) { *x == delimiter }` ; contract on the closure
//@ spec
    ensures r@ == parts(line@, |x: u8| x == delimiter)[0],
//@ start
    proof { parts_nonempty(line@, |x: u8| x == delimiter); }
//@ enditem
//@ file src/skip_empty.rs
//@ trait IsSkipEmptyProducer
//@ ghost
    spec fn producer(&self) -> bool;
//@ fn skip_empty
//@ ret r
//@ spec
        ensures r.iterator == self,
//@ enditem
//@ impl IsSkipEmptyProducer for std::slice::Split
//@ header impl<'a, T> IsSkipEmptyProducer<'a, T> for std::vec::IntoIter<&'a [T]>
//@ ghost
    open spec fn producer(&self) -> bool { true }
//@ fn skip_empty
//@ enditem
//@ file src/utils.rs
//@ freefn to_words_skip_empty
//@ ret r
//@ sigreplace `impl Iterator<Item = &[u8]>` => `SkipEmpty<'_, u8, std::vec::IntoIter<&[u8]>>` ; the concrete type, with the parts of split_by in place of slice::Split
//@ replace `line.split(` => `split_by(line, ` ; see split_by
//@ replace `|x| *x == b' ' || *x == b'\t'` => `|x: &u8| -> (b: bool) ensures b == (*x == 32u8 || *x == 9u8) { *x == b' ' || *x == b'\t' }` ; contract on the closure
//@ spec
    ensures IteratorSpec::obeys_prophetic_iter_laws(&r.iterator), IteratorSpec::will_return_none(&r.iterator), views(IteratorSpec::remaining(&r.iterator)) == parts(line@, |x: u8| x == 32 || x == 9),
//@ enditem
/// number of elements equal to x
pub open spec fn occurrences(s: Seq<u8>, x: u8) -> nat decreases s.len() { if s.len() == 0 { 0 } else { occurrences(s.drop_last(), x) + if s.last() == x { 1nat } else { 0 } } }
/// `s.iter().filter(|c| **c == x).count()` (assumed: std)
#[verifier::external_body]
pub fn count_of(s: &[u8], x: u8) -> (r: usize) ensures r == occurrences(s@, x) { s.iter().filter(|c| **c == x).count() }
//@ freefn estimate_delimiter
//@ ret r
//@ replace `line.iter().filter(|c| **c == *candidate).count()` => `count_of(line, *candidate)` ; see count_of
//@ spec
    ensures ({ let enough = |x: u8| occurrences(line@, x) >= minimum_count;
        r == (if enough(32) { Some(32u8) } else if enough(59) { Some(59u8) } else if enough(44) { Some(44u8) } else if enough(9) { Some(9u8) } else { None }) }),
//@ loop 0 iter it
//@ loop 0 inv
        invariant it.seq().len() == 4, *it.seq()[0] == 32u8, *it.seq()[1] == 59u8, *it.seq()[2] == 44u8, *it.seq()[3] == 9u8,
            forall|i: int| 0 <= i < it.index@ ==> occurrences(line@, *#[trigger] it.seq()[i]) < minimum_count,
//@ enditem
/// only bytes below 128
pub open spec fn all_ascii(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] < 128 }
/// `bytes.is_ascii()` (assumed: std)
#[verifier::external_body]
pub fn bytes_are_ascii(b: &[u8]) -> (r: bool) ensures r == all_ascii(b@) { b.is_ascii() }
/// what T::from_str makes of a text, if it accepts it
pub uninterp spec fn parsed<T>(s: Seq<u8>) -> Option<T>;
pub open spec fn parse<T>(s: Seq<u8>) -> Option<T> { if all_ascii(s) { parsed::<T>(s) } else { None } }
/// `T::from_str(from_utf8_unchecked(bytes)).ok()`: ASCII is valid UTF-8, the precondition of the unsafe function
#[verifier::external_body]
pub fn parse_ascii<T: FromStr>(b: &[u8]) -> (r: Option<T>) requires all_ascii(b@) ensures r == parsed::<T>(b@) { unsafe { T::from_str(std::str::from_utf8_unchecked(b)).ok() } }
#[verifier::external_trait_specification]
pub trait ExFromStr: Sized { type ExternalTraitSpecificationFor: std::str::FromStr; type Err; fn from_str(s: &str) -> std::result::Result<Self, Self::Err>; }
//@ file src/io/utils.rs
//@ freefn from_ascii
//@ ret r
//@ replace `bytes.is_ascii()` => `bytes_are_ascii(bytes)` ; see bytes_are_ascii
//@ replace `unsafe { T::from_str(std::str::from_utf8_unchecked(bytes)).ok() }` => `parse_ascii(bytes)` ; see parse_ascii
//@ spec
    ensures r == parse::<T>(bytes@),
//@ enditem
/// the same, as a list
#[verifier::external_body]
pub fn split_vec<'a, F: Fn(&u8) -> bool>(line: &'a [u8], f: F) -> (r: Vec<&'a [u8]>)
    requires forall|x: &u8| #[trigger] call_requires(f, (x,)),
    ensures forall|p: spec_fn(u8) -> bool| (forall|x: &u8, y: bool| #[trigger] call_ensures(f, (x,), y) ==> y == p(*x)) ==> views(r@) == #[trigger] parts(line@, p),
{ line.split(|x| f(x)).collect::<Vec<_>>() }

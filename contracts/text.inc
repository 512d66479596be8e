//@ file src/io/types.rs
//@ trait LineInfoResult
//@ header pub trait LineInfoResult<T, E>: Sized
//@ ghost
    spec fn res(self) -> std::result::Result<T, E>;
//@ fn simple
//@ sigreplace `Result<T, WithLineInfo<E>>` => `IOResult<T, E>` ; same type, Result is another alias here
//@ ret r
//@ spec
        ensures r.is_ok() == self.res().is_ok(), r.is_ok() ==> r->Ok_0 == self.res()->Ok_0, r.is_err() ==> cause(r->Err_0) == self.res()->Err_0,
//@ fn index
//@ sigreplace `Result<T, WithLineInfo<E>>` => `IOResult<T, E>` ; same type, Result is another alias here
//@ ret r
//@ spec
        ensures r.is_ok() == self.res().is_ok(), r.is_ok() ==> r->Ok_0 == self.res()->Ok_0, r.is_err() ==> cause(r->Err_0) == self.res()->Err_0,
//@ fn line
//@ sigreplace `Result<T, WithLineInfo<E>>` => `IOResult<T, E>` ; same type, Result is another alias here
//@ ret r
//@ spec
        ensures r.is_ok() == self.res().is_ok(), r.is_ok() ==> r->Ok_0 == self.res()->Ok_0, r.is_err() ==> cause(r->Err_0) == self.res()->Err_0,
//@ enditem
//@ enum WithLineInfo
//@ attrs
//@ enditem
/// the error without the line information
pub open spec fn cause<E>(e: WithLineInfo<E>) -> E { match e { WithLineInfo::None(x) => x, WithLineInfo::Index(i, x) => x, WithLineInfo::Line(i, l, x) => x } }
pub type IOResult<T, E> = std::result::Result<T, WithLineInfo<E>>;
/// `String::from_utf8_lossy(line).to_string()` (error message text, not specified)
#[verifier::external_body]
pub fn text_of(line: &[u8]) -> String { String::from_utf8_lossy(line).to_string() }
//@ impl LineInfoResult for Result
//@ header impl<T, E> LineInfoResult<T, E> for std::result::Result<T, E>
//@ ghost
    open spec fn res(self) -> std::result::Result<T, E> { self }
//@ fn simple
//@ replace `map_err(|e| $1)` => `map_err(|e: E| -> (o: WithLineInfo<E>) ensures cause(o) == e { $1 })` ; contract on the closure
//@ sigreplace `Result<T, WithLineInfo<E>>` => `IOResult<T, E>` ; same type, Result is another alias here
//@ fn index
//@ replace `map_err(|e| $1)` => `map_err(|e: E| -> (o: WithLineInfo<E>) ensures cause(o) == e { $1 })` ; contract on the closure
//@ sigreplace `Result<T, WithLineInfo<E>>` => `IOResult<T, E>` ; same type, Result is another alias here
//@ fn line
//@ replace `map_err(|e| $1)` => `map_err(|e: E| -> (o: WithLineInfo<E>) ensures cause(o) == e { $1 })` ; contract on the closure
//@ sigreplace `Result<T, WithLineInfo<E>>` => `IOResult<T, E>` ; same type, Result is another alias here
//@ replace `String::from_utf8_lossy(line).to_string()` => `text_of(line)` ; see text_of
//@ enditem
pub open spec fn filled(s: Seq<Seq<u8>>) -> Seq<Seq<u8>> { s.filter(|w: Seq<u8>| w.len() > 0) }
/// the non-empty words of a line
pub open spec fn tokens(line: Seq<u8>, d: u8) -> Seq<Seq<u8>> { filled(parts(line, |x: u8| x == d)) }
pub open spec fn words(line: Seq<u8>) -> Seq<Seq<u8>> { filled(parts(line, |x: u8| x == 32 || x == 9)) }
/// the words an iterator over parts still delivers
pub open spec fn wds(s: Seq<&[u8]>) -> Seq<Seq<u8>> { filled(views(s)) }
pub mod wd {
    use vstd::prelude::*;
    use super::*;
    pub proof fn filled_cons(a: Seq<u8>, s: Seq<Seq<u8>>) ensures filled(seq![a] + s) == (if a.len() > 0 { seq![a] + filled(s) } else { filled(s) }) {
        let f = |w: Seq<u8>| w.len() > 0;
        Seq::filter_distributes_over_add(seq![a], s, f);
        assert(seq![a].filter(f) == (if f(a) { seq![a] } else { Seq::empty() })) by { reveal_with_fuel(Seq::filter, 2); assert(seq![a].drop_last() == Seq::<Seq<u8>>::empty()); }
    }
    /// what SkipEmpty::next does to the words still to come
    pub broadcast proof fn next_word(s: Seq<&[u8]>)
        ensures ({ let t = #[trigger] from_nonempty(s); if t.len() == 0 { wds(s).len() == 0 && wds(t).len() == 0 } else { wds(s).len() > 0 && t[0]@ == wds(s)[0] && wds(t.skip(1)) == wds(s).skip(1) } }),
        decreases s.len()
    {
        reveal_with_fuel(Seq::filter, 1);
        if s.len() > 0 {
            let r = s.drop_first();
            assert(views(s) == seq![s[0]@] + views(r));
            filled_cons(s[0]@, views(r));
            if s[0]@.len() == 0 { next_word(r); } else { assert(s.skip(1) == r); assert((seq![s[0]@] + wds(r)).skip(1) == wds(r)); }
        }
    }
}
pub open spec fn f(w: Seq<u8>) -> Option<f64> { parse::<f64>(w) }
/// first of space, semicolon, comma and tab that separates at least n+1 parts
pub open spec fn separator(line: Seq<u8>, n: nat) -> Option<u8> { let enough = |x: u8| occurrences(line, x) >= n;
    if enough(32) { Some(32u8) } else if enough(59) { Some(59u8) } else if enough(44) { Some(44u8) } else if enough(9) { Some(9u8) } else { None } }
pub open spec fn line(s: Seq<u8>) -> Seq<u8> { trimmed(first_line(s)) }
pub open spec fn rest(s: Seq<u8>) -> Seq<u8> { s.skip(upto(s, 10)) }
pub proof fn rest_is_shorter(s: Seq<u8>) ensures s.len() > 0 ==> rest(s).len() < s.len() { upto_bounds(s, 10); }
/// `?` converts the error with From::from (assumed: the language)
pub broadcast axiom fn ax_question_mark<T, S: From<T>>(e: T, r: S) requires #[trigger] vstd::std_specs::control_flow::spec_from::<S, T>(e, r), <S as vstd::std_specs::convert::FromSpec<T>>::obeys_from_spec() ensures r == <S as vstd::std_specs::convert::FromSpec<T>>::from_spec(e);

// the elements a source yields (assumed to be the same list every time it is consumed)
pub uninterp spec fn elems<I: IntoIterator>(i: I) -> Seq<I::Item>;
#[verifier::prophetic]
pub open spec fn listing<I: IntoIterator>(source: I) -> bool {
    forall|it: I::IntoIter| #[trigger] call_ensures(I::into_iter, (source,), it) ==> it.obeys_prophetic_iter_laws() && it.remaining() == elems(source) && it.will_return_none()
}

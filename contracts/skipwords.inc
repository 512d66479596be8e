/// the words after the first n
pub open spec fn after(w: Seq<Seq<u8>>, n: int) -> Seq<Seq<u8>> { if n <= w.len() { w.skip(n) } else { Seq::empty() } }
//@ file src/io/utils.rs
//@ freefn skip_n
//@ sigreplace `<I>` => `<'a, I: Iterator<Item = &'a [u8]>>` ; the iterator below SkipEmpty, whose Iterator impl is inherent here
//@ sigreplace `i: &mut I` => `i: &mut SkipEmpty<'a, u8, I>` ; the only iterator it is used with
//@ spec
    requires IteratorSpec::obeys_prophetic_iter_laws(&old(i).iterator), IteratorSpec::will_return_none(&old(i).iterator),
    ensures IteratorSpec::obeys_prophetic_iter_laws(&final(i).iterator), IteratorSpec::will_return_none(&final(i).iterator), wds(IteratorSpec::remaining(&final(i).iterator)) == after(wds(IteratorSpec::remaining(&old(i).iterator)), n as int),
//@ start
    broadcast use wd::next_word;
    let ghost w = wds(IteratorSpec::remaining(&i.iterator));
//@ loop 0 iter it
//@ loop 0 inv
        invariant it.seq().len() == n, IteratorSpec::obeys_prophetic_iter_laws(&i.iterator), IteratorSpec::will_return_none(&i.iterator), wds(IteratorSpec::remaining(&i.iterator)) == after(w, it.index@),
//@ loop 0 start
        broadcast use wd::next_word;
//@ enditem

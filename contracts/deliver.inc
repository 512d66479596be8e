/// a described element, and what it describes
pub trait Described<P> { spec fn is(self, p: P) -> bool; }
/// the elements before, then those described by c
pub open spec fn appended<P, E: Described<P>>(before: Seq<P>, after: Seq<P>, c: Seq<E>) -> bool {
    after.len() == before.len() + c.len() && after.take(before.len() as int) == before && forall|i: int| 0 <= i < c.len() ==> c[i].is(#[trigger] after[before.len() + i])
}
/// of all, everything but left has been appended
#[verifier::opaque]
pub open spec fn delivered<P, E: Described<P>>(before: Seq<P>, now: Seq<P>, all: (Seq<E>, bool), left: (Seq<E>, bool)) -> bool {
    left.0.len() <= all.0.len() && left.1 == all.1 && left.0 == all.0.skip(all.0.len() - left.0.len()) && appended(before, now, all.0.take(all.0.len() - left.0.len()))
}
pub proof fn delivered_start<P, E: Described<P>>(before: Seq<P>, all: (Seq<E>, bool)) ensures delivered(before, before, all, all) { reveal(delivered); assert(all.0.skip(0) == all.0); }
pub proof fn delivered_end<P, E: Described<P>>(before: Seq<P>, now: Seq<P>, all: (Seq<E>, bool), left: (Seq<E>, bool))
    requires delivered(before, now, all, left), left.0.len() == 0 ensures appended(before, now, all.0), left.1 == all.1
{ reveal(delivered); assert(all.0.take(all.0.len() as int) == all.0); }
pub proof fn delivered_step<P, E: Described<P>>(before: Seq<P>, now: Seq<P>, p: P, all: (Seq<E>, bool), left: (Seq<E>, bool), next: (Seq<E>, bool))
    requires delivered(before, now, all, left), left.0.len() > 0, left.0[0].is(p), next == (left.0.skip(1), left.1),
    ensures delivered(before, now.push(p), all, next), next.0.len() < left.0.len(),
{
    reveal(delivered);
    let n = all.0.len() - left.0.len();
    let a = all.0;
    assert(a.take(n + 1) == a.take(n).push(a[n]));
    assert(next.0 == a.skip(n + 1));
    assert(left.0[0] == a[n]);
    assert(now.push(p).take(before.len() as int) == before) by { assert(now.push(p).take(before.len() as int) == now.take(before.len() as int)); }
    assert forall|i: int| 0 <= i < n + 1 implies a.take(n + 1)[i].is(#[trigger] now.push(p)[before.len() + i]) by { if i < n { assert(a.take(n)[i] == a[i]); } }
}

#![allow(warnings)]
use vstd::prelude::*;
use std::marker::PhantomData;
verus! {
broadcast use vstd::seq_lib::group_seq_properties;
//@include base.inc
//@include ic_trait.inc
//@include ic_iter.inc
//@include mesh_trait.inc
//@include mesh_edit.inc

pub assume_specification<T>[ Option::<Option<T>>::flatten ](o: Option<Option<T>>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => x, None => None });

pub open spec fn nxt(e: int) -> int { if e % 3 == 2 { e - 2 } else { e + 1 } }
pub open spec fn prv(e: int) -> int { if e % 3 == 0 { e + 2 } else { e - 1 } }
/// the directed edges of the first n faces: edge 3f+k has corner k of face f as tail
pub open spec fn tails_of<T, M: IsMesh<T, Face3>>(m: M, n: nat) -> Seq<usize> { Seq::new(3 * n, |e: int| M::corner(m.unit(e / 3), e % 3) as usize) }
/// ascending list of the edges below k with tail v
pub open spec fn orig(t: Seq<usize>, v: int, k: nat) -> Seq<usize> decreases k {
    if k == 0 { Seq::empty() } else {
        let p = orig(t, v, (k - 1) as nat);
        if t[k - 1] == v { p.push((k - 1) as usize) } else { p }
    }
}
pub proof fn orig_prefix(t: Seq<usize>, u: Seq<usize>, v: int, k: nat)
    requires k <= t.len(), k <= u.len(), forall|i: int| 0 <= i < k ==> t[i] == u[i],
    ensures orig(t, v, k) == orig(u, v, k),
    decreases k
{ if k > 0 { orig_prefix(t, u, v, (k - 1) as nat); } }
pub open spec fn corner_of(t: Face3, k: int) -> nat { (if k == 0 { t.a.0 } else if k == 1 { t.b.0 } else { t.c.0 }) as nat }
/// the corners of a Face3 are its three ids
pub open spec fn std_corners<T, M: IsMesh<T, Face3>>() -> bool {
    forall|t: Face3, k: int| #[trigger] M::corner(t, k) == corner_of(t, k)
}
/// exactly the edges with tail v, each once
pub proof fn orig_exact(t: Seq<usize>, v: int, k: nat)
    requires k <= t.len(), k <= usize::MAX,
    ensures
        forall|j: int| 0 <= j < orig(t, v, k).len() ==> #[trigger] orig(t, v, k)[j] < k && t[orig(t, v, k)[j] as int] == v,
        forall|e: int| 0 <= e < k && t[e] == v ==> exists|j: int| 0 <= j < orig(t, v, k).len() && #[trigger] orig(t, v, k)[j] == e,
        forall|i: int, j: int| 0 <= i < j < orig(t, v, k).len() ==> #[trigger] orig(t, v, k)[i] < #[trigger] orig(t, v, k)[j],
    decreases k
{
    if k > 0 {
        let p = orig(t, v, (k - 1) as nat);
        let q = orig(t, v, k);
        orig_exact(t, v, (k - 1) as nat);
        assert forall|e: int| 0 <= e < k && t[e] == v implies exists|j: int| 0 <= j < q.len() && #[trigger] q[j] == e by {
            if e == k - 1 { assert(q[q.len() - 1] == e); } else {
                let j = choose|j: int| 0 <= j < p.len() && #[trigger] p[j] == e;
                assert(q[j] == e);
            }
        }
    }
}
/// no edges start at a vertex no tail mentions
pub proof fn orig_none(t: Seq<usize>, v: int, k: nat)
    requires k <= t.len(), forall|i: int| 0 <= i < k ==> #[trigger] t[i] < v,
    ensures orig(t, v, k) == Seq::<usize>::empty(),
    decreases k
{ if k > 0 { assert(t[k - 1] < v); orig_none(t, v, (k - 1) as nat); } }
pub open spec fn eids(s: Seq<usize>) -> Seq<EId> { Seq::new(s.len(), |i: int| EId(s[i])) }
pub open spec fn is_twin(t: Seq<usize>, a: int, b: int) -> bool { t[b] == t[nxt(a)] && t[nxt(b)] == t[a] }
//@ file src/half_edge.rs
//@ struct HalfEdge
//@ enditem
impl<IC: IsIndexContainer> HalfEdge<IC> {
    pub open spec fn t(&self) -> Seq<usize> { self.tails.iv() }
    pub open spec fn n(&self) -> nat { self.t().len() }
    pub open spec fn shape(&self) -> bool {
        &&& self.n() % 3 == 0 && self.twins@.len() == self.n()
        &&& forall|e: int| 0 <= e < self.n() ==> #[trigger] self.t()[e] < self.vertices_start_edges@.len()
        &&& forall|v: int| 0 <= v < self.vertices_start_edges@.len() ==> #[trigger] self.vertices_start_edges@[v].iv() == orig(self.t(), v, self.n())
    }
    pub open spec fn twin_ok(&self, i: int) -> bool {
        match self.twins@[i] {
            Some(b) => b.0 < self.n() && is_twin(self.t(), i, b.0 as int),
            None => forall|b: int| 0 <= b < self.n() ==> !is_twin(self.t(), i, b),
        }
    }
    pub open spec fn wf(&self) -> bool { self.shape() && forall|i: int| 0 <= i < self.n() ==> #[trigger] self.twin_ok(i) }
    /// mirrors the mesh
    pub open spec fn of<T, M: IsMesh<T, Face3>>(&self, m: M) -> bool {
        self.wf() && self.t() == tails_of::<T, M>(m, m.nf()) && self.vertices_start_edges@.len() == m.nv()
    }
}

/// supertrait Clone of IsIndexContainer: a clone holds the same list
#[verifier::external_body]
pub proof fn axiom_iv_clone<IC: IsIndexContainer>(a: IC, b: IC)
    requires cloned(a, b)
    ensures a.iv() == b.iv(),
{ }
pub open spec fn others_kept<IC: IsIndexContainer>(a: Seq<IC>, b: Seq<IC>, i: int) -> bool {
    &&& b.len() == (if i < a.len() { a.len() } else { (i + 1) as nat })
    &&& forall|v: int| 0 <= v < b.len() && v != i ==> #[trigger] b[v].iv() == (if v < a.len() { a[v].iv() } else { Seq::empty() })
}
//@ freefn safe_append_at
//@ header pub fn safe_append_at<IC>(vec: &mut Vec<IC>, capacity: usize, support: usize, i: usize, val: usize) where IC: IsIndexContainer + Clone
//@ spec
    requires IC::admits(val), i < usize::MAX,
    ensures
        others_kept(old(vec)@, final(vec)@, i as int),
        final(vec)@[i as int].iv() == (if i < old(vec)@.len() { old(vec)@[i as int].iv() } else { Seq::empty() }).push(val),
//@ before `vec[i].push(val);`
    proof {
        assert forall|v: int| old(vec)@.len() <= v < vec@.len() implies #[trigger] vec@[v].iv() == Seq::<usize>::empty() by {
            axiom_iv_clone_all::<IC>();
        }
    }
//@ enditem
pub proof fn axiom_iv_clone_all<IC: IsIndexContainer>()
    ensures forall|a: IC, b: IC| #[trigger] cloned(a, b) ==> a.iv() == b.iv(),
{
    assert forall|a: IC, b: IC| #[trigger] cloned(a, b) implies a.iv() == b.iv() by { axiom_iv_clone(a, b); }
}
//@ impl HalfEdge
//@ header impl<IC> HalfEdge<IC> where IC: IsIndexContainer + Clone
//@ fn new
//@ ret r
//@ spec
        requires mesh.mwf(), 3 * mesh.nf() <= usize::MAX,
            forall|f: int, k: int| 0 <= f < mesh.nf() && 0 <= k < 3 ==> #[trigger] M::corner(mesh.unit(f), k) < mesh.nv(),
            forall|x: usize| #![auto] x < mesh.nv() || x < 3 * mesh.nf() ==> IC::admits(x),
            std_corners::<T, M>(),
        ensures r.of::<T, M>(*mesh),
//@ loop 0 inv
    invariant std_corners::<T, M>(), mesh.mwf(), n_vertices == mesh.nv(), n_faces == mesh.nf(), n_edges == 3 * n_faces, tails.iv() == tails_of::<T, M>(*mesh, i as nat),
        3 * mesh.nf() <= usize::MAX,
        forall|f: int, k: int| 0 <= f < mesh.nf() && 0 <= k < 3 ==> #[trigger] M::corner(mesh.unit(f), k) < mesh.nv(),
        forall|x: usize| #![auto] x < mesh.nv() || x < 3 * mesh.nf() ==> IC::admits(x),
        vertices_start_edges@.len() == n_vertices,
        forall|v: int| 0 <= v < n_vertices ==> #[trigger] vertices_start_edges@[v].iv() == orig(tails.iv(), v, tails.iv().len()),
//@ loop 0 before
    assert(tails.iv() =~= tails_of::<T, M>(*mesh, 0));
    proof { axiom_iv_clone_all::<IC>(); }
//@ loop 0 start
    let ghost v0 = vertices_start_edges@;
    let ghost tl = tails.iv();
    proof {
        let u = mesh.unit(i as int);
        assert(M::corner(u, 0) < mesh.nv() && M::corner(u, 1) < mesh.nv() && M::corner(u, 2) < mesh.nv());
    }
//@ loop 0 end
    proof {
        let u = mesh.unit(i as int);
        let t = tails.iv();
        assert(t =~= tails_of::<T, M>(*mesh, (i + 1) as nat));
        assert forall|v: int| 0 <= v < n_vertices implies #[trigger] vertices_start_edges@[v].iv() == orig(t, v, t.len()) by {
            let n = tl.len();
            orig_prefix(t, tl, v, n);
            assert(v0[v].iv() == orig(tl, v, n));
            assert(orig(t, v, n + 1) == (if t[n as int] == v { orig(t, v, n).push(n as usize) } else { orig(t, v, n) }));
            assert(orig(t, v, n + 2) == (if t[n as int + 1] == v { orig(t, v, n + 1).push((n + 1) as usize) } else { orig(t, v, n + 1) }));
            assert(orig(t, v, n + 3) == (if t[n as int + 2] == v { orig(t, v, n + 2).push((n + 2) as usize) } else { orig(t, v, n + 2) }));
        }
    }
//@ loop 1 inv
    invariant result.shape(), result.t() == t0, t0 == tails_of::<T, M>(*mesh, mesh.nf()), result.vertices_start_edges@.len() == mesh.nv(),
       result.n() <= usize::MAX,
       forall|j: int| 0 <= j < i ==> #[trigger] result.twin_ok(j),
       forall|j: int| i <= j < result.n() ==> (#[trigger] result.twins@[j]) is None,
//@ loop 1 before
    proof { result.tails.iv_len(); }
    let ghost t0 = result.t();
//@ loop 1 start
    let ghost res0 = result;
    proof { orig_exact(t0, t0[nxt(i as int)] as int, result.n()); }
    let ghost cand = orig(t0, t0[nxt(i as int)] as int, result.n());
//@ loop 1 end
    proof {
        assert forall|j: int| 0 <= j < i + 1 implies #[trigger] result.twin_ok(j) by {
            if j < i { assert(res0.twin_ok(j)); }
        }
    }
//@ loop 2 iter it
//@ loop 2 inv
    invariant result.shape(), result.t() == t0, i < result.n(), result.n() <= usize::MAX, cache@ == eids(cand),
        result.vertices_start_edges@ == res0.vertices_start_edges@, result.twins@.len() == res0.twins@.len(),
        cand == orig(t0, t0[nxt(i as int)] as int, result.n()),
        forall|j: int| 0 <= j < cand.len() ==> (#[trigger] cand[j]) < result.n() && t0[cand[j] as int] == t0[nxt(i as int)],
        it.seq().len() == cache@.len(), forall|k: int| 0 <= k < cache@.len() ==> *it.seq()[k] == cache@[k],
        forall|j: int| 0 <= j < result.n() && j != i ==> #[trigger] result.twins@[j] == res0.twins@[j],
        match result.twins@[i as int] {
            Some(b) => b.0 < result.n() && is_twin(t0, i as int, b.0 as int),
            None => forall|k: int| 0 <= k < it.index@ ==> !is_twin(t0, i as int, (#[trigger] cand[k]) as int),
        },
//@ loop 2 start
    assert((*originating_id) == EId(cand[it.index@]));
//@ fn tail
//@ ret r
//@ spec
        ensures r == (if id.0 < self.n() { Some(VId(self.t()[id.0 as int])) } else { None }),
//@ fn face
//@ ret r
//@ spec
        ensures r == (if id.0 < self.n() { Some(FId((id.0 / 3) as usize)) } else { None }),
//@ fn twin
//@ ret r
//@ spec
        requires self.twins@.len() == self.n(),
        ensures r == (if id.0 < self.n() { self.twins@[id.0 as int] } else { None }),
//@ fn next
//@ ret r
//@ spec
        requires self.n() % 3 == 0,
        ensures r == (if id.0 < self.n() { Some(EId(nxt(id.0 as int) as usize)) } else { None }), id.0 < self.n() ==> nxt(id.0 as int) < self.n(),
//@ start
        proof { self.tails.iv_len(); }
//@ fn prev
//@ ret r
//@ spec
        requires self.n() % 3 == 0,
        ensures r == (if id.0 < self.n() { Some(EId(prv(id.0 as int) as usize)) } else { None }), id.0 < self.n() ==> prv(id.0 as int) < self.n(),
//@ start
        proof { self.tails.iv_len(); }
//@ fn edges_originating
//@ ret r
//@ spec
        requires self.shape(),
        ensures r.is_ok() == (id.0 < self.vertices_start_edges@.len()),
            r.is_ok() ==> final(result)@ == old(result)@ + eids(orig(self.t(), id.0 as int, self.n())),
            r.is_err() ==> final(result)@ == old(result)@,
//@ replace `self.vertices_start_edges[id.0].iter()` => `IsIndexContainerIterator::new(&self.vertices_start_edges[id.0])` ; iter() of every container is this constructor (checked natively)
//@ loop 0 inv
    invariant_except_break it__0.parent == self.vertices_start_edges@[id.0 as int], it__0.max == it__0.parent.iv().len(), it__0.index <= it__0.max,
        result@ == r0 + eids(s.take(it__0.index as int)),
    invariant s == self.vertices_start_edges@[id.0 as int].iv(),
    ensures result@ == r0 + eids(s)
    decreases it__0.max - it__0.index
//@ loop 0 before
    let ghost r0 = result@;
    let ghost s = orig(self.t(), id.0 as int, self.n());
//@ loop 0 start
    assert(it__0.index > 0);
//@ fn edges_ending
//@ ret r
//@ spec
        requires self.shape(),
        ensures r.is_ok() == (id.0 < self.vertices_start_edges@.len()),
            r.is_ok() ==> final(result)@ == old(result)@ + pvs(orig(self.t(), id.0 as int, self.n())),
            r.is_err() ==> final(result)@ == old(result)@,
//@ loop 0 over cache.iter()
//@ loop 0 iter it
//@ loop 0 inv
    invariant self.shape(), id.0 < self.vertices_start_edges@.len(), cache@ == eids(s), self.n() <= usize::MAX, s == orig(self.t(), id0.0 as int, self.n()), forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]) < self.n(),
        it.seq().len() == cache@.len(), forall|i: int| 0 <= i < cache@.len() ==> *it.seq()[i] == cache@[i],
        result@ == r0 + pvs(s).take(it.index@),
//@ loop 0 before
    let ghost r0 = result@;
    let ghost s = orig(self.t(), id.0 as int, self.n());
    let ghost id0 = id;
    proof { self.tails.iv_len(); orig_exact(self.t(), id.0 as int, self.n()); }
//@ loop 0 start
    assert(pvs(s).take(it.index@ + 1) =~= pvs(s).take(it.index@).push(pvs(s)[it.index@]));
//@ loop 0 after
    assert(pvs(s).take(s.len() as int) =~= pvs(s));
//@ fn edges_all
//@ ret r
//@ spec
        requires self.shape(),
        ensures r.is_ok() == (id.0 < self.vertices_start_edges@.len()),
            r.is_ok() ==> final(result)@ == old(result)@ + around(orig(self.t(), id.0 as int, self.n())),
            r.is_err() ==> final(result)@ == old(result)@,
//@ loop 0 over cache.iter()
//@ loop 0 iter it
//@ loop 0 inv
    invariant self.shape(), id.0 < self.vertices_start_edges@.len(), cache@ == eids(s), self.n() <= usize::MAX, s == orig(self.t(), id0.0 as int, self.n()), forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]) < self.n(),
        it.seq().len() == cache@.len(), forall|i: int| 0 <= i < cache@.len() ==> *it.seq()[i] == cache@[i],
        result@ == r0 + around(s.take(it.index@)),
//@ loop 0 before
    let ghost r0 = result@;
    let ghost s = orig(self.t(), id.0 as int, self.n());
    let ghost id0 = id;
    proof { self.tails.iv_len(); orig_exact(self.t(), id.0 as int, self.n()); }
//@ loop 0 start
    assert(s.take(it.index@ + 1).drop_last() =~= s.take(it.index@));
//@ loop 0 after
    assert(s.take(s.len() as int) =~= s);
//@ fn faces
//@ ret r
//@ spec
        requires self.shape(),
        ensures r.is_ok() == (id.0 < self.vertices_start_edges@.len()),
            r.is_ok() ==> final(result)@ == old(result)@ + ofs(orig(self.t(), id.0 as int, self.n())),
            r.is_err() ==> final(result)@ == old(result)@,
//@ loop 0 over cache.iter()
//@ loop 0 iter it
//@ loop 0 inv
    invariant self.shape(), id.0 < self.vertices_start_edges@.len(), cache@ == eids(s), self.n() <= usize::MAX, s == orig(self.t(), id0.0 as int, self.n()), forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]) < self.n(),
        it.seq().len() == cache@.len(), forall|i: int| 0 <= i < cache@.len() ==> *it.seq()[i] == cache@[i],
        result@ == r0 + ofs(s).take(it.index@),
//@ loop 0 before
    let ghost r0 = result@;
    let ghost s = orig(self.t(), id.0 as int, self.n());
    let ghost id0 = id;
    proof { self.tails.iv_len(); orig_exact(self.t(), id.0 as int, self.n()); }
//@ loop 0 start
    assert(ofs(s).take(it.index@ + 1) =~= ofs(s).take(it.index@).push(ofs(s)[it.index@]));
//@ loop 0 after
    assert(ofs(s).take(s.len() as int) =~= ofs(s));
//@ fn ensure_vertices
//@ spec
        requires old(self).shape(),
        ensures final(self).tails == old(self).tails, final(self).twins == old(self).twins, final(self).shape(),
            final(self).vertices_start_edges@.len() == (if n > old(self).vertices_start_edges@.len() { n as nat } else { old(self).vertices_start_edges@.len() }),
//@ loop 0 inv
        invariant self.tails == old(self).tails, self.twins == old(self).twins, self.shape(), old(self).vertices_start_edges@.len() <= self.vertices_start_edges@.len(),
            self.vertices_start_edges@.len() <= n || self.vertices_start_edges@.len() == old(self).vertices_start_edges@.len(),
        decreases n - self.vertices_start_edges@.len(),
//@ loop 0 start
            let ghost was = *self;
            proof { orig_none(self.t(), self.vertices_start_edges@.len() as int, self.n()); }
//@ loop 0 end
            proof {
                assert(self.t() == was.t());
                assert forall|e: int| 0 <= e < self.n() implies #[trigger] self.t()[e] < self.vertices_start_edges@.len() by { assert(was.t()[e] < was.vertices_start_edges@.len()); }
                assert forall|v: int| 0 <= v < self.vertices_start_edges@.len() implies #[trigger] self.vertices_start_edges@[v].iv() == orig(self.t(), v, self.n()) by { if v < was.vertices_start_edges@.len() { assert(was.vertices_start_edges@[v].iv() == orig(was.t(), v, was.n())); } }
            }
//@ fn first_in_face
//@ ret r
//@ spec
        ensures r == (id.0 % 3 == 0),
//@ fn last_in_face
//@ ret r
//@ spec
        ensures r == (id.0 % 3 == 2),
//@ fn ensure_edge_id
//@ ret r
//@ spec
        ensures r.is_ok() == (id.0 < self.n()),
//@ fn ensure_vertex_id
//@ ret r
//@ spec
        ensures r.is_ok() == (id.0 < self.vertices_start_edges@.len()),
//@ enditem
pub open spec fn around(s: Seq<usize>) -> Seq<EId> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { around(s.drop_last()).push(EId(s.last())).push(EId(prv(s.last() as int) as usize)) }
}

/// the edges around the mesh's own faces: tails of the directed edges
pub open spec fn te<V, M: IsMesh<V, Face3>>(m: M) -> Seq<usize> { tails_of::<V, M>(m, m.nf()) }
pub open spec fn pvs(s: Seq<usize>) -> Seq<EId> { s.map_values(|e: usize| EId(prv(e as int) as usize)) }
pub open spec fn ofs(s: Seq<usize>) -> Seq<FId> { s.map_values(|e: usize| FId((e / 3) as usize)) }
pub open spec fn twin_face(o: Option<EId>) -> Seq<FId> { match o { Some(t) => seq![FId((t.0 / 3) as usize)], None => Seq::empty() } }
/// sort + dedup of the standard library: same elements, strictly ascending (assumed)
#[verifier::external_body]
pub fn sort_dedup(v: &mut Vec<FId>)
    ensures
        final(v)@.to_set() == old(v)@.to_set(),
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> final(v)@[i].0 < final(v)@[j].0,
{ v.sort_by_key(|x| x.0); v.dedup_by_key(|x| x.0); }

//@ file src/is_searchable_mesh.rs
//@ trait IsSearchableMesh
//@ header pub trait IsSearchableMesh<V, TU>: IsMesh<V, Face3>
//@ ghost
    spec fn swf(&self) -> bool;
    spec fn tw(&self, e: int) -> Option<EId>;
    proof fn swf_facts(&self)
        requires self.swf()
        ensures self.mwf(), 3 * self.nf() <= usize::MAX, std_corners::<V, Self>(),
            /// every twin runs between the same vertices in the opposite direction and is found if there is one
            forall|e: int| 0 <= e < 3 * self.nf() ==> match #[trigger] self.tw(e) {
                Some(b) => b.0 < 3 * self.nf() && is_twin(te::<V, Self>(*self), e, b.0 as int),
                None => forall|b: int| 0 <= b < 3 * self.nf() ==> !is_twin(te::<V, Self>(*self), e, b),
            };
//@ fn edges_of_face
//@ ret r
//@ spec
        requires self.swf(),
        ensures r.is_some() == (faceid.0 < self.nf()), r.is_some() ==> r.unwrap() == (EId((3 * faceid.0) as usize), EId((3 * faceid.0 + 1) as usize), EId((3 * faceid.0 + 2) as usize)),
//@ fn edges_originating_from_vertex
//@ ret r
//@ spec
        requires self.swf(),
        ensures r.is_ok() == (vertexid.0 < self.nv()),
            r.is_ok() ==> final(result)@ == old(result)@ + eids(orig(te::<V, Self>(*self), vertexid.0 as int, 3 * self.nf())),
            r.is_err() ==> final(result)@ == old(result)@,
//@ fn edges_ending_at_vertex
//@ ret r
//@ spec
        requires self.swf(),
        ensures r.is_ok() == (vertexid.0 < self.nv()),
            r.is_ok() ==> final(result)@ == old(result)@ + pvs(orig(te::<V, Self>(*self), vertexid.0 as int, 3 * self.nf())),
            r.is_err() ==> final(result)@ == old(result)@,
//@ fn edges_of_vertex
//@ ret r
//@ spec
        requires self.swf(),
        ensures r.is_ok() == (vertexid.0 < self.nv()),
            r.is_ok() ==> final(result)@ == old(result)@ + around(orig(te::<V, Self>(*self), vertexid.0 as int, 3 * self.nf())),
            r.is_err() ==> final(result)@ == old(result)@,
//@ fn edge_tail
//@ ret r
//@ spec
        requires self.swf(),
        ensures r == (if edgeid.0 < 3 * self.nf() { Some(VId(te::<V, Self>(*self)[edgeid.0 as int])) } else { None }),
//@ fn edge_head
//@ ret r
//@ spec
        requires self.swf(),
        ensures r == (if edgeid.0 < 3 * self.nf() { Some(VId(te::<V, Self>(*self)[nxt(edgeid.0 as int)])) } else { None }),
//@ fn edge_next
//@ ret r
//@ spec
        requires self.swf(),
        ensures r == (if edgeid.0 < 3 * self.nf() { Some(EId(nxt(edgeid.0 as int) as usize)) } else { None }),
//@ fn edge_prev
//@ ret r
//@ spec
        requires self.swf(),
        ensures r == (if edgeid.0 < 3 * self.nf() { Some(EId(prv(edgeid.0 as int) as usize)) } else { None }),
//@ fn edge_twin
//@ ret r
//@ spec
        requires self.swf(),
        ensures r == (if edgeid.0 < 3 * self.nf() { self.tw(edgeid.0 as int) } else { None }),
//@ fn edge_face
//@ ret r
//@ spec
        requires self.swf(),
        ensures r == (if edgeid.0 < 3 * self.nf() { Some(FId((edgeid.0 / 3) as usize)) } else { None }),
//@ fn num_edges
//@ ret r
//@ spec
        requires self.swf(),
        ensures r == 3 * self.nf(),
//@ start
        proof { self.swf_facts(); }
//@ fn faces_of_vertex
//@ ret r
//@ spec
        requires self.swf(),
        ensures r.is_ok() == (vertexid.0 < self.nv()),
            r.is_ok() ==> final(result)@ == old(result)@ + ofs(orig(te::<V, Self>(*self), vertexid.0 as int, 3 * self.nf())),
            r.is_err() ==> final(result)@ == old(result)@,
//@ loop 0 over cache.iter()
//@ loop 0 iter it
//@ loop 0 inv
    invariant self.swf(), vertexid.0 < self.nv(), cache@ == eids(s), s == orig(te::<V, Self>(*self), vertexid.0 as int, 3 * self.nf()),
        it.seq().len() == cache@.len(), forall|i: int| 0 <= i < cache@.len() ==> *it.seq()[i] == cache@[i],
        forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] < 3 * self.nf(),
        result@ == r0 + ofs(s).take(it.index@),
//@ loop 0 before
    let ghost r0 = result@;
    let ghost s = orig(te::<V, Self>(*self), vertexid.0 as int, 3 * self.nf());
    proof { self.swf_facts(); orig_exact(te::<V, Self>(*self), vertexid.0 as int, 3 * self.nf()); }
//@ loop 0 start
    assert(ofs(s).take(it.index@ + 1) =~= ofs(s).take(it.index@).push(ofs(s)[it.index@]));
//@ loop 0 after
    assert(ofs(s).take(s.len() as int) =~= ofs(s));
//@ fn face_edge_neighbours
//@ ret r
//@ spec
        requires self.swf(),
        ensures r.is_ok() == (faceid.0 < self.nf()),
            r.is_ok() ==> final(result)@ == old(result)@ + twin_face(self.tw(3 * faceid.0)) + twin_face(self.tw(3 * faceid.0 + 1)) + twin_face(self.tw(3 * faceid.0 + 2)),
            r.is_err() ==> final(result)@ == old(result)@,
//@ start
        proof { self.swf_facts(); }
        let ghost r0 = result@;
//@ tail
        proof {
            let f = faceid.0 as int;
            assert(result@ =~= r0 + twin_face(self.tw(3 * f)) + twin_face(self.tw(3 * f + 1)) + twin_face(self.tw(3 * f + 2)));
        }
//@ fn face_vertex_neighbours
//@ ret r
//@ spec
        requires self.swf(), forall|k: int| 0 <= k < 3 && faceid.0 < self.nf() ==> #[trigger] Self::corner(self.unit(faceid.0 as int), k) < self.nv(),
        ensures r.is_ok() == (faceid.0 < self.nf()),
            r.is_err() ==> final(result)@ == old(result)@,
            r.is_ok() ==> final(result)@.to_set() == (old(result)@ + ofs(orig(te::<V, Self>(*self), self.unit(faceid.0 as int).a.0 as int, 3 * self.nf()))
                + ofs(orig(te::<V, Self>(*self), self.unit(faceid.0 as int).b.0 as int, 3 * self.nf()))
                + ofs(orig(te::<V, Self>(*self), self.unit(faceid.0 as int).c.0 as int, 3 * self.nf()))).to_set(),
            r.is_ok() ==> forall|i: int, j: int| 0 <= i < j < final(result)@.len() ==> final(result)@[i].0 < final(result)@[j].0,
//@ replace `result.sort();` => `` ; together with dedup: one assumed standard library contract
//@ replace `result.dedup();` => `sort_dedup(result);` ; as above
//@ start
        proof {
            self.swf_facts();
            if faceid.0 < self.nf() {
                let u = self.unit(faceid.0 as int);
                assert(Self::corner(u, 0) < self.nv() && Self::corner(u, 1) < self.nv() && Self::corner(u, 2) < self.nv());
            }
        }
//@ enditem
//@ file src/searchable_mesh.rs
//@ struct SearchableMesh
//@ enditem
//@ impl SearchableMesh
//@ header impl<M, T, IC> SearchableMesh<M, T, IC> where M: IsMesh<T, Face3>, IC: IsIndexContainer
//@ fn new
//@ ret r
//@ spec
        requires mesh.mwf(), 3 * mesh.nf() <= usize::MAX,
            forall|f: int, k: int| 0 <= f < mesh.nf() && 0 <= k < 3 ==> #[trigger] M::corner(mesh.unit(f), k) < mesh.nv(),
            forall|x: usize| #![auto] x < mesh.nv() || x < 3 * mesh.nf() ==> IC::admits(x),
            std_corners::<T, M>(),
        ensures r.swf(), r.mesh == mesh,
//@ tailwrap
        proof { assert(te::<T, M>(mesh) =~= te::<T, Self>(ret__)); }
//@ fn ensure_face_id
//@ ret r
//@ spec
        requires self.mesh.mwf(),
        ensures r.is_ok() == (id.0 < self.mesh.nf()),
//@ fn mesh
//@ ret r
//@ spec
        ensures *r == self.mesh,
//@ enditem
//@ impl IsMesh for SearchableMesh
//@ header impl<M, T, IC> IsMesh<T, Face3> for SearchableMesh<M, T, IC> where M: IsMesh<T, Face3>, IC: IsIndexContainer
//@ ghost
    open spec fn mwf(&self) -> bool { self.mesh.mwf() }
    open spec fn nf(&self) -> nat { self.mesh.nf() }
    open spec fn nv(&self) -> nat { self.mesh.nv() }
    open spec fn unit(&self, i: int) -> Face3 { self.mesh.unit(i) }
    open spec fn vert(&self, i: int, x: T) -> bool { self.mesh.vert(i, x) }
    open spec fn corner(t: Face3, k: int) -> nat { M::corner(t, k) }
//@ fn num_faces
//@ fn num_vertices
//@ fn face_vertex_ids
//@ fn face_vertices
//@ fn vertex
//@ enditem
//@ impl IsSearchableMesh for SearchableMesh
//@ header impl<M, T, IC> IsSearchableMesh<T, Face3> for SearchableMesh<M, T, IC> where M: IsMesh<T, Face3>, IC: IsIndexContainer
//@ ghost
    open spec fn swf(&self) -> bool {
        self.mesh.mwf() && 3 * self.mesh.nf() <= usize::MAX && std_corners::<T, M>() && self.he.of::<T, M>(self.mesh) && te::<T, M>(self.mesh) == te::<T, Self>(*self)
    }
    open spec fn tw(&self, e: int) -> Option<EId> { self.he.twins@[e] }
    proof fn swf_facts(&self) {
        assert forall|t: Face3, k: int| #[trigger] <Self as IsMesh<T, Face3>>::corner(t, k) == corner_of(t, k) by { assert(M::corner(t, k) == corner_of(t, k)); }
        assert forall|e: int| 0 <= e < 3 * self.nf() implies match #[trigger] self.tw(e) {
                Some(b) => b.0 < 3 * self.nf() && is_twin(te::<T, Self>(*self), e, b.0 as int),
                None => forall|b: int| 0 <= b < 3 * self.nf() ==> !is_twin(te::<T, Self>(*self), e, b),
            } by { assert(self.he.twin_ok(e)); }
    }
//@ fn num_edges
//@ fn edges_of_face
//@ fn edges_originating_from_vertex
//@ fn edges_ending_at_vertex
//@ fn edges_of_vertex
//@ fn edge_tail
//@ fn edge_head
//@ replace `self.he.next(edgeid).and_then(|next| self.he.tail(next))` => `match self.he.next(edgeid) { Some(next) => self.he.tail(next), None => None }` ; Option::and_then with a capturing closure
//@ fn edge_next
//@ fn edge_prev
//@ fn edge_twin
//@ fn edge_face
//@ enditem
/// the same faces have the same edges
pub proof fn same_edges<T, M: IsMesh<T, Face3>>(a: M, b: M)
    requires a.nf() == b.nf(), faces_kept::<T, Face3, M>(a, b),
    ensures te::<T, M>(a) == te::<T, M>(b),
{
    kept_unit::<T, Face3, M>(a, b);
    assert(te::<T, M>(a) =~= te::<T, M>(b)) by {
        assert forall|e: int| 0 <= e < 3 * a.nf() implies te::<T, M>(a)[e] == te::<T, M>(b)[e] by { assert(a.unit(e / 3) == b.unit(e / 3)); }
    }
}
/// a half edge structure with the same edges and twins mirrors the mesh with the same faces and as many vertices
pub proof fn kept_searchable<T, M: IsMesh<T, Face3>, IC: IsIndexContainer>(a: SearchableMesh<M, T, IC>, b: SearchableMesh<M, T, IC>)
    requires a.swf(), b.mesh.mwf(), a.mesh.nf() == b.mesh.nf(), faces_kept::<T, Face3, M>(a.mesh, b.mesh),
        b.he.tails == a.he.tails, b.he.twins == a.he.twins, b.he.shape(), b.he.vertices_start_edges@.len() == b.mesh.nv(),
    ensures b.swf(),
{
    same_edges::<T, M>(a.mesh, b.mesh);
    assert(te::<T, M>(b.mesh) =~= te::<T, SearchableMesh<M, T, IC>>(b));
    assert forall|i: int| 0 <= i < b.he.n() implies #[trigger] b.he.twin_ok(i) by { assert(a.he.twin_ok(i)); }
}
//@ impl IsVertexEditableMesh for SearchableMesh
//@ header impl<M, T, IC> IsVertexEditableMesh<T, Face3> for SearchableMesh<M, T, IC> where M: IsMesh<T, Face3> + IsVertexEditableMesh<T, Face3>, IC: IsIndexContainer
//@ ghost
    /// the half edges mirror the mesh before and after every change
    open spec fn ewf(&self) -> bool { self.mesh.ewf() && self.swf() }
    open spec fn vrep(x: T, y: T) -> bool { M::vrep(x, y) }
//@ fn add_vertex
//@ tailwrap
        proof { kept_searchable(*old(self), *self); }
//@ fn change_vertex
//@ tailwrap
        proof { kept_searchable(*old(self), *self); }
//@ fn reserve_vertices
//@ tailwrap
        proof { kept_searchable(*old(self), *self); }
//@ enditem
} // verus!
fn main() {}

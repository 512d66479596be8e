#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use std::collections::HashMap;
use std::ops::*;
use std::hash::Hash;
use vstd::std_specs::iter::*;
verus! {
//@include float.inc
broadcast use {vstd::seq_lib::group_seq_properties, vstd::std_specs::hash::group_hash_axioms, fl::ax};
//@include base.inc
//@include num.inc
//@include pos.inc
//@include pos3.inc
//@include point3.inc
//@include mesh_trait.inc
//@include mesh_edit.inc
//@include remesh.inc
impl std::hash::Hash for VId { #[verifier::external_body] fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
/// pairs of vertex ids can be keys (assumed: derived Hash and Eq of VId)
pub axiom fn ax_keys() ensures vstd::std_specs::hash::obeys_key_model::<(VId, VId)>();
/// `std::cmp::min` / `max` by the derived order of VId (assumed)
#[verifier::external_body]
pub fn min(a: VId, b: VId) -> (r: VId) ensures r.0 == (if a.0 <= b.0 { a.0 } else { b.0 }) { unimplemented!() }
#[verifier::external_body]
pub fn max(a: VId, b: VId) -> (r: VId) ensures r.0 == (if a.0 <= b.0 { b.0 } else { a.0 }) { unimplemented!() }
// ---- subdivision
/// w lies in the middle of x and y
pub open spec fn mid<V: IsND>(x: V, y: V, w: V) -> bool { forall|j: int| 0 <= j < V::nd() ==> #[trigger] w.at(j) == 0.5f64.ieee_mul(x.at(j).ieee_add(y.at(j))) }
pub open spec fn seen<V>(w: V) -> bool { true }
pub open spec fn between<V: IsND>(x: V, y: V, w: V) -> bool { mid(x, y, w) || mid(y, x, w) }
/// vertex m of mo is the middle of vertices a and b of mi
pub open spec fn middle<V: IsND, MI: IsMesh<V, Face3>, MO: IsVertexEditableMesh<V, Face3>>(mi: MI, mo: MO, a: int, b: int, m: int) -> bool {
    0 <= m < mo.nv() && exists|x: V, y: V, w: V| mi.vert(a, x) && mi.vert(b, y) && #[trigger] between(x, y, w) && forall|v: V| #[trigger] mo.vert(m, v) == MO::vrep(w, v)
}
/// faces 4i..4i+4 of mo are face i of mi split at the middles of its edges, e being the middle of every edge
pub open spec fn split<V: IsND, MI: IsMesh<V, Face3>, MO: IsVertexEditableMesh<V, Face3>>(mi: MI, mo: MO, e: Map<(VId, VId), VId>, i: int) -> bool {
    let t = mi.unit(i); let (x, y, z) = (key(t.a, t.b), key(t.b, t.c), key(t.c, t.a));
    e.dom().contains(x) && e.dom().contains(y) && e.dom().contains(z) && split_at(mi, mo, i, e[x].0 as int, e[y].0 as int, e[z].0 as int)
}
pub open spec fn split_at<V: IsND, MI: IsMesh<V, Face3>, MO: IsVertexEditableMesh<V, Face3>>(mi: MI, mo: MO, i: int, x: int, y: int, z: int) -> bool {
    let t = mi.unit(i); let (a, b, c) = (t.a.0 as int, t.b.0 as int, t.c.0 as int);
    &&& middle(mi, mo, a, b, x) && middle(mi, mo, b, c, y) && middle(mi, mo, c, a, z)
    &&& is_face::<V, Face3, MO>(mo.unit(4 * i), a, x, z)
    &&& is_face::<V, Face3, MO>(mo.unit(4 * i + 1), x, b, y)
    &&& is_face::<V, Face3, MO>(mo.unit(4 * i + 2), x, y, z)
    &&& is_face::<V, Face3, MO>(mo.unit(4 * i + 3), z, y, c)
}
pub proof fn grown_middle<V: IsND, MI: IsMesh<V, Face3>, MO: IsVertexEditableMesh<V, Face3>>(mi: MI, m: MO, n: MO, a: int, b: int, k: int)
    requires grown(m, n), middle(mi, m, a, b, k)
    ensures middle(mi, n, a, b, k), middle(mi, n, b, a, k)
{
    let (x, y, w) = choose|x: V, y: V, w: V| mi.vert(a, x) && mi.vert(b, y) && #[trigger] between(x, y, w) && forall|v: V| #[trigger] m.vert(k, v) == MO::vrep(w, v);
    assert forall|v: V| #[trigger] n.vert(k, v) == MO::vrep(w, v) by { assert(n.vert(k, v) == m.vert(k, v)); }
    assert(between(x, y, w) && between(y, x, w));
}
pub proof fn grown_split<V: IsND, MI: IsMesh<V, Face3>, MO: IsVertexEditableMesh<V, Face3>>(mi: MI, m: MO, n: MO, e: Map<(VId, VId), VId>, f: Map<(VId, VId), VId>, i: int)
    requires grown(m, n), split(mi, m, e, i), 0 <= i, 4 * i + 4 <= m.nf(), forall|k: (VId, VId)| #[trigger] e.dom().contains(k) ==> f.dom().contains(k) && f[k] == e[k],
    ensures split(mi, n, f, i)
{
    let t = mi.unit(i); let (a, b, c) = (t.a.0 as int, t.b.0 as int, t.c.0 as int);
    let (x, y, z) = (e[key(t.a, t.b)].0 as int, e[key(t.b, t.c)].0 as int, e[key(t.c, t.a)].0 as int);
    grown_middle(mi, m, n, a, b, x); grown_middle(mi, m, n, b, c, y); grown_middle(mi, m, n, c, a, z);
    assert(n.unit(4 * i) == m.unit(4 * i) && n.unit(4 * i + 1) == m.unit(4 * i + 1) && n.unit(4 * i + 2) == m.unit(4 * i + 2) && n.unit(4 * i + 3) == m.unit(4 * i + 3));
    assert(split_at(mi, n, i, x, y, z));
}
/// every stored edge has the middle of its ends
pub open spec fn edges_ok<V: IsND, MI: IsMesh<V, Face3>, MO: IsVertexEditableMesh<V, Face3>>(mi: MI, mo: MO, e: Map<(VId, VId), VId>) -> bool {
    forall|k: (VId, VId)| #[trigger] e.dom().contains(k) ==> mi.nv() <= e[k].0 && middle(mi, mo, k.0.0 as int, k.1.0 as int, e[k].0 as int) && k.0.0 <= k.1.0
}
/// different edges have different middles
pub open spec fn edges_apart(e: Map<(VId, VId), VId>) -> bool { forall|k: (VId, VId), l: (VId, VId)| #[trigger] e.dom().contains(k) && #[trigger] e.dom().contains(l) && k != l ==> e[k] != e[l] }
pub proof fn grown_edges<V: IsND, MI: IsMesh<V, Face3>, MO: IsVertexEditableMesh<V, Face3>>(mi: MI, m: MO, n: MO, e: Map<(VId, VId), VId>)
    requires grown(m, n), edges_ok(mi, m, e)
    ensures edges_ok(mi, n, e)
{
    assert forall|k: (VId, VId)| #[trigger] e.dom().contains(k) implies mi.nv() <= e[k].0 && middle(mi, n, k.0.0 as int, k.1.0 as int, e[k].0 as int) && k.0.0 <= k.1.0 by {
        grown_middle(mi, m, n, k.0.0 as int, k.1.0 as int, e[k].0 as int);
    }
}
pub proof fn edge_step<V: IsND, MI: IsMesh<V, Face3>, MO: IsVertexEditableMesh<V, Face3>>(mi: MI, m: MO, n: MO, e: Map<(VId, VId), VId>, f: Map<(VId, VId), VId>, a: VId, b: VId, x: V, y: V, i: VId)
    requires edges_ok(mi, m, e), edges_apart(e), mi.vert(a.0 as int, x), mi.vert(b.0 as int, y), mi.nv() <= m.nv(),
        if e.dom().contains(key(a, b)) { n == m && f == e && i == e[key(a, b)] } else {
            grown(m, n) && f == e.insert(key(a, b), i) && i.0 == m.nv() && n.nv() == m.nv() + 1 && exists|w: V| #[trigger] seen(w) && mid(x, y, w) && forall|v: V| #[trigger] n.vert(i.0 as int, v) == MO::vrep(w, v) }
    ensures edges_ok(mi, n, f), edges_apart(f), middle(mi, n, a.0 as int, b.0 as int, i.0 as int), mi.nv() <= i.0, f.dom().contains(key(a, b)), f[key(a, b)] == i, grown(m, n),
        forall|k: (VId, VId)| #[trigger] e.dom().contains(k) ==> f.dom().contains(k) && f[k] == e[k],
{
    let k = key(a, b);
    if e.dom().contains(k) { grown_middle(mi, m, n, k.0.0 as int, k.1.0 as int, i.0 as int); }
    else {
        grown_edges(mi, m, n, e);
        let w = choose|w: V| #[trigger] seen(w) && mid(x, y, w) && forall|v: V| #[trigger] n.vert(i.0 as int, v) == MO::vrep(w, v);
        assert(between(x, y, w) && between(y, x, w));
        assert(middle(mi, n, a.0 as int, b.0 as int, i.0 as int));
        assert(middle(mi, n, b.0 as int, a.0 as int, i.0 as int));
        assert forall|l: (VId, VId)| #[trigger] e.dom().contains(l) implies e[l] != i by { assert(middle(mi, m, l.0.0 as int, l.1.0 as int, e[l].0 as int)); }
    }
}
pub open spec fn key(a: VId, b: VId) -> (VId, VId) { if a.0 <= b.0 { (a, b) } else { (b, a) } }
pub open spec fn subdivided<V: IsND, MI: IsMesh<V, Face3>, MO: IsVertexEditableMesh<V, Face3>>(mi: MI, mo: MO) -> bool {
    &&& mo.mwf() && mo.ewf() && valid::<V, Face3, MO>(mo)
    &&& mo.nv() >= mi.nv() && forall|i: int| 0 <= i < mi.nv() ==> #[trigger] same_vert(mi, mo, i)
    &&& mo.nf() == 4 * mi.nf() && exists|e: Map<(VId, VId), VId>| #[trigger] edges_ok(mi, mo, e) && edges_apart(e) && mo.nv() == mi.nv() + e.len() && forall|i: int| 0 <= i < mi.nf() ==> #[trigger] split(mi, mo, e, i)
}
//@ file src/subdivide.rs
//@ freefn linear
//@ replace `let [v1, v2, v3] = $1;` => `let (v1, v2, v3) = three($1);` ; array pattern, the trusted body of three
//@ replace `*added_edges.entry($1).or_insert_with(|| mo.add_vertex($2))` => `{ let k = $1; match added_edges.get(&k) { Some(i) => *i, None => { let w = $2; proof { assert(seen(w)); } let v = mo.add_vertex(w); added_edges.insert(k, v); v } } }` ; Verus has no closures capturing `&mut` and no entry API
//@ ret r
//@ spec
    requires mi.mwf(), valid::<V, Face3, MI>(*mi), plain::<V, MI>(), 3 * mi.nf() <= usize::MAX, forall|n: nat| n <= mi.nv() + 3 * mi.nf() ==> #[trigger] MO::ids_ok(n),
        mi.nv() <= usize::MAX,
        forall|m: MO| #[trigger] call_ensures(MO::default, (), m) ==> fresh(m),
    ensures r.is_ok() == (forall|i: int| 0 <= i < mi.nf() ==> proper(#[trigger] mi.unit(i))),
        r.is_ok() ==> subdivided(*mi, r->Ok_0),
//@ start
    proof { ax_keys(); }
//@ loop 0 inv
        invariant mi.mwf(), n_vertices == mi.nv(), mo.mwf(), mo.ewf(), mo.nf() == 0, mo.nv() == i, forall|j: int| 0 <= j < i ==> #[trigger] same_vert(*mi, mo, j), valid::<V, Face3, MO>(mo),
//@ loop 0 start
        let ghost m0 = mo;
//@ loop 0 end
        proof { grown_verts(*mi, m0, mo, i as int); }
//@ loop 1 inv
        invariant mi.mwf(), n_vertices == mi.nv(), n_faces == mi.nf(), mo.mwf(), mo.ewf(), mo.nf() == 4 * i, mi.nv() <= mo.nv() <= mi.nv() + 3 * i, valid::<V, Face3, MO>(mo),
            valid::<V, Face3, MI>(*mi), plain::<V, MI>(), forall|n: nat| n <= mi.nv() + 3 * mi.nf() ==> #[trigger] MO::ids_ok(n), vstd::std_specs::hash::obeys_key_model::<(VId, VId)>(),
            forall|j: int| 0 <= j < mi.nv() ==> #[trigger] same_vert(*mi, mo, j), edges_ok(*mi, mo, added_edges@), edges_apart(added_edges@),
            forall|j: int| 0 <= j < i ==> #[trigger] split(*mi, mo, added_edges@, j), mo.nv() == mi.nv() + added_edges@.len(), forall|j: int| 0 <= j < i ==> proper(#[trigger] mi.unit(j)),
//@ loop 1 start
        let ghost m0 = mo;
        let ghost t = mi.unit(i as int);
        proof { in_mesh::<V, MI>(*mi, i as int); }
//@ before `let ia = `
        let ghost e0 = added_edges@;
//@ after `let ia = `
        let ghost (m1, e1) = (mo, added_edges@);
        proof { edge_step(*mi, m0, m1, e0, e1, t.a, t.b, v1, v2, ia); }
//@ after `let ib = `
        let ghost (m2, e2) = (mo, added_edges@);
        proof { edge_step(*mi, m1, m2, e1, e2, t.b, t.c, v2, v3, ib); }
//@ after `let ic = `
        let ghost (m3, e3) = (mo, added_edges@);
        proof {
            edge_step(*mi, m2, m3, e2, e3, t.c, t.a, v3, v1, ic);
            grown_middle(*mi, m1, m3, t.a.0 as int, t.b.0 as int, ia.0 as int);
            grown_middle(*mi, m2, m3, t.b.0 as int, t.c.0 as int, ib.0 as int);
            if !proper(t) { assert(ia == ib || ia == ic || ib == ic); } else { assert(key(t.a, t.b) != key(t.b, t.c) && key(t.a, t.b) != key(t.c, t.a) && key(t.b, t.c) != key(t.c, t.a)); }
        }
//@ loop 1 end
        proof {
            let j = 4 * (i as int);
            assert(mo.unit(j) == mo.unit(4 * i as int));
            grown_verts(*mi, m0, mo, mi.nv() as int); grown_edges(*mi, m3, mo, e3);
            grown_middle(*mi, m3, mo, t.a.0 as int, t.b.0 as int, ia.0 as int);
            grown_middle(*mi, m3, mo, t.b.0 as int, t.c.0 as int, ib.0 as int);
            grown_middle(*mi, m3, mo, t.c.0 as int, t.a.0 as int, ic.0 as int);
            assert(split_at(*mi, mo, i as int, ia.0 as int, ib.0 as int, ic.0 as int));
            assert(e3.dom().contains(key(t.a, t.b)) && e3.dom().contains(key(t.b, t.c)) && e3.dom().contains(key(t.c, t.a)));
            assert(split(*mi, mo, e3, i as int));
            assert forall|j: int| 0 <= j < i implies #[trigger] split(*mi, mo, added_edges@, j) by { grown_split(*mi, m0, mo, e0, e3, j); }
        }
//@ tail
    proof { assert(edges_ok(*mi, mo, added_edges@)); }
//@ enditem
// ---- healing
/// nothing twice
pub open spec fn distinct<T>(s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j] }
pub open spec fn clone_ok<P: Clone>() -> bool { forall|a: P, b: P| #[trigger] call_ensures(P::clone, (&a,), b) ==> a == b }
pub open spec fn packs<T>(s: Seq<&T>, d: Seq<T>, ids: Seq<usize>) -> bool {
    &&& ids.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] ids[i]) < d.len() && d[ids[i] as int] == *s[i]
    &&& distinct(d) && forall|k: int| 0 <= k < d.len() ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == #[trigger] d[k]
}
//@ file src/utils.rs
//@ freefn pack_dupes_indexed
//@ fattrs
#[verifier::exec_allows_no_decreases_clause]
//@ replace `HashMap::new()` => `HashMap::<&T, usize>::new()` ; the inferred type
//@ replace `map.entry(x).or_insert_with(|| $1)` => `&match map.get(&x) { Some(i) => *i, None => { let v = $1; map.insert(x, v); v } }` ; Verus has no closures capturing `&mut` and no entry API
//@ ret r
//@ spec
    requires IteratorSpec::obeys_prophetic_iter_laws(&idata), IteratorSpec::will_return_none(&idata), vstd::std_specs::hash::obeys_key_model::<&T>(), clone_ok::<T>(),
    ensures packs(IteratorSpec::remaining(&idata), r.0@, r.1@),
//@ start
    let ghost s = IteratorSpec::remaining(&idata);
    let ghost mut k = 0int;
//@ loop 0 gen
//@ loop 0 inv
        invariant_except_break 0 <= k <= s.len(), IteratorSpec::remaining(&it__0) == s.skip(k), IteratorSpec::obeys_prophetic_iter_laws(&it__0), IteratorSpec::will_return_none(&it__0),
        invariant vstd::std_specs::hash::obeys_key_model::<&T>(), clone_ok::<T>(), 0 <= k <= s.len(), packs(s.take(k), packed_data@, ids@),
            forall|x: &T| #[trigger] map@.dom().contains(x) ==> map@[x] < packed_data@.len() && packed_data@[map@[x] as int] == *x,
            forall|i: int| 0 <= i < packed_data@.len() ==> map@.dom().contains(&#[trigger] packed_data@[i]),
        ensures k == s.len(),
//@ loop 0 start
        let ghost (d0, i0) = (packed_data@, ids@);
        proof { assert(s[k] == x); assert(s.take(k + 1) =~= s.take(k).push(x)); k = k + 1; }
//@ loop 0 end
        proof {
            assert(ids@.len() == k);
            assert(packed_data@[ids@[k - 1] as int] == *x);
            let t = s.take(k);
            assert forall|j: int| 0 <= j < packed_data@.len() implies exists|i: int| 0 <= i < t.len() && *(#[trigger] t[i]) == #[trigger] packed_data@[j] by {
                if j < d0.len() { let i = choose|i: int| 0 <= i < k - 1 && *(#[trigger] s.take(k - 1)[i]) == d0[j]; assert(*t[i] == packed_data@[j]); } else { assert(*t[k - 1] == packed_data@[j]); }
            }
            assert forall|i: int, j: int| 0 <= i < j < packed_data@.len() implies #[trigger] packed_data@[i] != #[trigger] packed_data@[j] by { }
        }
//@ tail
    proof { assert(s.take(k) =~= s); }
//@ enditem
/// the position of corner k of face i may be reported as s[3 * i + k]
pub open spec fn corners<V, M: IsMesh<V, Face3>>(m: M, s: Seq<V>, n: int) -> bool {
    s.len() == 3 * n && forall|i: int| 0 <= i < n ==> corners_at(m, s, i)
}
pub open spec fn corners_at<V, M: IsMesh<V, Face3>>(m: M, s: Seq<V>, i: int) -> bool {
    let t = m.unit(i); m.vert(t.a.0 as int, s[3 * i]) && m.vert(t.b.0 as int, s[3 * i + 1]) && m.vert(t.c.0 as int, s[3 * i + 2])
}
/// the three positions differ
pub open spec fn three_points<V>(s: Seq<V>, i: int) -> bool { s[3 * i] != s[3 * i + 1] && s[3 * i] != s[3 * i + 2] && s[3 * i + 1] != s[3 * i + 2] }
/// the faces among the first n with three different positions, in order
pub open spec fn kept<V>(s: Seq<V>, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else if three_points(s, n - 1) { kept(s, n - 1).push(n - 1) } else { kept(s, n - 1) } }
/// corner k of face j of m is the vertex with position s[3 * i + k]
pub open spec fn over<V, M: IsMesh<V, Face3>>(m: M, d: Seq<V>, s: Seq<V>, j: int, i: int) -> bool {
    let t = m.unit(j);
    forall|k: int| 0 <= k < 3 ==> (#[trigger] M::corner(t, k)) < d.len() && d[M::corner(t, k) as int] == s[3 * i + k]
}
/// m has the positions d, each once, and the faces over three different positions among s
pub open spec fn healed<V, M: IsVertexEditableMesh<V, Face3>>(m: M, d: Seq<V>, s: Seq<V>, n: int) -> bool {
    &&& m.mwf() && m.ewf() && valid::<V, Face3, M>(m) && distinct(d)
    &&& m.nv() == d.len() && forall|i: int, v: V| 0 <= i < d.len() ==> #[trigger] m.vert(i, v) == M::vrep(d[i], v)
    &&& m.nf() == kept(s, n).len() && forall|j: int| 0 <= j < m.nf() ==> over(m, d, s, j, #[trigger] kept(s, n)[j])
}
pub proof fn fewer<T>(s: Seq<T>, d: Seq<T>)
    requires distinct(d), forall|k: int| 0 <= k < d.len() ==> s.contains(#[trigger] d[k])
    ensures d.len() <= s.len()
{
    assert(d.no_duplicates()); d.unique_seq_to_set(); s.lemma_cardinality_of_set();
    assert(d.to_set().subset_of(s.to_set()));
    vstd::set_lib::lemma_len_subset(d.to_set(), s.to_set());
}
/// `v.iter()` (assumed: std)
#[verifier::external_body]
pub fn items<'a, T>(v: &'a Vec<T>) -> (r: std::slice::Iter<'a, T>)
    ensures IteratorSpec::obeys_prophetic_iter_laws(&r), IteratorSpec::will_return_none(&r), IteratorSpec::remaining(&r).len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] IteratorSpec::remaining(&r)[i]) == v@[i],
{ v.iter() }
pub open spec fn heals<V, M: IsVertexEditableMesh<V, Face3>>(m: M, r: M) -> bool {
    exists|s: Seq<V>, d: Seq<V>| #[trigger] corners(m, s, m.nf() as int) && #[trigger] healed(r, d, s, m.nf() as int)
}
//@ file src/heal_mesh.rs
//@ freefn heal_mesh
//@ replace `duped_vertices.iter()` => `items(&duped_vertices)` ; the trusted body of items
//@ replace `let [v1, v2, v3] = $1;` => `let (v1, v2, v3) = three($1);` ; array pattern, the trusted body of three
//@ ret r
//@ spec
    requires mesh.mwf(), valid::<P, Face3, M>(*mesh), plain::<P, M>(), 3 * mesh.nf() <= usize::MAX, forall|n: nat| n <= 3 * mesh.nf() ==> #[trigger] M::ids_ok(n),
        clone_ok::<P>(), vstd::std_specs::hash::obeys_key_model::<&P>(), forall|m: M| #[trigger] call_ensures(M::default, (), m) ==> fresh(m),
    ensures r.is_ok(), heals(*mesh, r->Ok_0),
//@ loop 0 inv
        invariant mesh.mwf(), valid::<P, Face3, M>(*mesh), plain::<P, M>(), nf == mesh.nf(), 3 * nf <= usize::MAX, corners(*mesh, duped_vertices@, i as int),
//@ loop 0 start
        let ghost s0 = duped_vertices@;
        let ghost t = mesh.unit(i as int);
        proof { in_mesh::<P, M>(*mesh, i as int); }
//@ loop 0 end
        proof { assert forall|j: int| 0 <= j < i + 1 implies corners_at(*mesh, duped_vertices@, j) by { if j < i { assert(corners_at(*mesh, s0, j)); } } }
//@ before `let nf_new`
    let ghost s = duped_vertices@;
    let ghost d = unduped@;
    proof { assert(distinct(d)); assert(indices@.len() == 3 * nf); assert forall|i: int| 0 <= i < s.len() implies (#[trigger] indices@[i]) < d.len() && d[indices@[i] as int] == s[i] by { } 
        fewer(s, d);
    }
//@ loop 1 iter it
//@ loop 1 inv
        invariant it.seq() == d, result.mwf(), result.ewf(), valid::<P, Face3, M>(result), result.nf() == 0, result.nv() == it.index@, forall|i: int, v: P| 0 <= i < it.index@ ==> #[trigger] result.vert(i, v) == M::vrep(d[i], v),
//@ loop 2 inv
        invariant nf_new == nf, nf == mesh.nf(), indices@.len() == 3 * nf, 3 * nf <= usize::MAX, s.len() == 3 * nf, forall|i: int| 0 <= i < s.len() ==> (#[trigger] indices@[i]) < d.len() && d[indices@[i] as int] == s[i],
            M::ids_ok(d.len()), healed(result, d, s, f as int),
//@ loop 2 start
        let ghost r0 = result;
//@ loop 2 end
        proof {
            assert forall|j: int| 0 <= j < result.nf() implies over(result, d, s, j, #[trigger] kept(s, f + 1)[j]) by { if j < r0.nf() { assert(over(r0, d, s, j, kept(s, f as int)[j])); assert(result.unit(j) == r0.unit(j)); } }
        }
//@ tail
    proof { assert(healed(result, d, s, mesh.nf() as int)); assert(corners(*mesh, s, mesh.nf() as int)); assert(heals(*mesh, result)); }
//@ enditem
// ---- clustering
/// `x as usize`: 0 for NaN, rounded towards 0 and limited otherwise
pub uninterp spec fn whole(x: f64) -> usize;
#[verifier::external_body]
pub fn cell_no(x: f64) -> (r: usize) ensures r == whole(x) { x as usize }
pub type Cell = (usize, usize, usize);
pub axiom fn ax_cells() ensures vstd::std_specs::hash::obeys_key_model::<Cell>();
/// the map with the other hasher of the fnv crate
pub type FnvHashMap<K, V> = HashMap<K, V>;
/// the cell of a position, counted from lo in steps of size
pub open spec fn cell<A: IsND, B: IsND>(lo: A, size: f64, p: B) -> Cell {
    (whole(p.at(0).ieee_sub(lo.at(0)).ieee_div(size)), whole(p.at(1).ieee_sub(lo.at(1)).ieee_div(size)), whole(p.at(2).ieee_sub(lo.at(2)).ieee_div(size)))
}
pub open spec fn cell_from<A: IsND, B: IsND>(lo: &A, size: f64, p: &B) -> Cell { cell(*lo, size, *p) }
//@ file src/bounding_box_3d.rs
//@ struct BoundingBox3D
//@ enditem
impl BoundingBox3D {
    pub open spec fn ok(&self) -> bool { self.min.at(0).ieee_lt(self.max.at(0)) && self.min.at(1).ieee_lt(self.max.at(1)) && self.min.at(2).ieee_lt(self.max.at(2)) }
}
//@ impl BoundingBox3D
//@ fn min_p
//@ ret r
//@ spec
        ensures r == self.min,
//@ fn sizes trusted
//@ ret r
//@ spec
        requires self.ok(),
        ensures r@[0].val == self.max.at(0).ieee_sub(self.min.at(0)), r@[1].val == self.max.at(1).ieee_sub(self.min.at(1)), r@[2].val == self.max.at(2).ieee_sub(self.min.at(2)),
//@ enditem
//@ file src/has_bounding_box_3d.rs
//@ trait HasBoundingBox3DMaybe
//@ ghost
    spec fn bbm(&self) -> Option<BoundingBox3D>;
//@ fn bounding_box_maybe
//@ ret r
//@ spec
        ensures r == self.bbm(),
//@ enditem
//@ file src/functions.rs
//@ freefn conn
//@ ret r
//@ spec
    ensures r.at(0) == p_to.at(0).ieee_sub(p_from.at(0)), r.at(1) == p_to.at(1).ieee_sub(p_from.at(1)), r.at(2) == p_to.at(2).ieee_sub(p_from.at(2)),
//@ enditem
/// the cells of the vertices
pub open spec fn cells<V: IsND, M: IsMesh<V, Face3>>(m: M, lo: V, size: f64, c: Seq<Cell>, n: int) -> bool {
    c.len() == n && forall|i: int| 0 <= i < n ==> cell_ok(m, lo, size, #[trigger] c[i], i)
}
pub open spec fn cell_ok<V: IsND, M: IsMesh<V, Face3>>(m: M, lo: V, size: f64, c: Cell, i: int) -> bool { exists|x: V| #[trigger] m.vert(i, x) && c == cell(lo, size, x) }
/// z may be reported as position of a vertex in the same cell as vertex i
pub open spec fn moved<V, M: IsMesh<V, Face3>>(m: M, c: Seq<Cell>, i: int, z: V) -> bool { exists|k: int| 0 <= k < c.len() && #[trigger] c[k] == c[i] && m.vert(k, z) }
/// vertex j of r is stored from a position in the cell of vertex i
pub open spec fn stored<V, M: IsVertexEditableMesh<V, Face3>>(m: M, r: M, c: Seq<Cell>, i: int, j: int) -> bool {
    exists|z: V| #[trigger] moved(m, c, i, z) && forall|v: V| #[trigger] r.vert(j, v) == M::vrep(z, v)
}
pub open spec fn stored_face<V, M: IsVertexEditableMesh<V, Face3>>(m: M, r: M, c: Seq<Cell>, i: int) -> bool {
    let t = m.unit(i);
    &&& stored(m, r, c, t.a.0 as int, 3 * i) && stored(m, r, c, t.b.0 as int, 3 * i + 1) && stored(m, r, c, t.c.0 as int, 3 * i + 2)
    &&& r.unit(i).a.0 == 3 * i && r.unit(i).b.0 == 3 * i + 1 && r.unit(i).c.0 == 3 * i + 2
}
/// every face over positions from the cells of its corners
pub open spec fn gathered<V: IsND, M: IsVertexEditableMesh<V, Face3>>(m: M, r: M, c: Seq<Cell>, n: int) -> bool {
    &&& r.mwf() && r.ewf() && r.nv() == 3 * n && r.nf() == n && valid::<V, Face3, M>(r)
    &&& forall|i: int| 0 <= i < n ==> #[trigger] stored_face(m, r, c, i)
}
pub open spec fn clustered<V: IsND, M: IsVertexEditableMesh<V, Face3>>(m: M, lo: V, size: f64, r: M) -> bool {
    exists|c: Seq<Cell>, g: M| #[trigger] cells(m, lo, size, c, m.nv() as int) && #[trigger] gathered(m, g, c, m.nf() as int) && heals(g, r)
}
pub open spec fn at_least_two(x: f64, size: f64) -> bool { 2 <= whole(x.ieee_div(size)) }
pub proof fn grown_stored<V: IsND, M: IsVertexEditableMesh<V, Face3>>(m: M, a: M, b: M, c: Seq<Cell>, i: int)
    requires grown(a, b), stored_face(m, a, c, i), 0 <= i, 3 * i + 3 <= a.nv(), i < a.nf()
    ensures stored_face(m, b, c, i)
{
    let t = m.unit(i);
    one_stored(m, a, b, c, t.a.0 as int, 3 * i); one_stored(m, a, b, c, t.b.0 as int, 3 * i + 1); one_stored(m, a, b, c, t.c.0 as int, 3 * i + 2);
    assert(b.unit(i) == a.unit(i));
}
pub proof fn one_stored<V: IsND, M: IsVertexEditableMesh<V, Face3>>(m: M, a: M, b: M, c: Seq<Cell>, i: int, j: int)
    requires grown(a, b), stored(m, a, c, i, j), 0 <= j < a.nv()
    ensures stored(m, b, c, i, j)
{
    let z = choose|z: V| #[trigger] moved(m, c, i, z) && forall|v: V| #[trigger] a.vert(j, v) == M::vrep(z, v);
    assert forall|v: V| #[trigger] b.vert(j, v) == M::vrep(z, v) by { assert(b.vert(j, v) == a.vert(j, v)); }
}
//@ file src/cluster_vertices.rs
//@ freefn cluster_vertices
//@ replace `let [sx, sy, sz] = $1;` => `let (sx, sy, sz) = three($1);` ; array pattern, the trusted body of three
//@ replace `($1) as usize` => `cell_no($1)` ; Verus has no float to integer cast, the trusted body of cell_no
//@ replace `|ref p` => `|p: P` ; the reference is taken where it is used
//@ replace `conn(&min, p)` => `conn(&min, &p)` ; as above
//@ replace `|old_index` => `|old_index: usize` ; the inferred type
//@ replace `FnvHashMap::default()` => `FnvHashMap::<Cell, usize>::new()` ; another hasher
//@ ret r
//@ spec
    requires mesh.mwf(), valid::<P, Face3, M>(*mesh), plain::<P, M>(), 3 * mesh.nf() <= usize::MAX, forall|n: nat| n <= 3 * mesh.nf() ==> #[trigger] M::ids_ok(n),
        clone_ok::<P>(), vstd::std_specs::hash::obeys_key_model::<&P>(), forall|m: M| #[trigger] call_ensures(M::default, (), m) ==> fresh(m),
        mesh.bbm().is_some() ==> mesh.bbm().unwrap().ok(),
    ensures r.is_ok() ==> mesh.bbm().is_some() && exists|lo: P| lo.at(0) == mesh.bbm().unwrap().min.at(0) && lo.at(1) == mesh.bbm().unwrap().min.at(1) && lo.at(2) == mesh.bbm().unwrap().min.at(2) && #[trigger] clustered(*mesh, lo, cluster_size, r->Ok_0),
        r.is_ok() ==> forall|k: int| 0 <= k < 3 ==> 2 <= (#[trigger] whole(mesh.bbm().unwrap().max.at(k).ieee_sub(mesh.bbm().unwrap().min.at(k)).ieee_div(cluster_size))) < usize::MAX,
//@ start
    proof { ax_cells(); }
//@ closure 0 c: Cell
        ensures c == cell_from(&min, cluster_size, &p)
//@ loop 0 inv
        invariant mesh.mwf(), nv == mesh.nv(), vstd::std_specs::hash::obeys_key_model::<Cell>(), cells(*mesh, min, cluster_size, clusters@, i as int),
            forall|p: P| call_requires(cluster_of, (p,)), forall|p: P, c: Cell| #[trigger] call_ensures(cluster_of, (p,), c) ==> c == cell(min, cluster_size, p),
            forall|j: int| 0 <= j < i ==> cluster_map@.dom().contains(#[trigger] clusters@[j]),
            forall|c: Cell| #[trigger] cluster_map@.dom().contains(c) ==> cluster_map@[c] < i && clusters@[cluster_map@[c] as int] == c,
//@ loop 0 start
        let ghost c0 = clusters@;
//@ loop 0 end
        proof { assert forall|j: int| 0 <= j < i + 1 implies cell_ok(*mesh, min, cluster_size, #[trigger] clusters@[j], j) by { if j < i { assert(clusters@[j] == c0[j]); } } }
//@ closure 1 v: P
        requires old_index < clusters@.len()
        ensures moved(*mesh, clusters@, old_index as int, v)
//@ loop 1 inv
        invariant mesh.mwf(), valid::<P, Face3, M>(*mesh), plain::<P, M>(), nf == mesh.nf(), clusters@.len() == mesh.nv(),
            forall|n: nat| n <= 3 * mesh.nf() ==> #[trigger] M::ids_ok(n), gathered(*mesh, result, clusters@, i as int),
            forall|k: usize| k < clusters@.len() ==> call_requires(new_vertex, (k,)), forall|k: usize, v: P| #[trigger] call_ensures(new_vertex, (k,), v) ==> moved(*mesh, clusters@, k as int, v),
//@ loop 1 start
        let ghost r0 = result;
        let ghost t = mesh.unit(i as int);
        proof { in_mesh::<P, M>(*mesh, i as int); }
//@ loop 1 end
        proof {
            assert forall|j: int| 0 <= j < i implies #[trigger] stored_face(*mesh, result, clusters@, j) by { assert(stored_face(*mesh, r0, clusters@, j)); grown_stored(*mesh, r0, result, clusters@, j); }
            assert(M::corner(result.unit(i as int), 0) == result.unit(i as int).a.0);
            let c = clusters@; let n = r0.nv() as int;
            assert(stored(*mesh, result, c, t.a.0 as int, n));
            assert(stored(*mesh, result, c, t.b.0 as int, n + 1));
            assert(stored(*mesh, result, c, t.c.0 as int, n + 2));
            assert(n == 3 * i);
            assert(stored_face(*mesh, result, clusters@, i as int));
        }
//@ before `result = heal_mesh`
    let ghost g = result;
//@ tail
    proof { assert(gathered(*mesh, g, clusters@, mesh.nf() as int)); assert(cells(*mesh, min, cluster_size, clusters@, mesh.nv() as int)); assert(heals(g, result)); assert(clustered(*mesh, min, cluster_size, result)); }
//@ enditem
} // verus!
fn main() {}

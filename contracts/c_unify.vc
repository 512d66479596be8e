#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use std::collections::HashSet;
use std::ops::*;
verus! {
//@include float.inc
broadcast use {vstd::seq_lib::group_seq_properties, vstd::std_specs::hash::group_hash_axioms, fl::ax};
//@include base.inc
//@include num.inc
//@include pos.inc
//@include pos3.inc
//@include mesh_trait.inc
//@include mesh_edit.inc
//@include remesh.inc
/// the set with the other hasher of the fnv crate
pub type FnvHashSet<T> = HashSet<T>;
/// a vector of bits (assumed: the bitvec crate)
pub struct Bits { pub b: Vec<bool> }
impl Bits {
    pub open spec fn view(&self) -> Seq<bool> { self.b@ }
    /// `bitvec![0; n]`
    #[verifier::external_body]
    pub fn zeros(n: usize) -> (r: Bits) ensures r@ == Seq::new(n as nat, |i: int| false) { Bits { b: vec![false; n] } }
    /// `v[i]`
    pub fn at(&self, i: usize) -> (r: bool) requires i < self@.len() ensures r == self@[i as int] { self.b[i] }
    pub fn set(&mut self, i: usize, x: bool) requires i < old(self)@.len() ensures final(self)@ == old(self)@.update(i as int, x) { self.b.set(i, x); }
}
/// `vec![FnvHashSet::default(); n]`
#[verifier::external_body]
pub fn empty_sets(n: usize) -> (r: Vec<HashSet<usize>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@ == Set::<usize>::empty() { vec![HashSet::default(); n] }
/// `v.extend(s.iter())` (assumed: std)
#[verifier::external_body]
pub fn add_all(v: &mut Vec<usize>, s: &HashSet<usize>) ensures forall|x: usize| #[trigger] final(v)@.contains(x) == (old(v)@.contains(x) || s@.contains(x)) { v.extend(s.iter()) }
/// `v.sort()` (assumed: std)
#[verifier::external_body]
pub fn sort_all(v: &mut Vec<usize>) ensures forall|x: usize| #[trigger] final(v)@.contains(x) == old(v)@.contains(x) { v.sort() }
/// `v.dedup()` (assumed: std)
#[verifier::external_body]
pub fn drop_repeated(v: &mut Vec<usize>) ensures forall|x: usize| #[trigger] final(v)@.contains(x) == old(v)@.contains(x) { v.dedup() }
/// `v.retain(|x| *x != y)` (assumed: std)
#[verifier::external_body]
pub fn keep_other(v: &mut Vec<usize>, y: usize) ensures forall|x: usize| #[trigger] final(v)@.contains(x) == (old(v)@.contains(x) && x != y) { v.retain(|x| *x != y) }
/// the values IsIndexContainer::iter yields for a Vec (the iterator is verified in unit c_index)
#[verifier::external_body]
pub fn values(v: &Vec<usize>) -> (r: Vec<usize>) ensures r@ == v@ { v.clone() }
pub struct Norm3D { x: f64, y: f64, z: f64 }
/// the dot product (its body is verified in c_vector)
pub uninterp spec fn dotted(n: Norm3D, m: Norm3D) -> f64;
impl Norm3D {
    #[verifier::external_body]
    pub fn dot(&self, other: &Norm3D) -> (r: f64) ensures r == dotted(*self, *other) { unimplemented!() }
}
/// assumed here, proved in c_vector (dot_symmetric)
#[verifier::external_body]
pub proof fn dot_symmetric() ensures forall|n: Norm3D, m: Norm3D| #[trigger] dotted(n, m) == dotted(m, n) { }
/// the directions face away from each other
pub open spec fn against(n: Norm3D, m: Norm3D) -> bool { dotted(n, m).ieee_lt(0.0f64) }
/// the normal is a function of the corners (proved in c_vector)
pub uninterp spec fn normal_at<P>(a: P, b: P, c: P) -> Norm3D;
//@ file src/functions.rs
//@ freefn normal_of_face trusted
//@ ret r
//@ spec
    ensures r == normal_at(*v1, *v2, *v3),
//@ enditem
pub open spec fn touches(t: Face3, v: int) -> bool { t.a.0 == v || t.b.0 == v || t.c.0 == v }
pub open spec fn share(t: Face3, u: Face3) -> bool { touches(t, u.a.0 as int) || touches(t, u.b.0 as int) || touches(t, u.c.0 as int) }
/// v_to_f[v] are the faces among the first n touching vertex v
pub open spec fn faces_of<V, M: IsMesh<V, Face3>>(m: M, v_to_f: Seq<HashSet<usize>>, n: int) -> bool {
    v_to_f.len() == m.nv() && forall|v: int, f: usize| 0 <= v < m.nv() ==> #[trigger] v_to_f[v]@.contains(f) == (f < n && touches(m.unit(f as int), v))
}
//@ file src/unify_faces.rs
//@ freefn vertex_to_face
//@ replace `vec![FnvHashSet::default(); $1]` => `empty_sets($1)` ; the trusted body of empty_sets
//@ ret r
//@ spec
    requires mesh.mwf(), valid::<P, Face3, M>(*mesh), plain::<P, M>(),
    ensures faces_of(*mesh, r@, mesh.nf() as int),
//@ loop 0 inv
        invariant mesh.mwf(), valid::<P, Face3, M>(*mesh), plain::<P, M>(), nf == mesh.nf(), faces_of(*mesh, v_to_f@, i as int),
//@ loop 0 start
        proof { in_mesh::<P, M>(*mesh, i as int); }
//@ enditem
//@ freefn collect_neighbour_faces
//@ replace `neighbours.extend(v_to_f[$1].iter())` => `add_all(neighbours, &v_to_f[$1])` ; the trusted body of add_all
//@ replace `neighbours.sort()` => `sort_all(neighbours)` ; the trusted body of sort_all
//@ replace `neighbours.dedup()` => `drop_repeated(neighbours)` ; the trusted body of drop_repeated
//@ replace `neighbours.retain(|x| *x != $1)` => `keep_other(neighbours, $1)` ; the trusted body of keep_other
//@ ret r
//@ spec
    requires mesh.mwf(), valid::<P, Face3, M>(*mesh), plain::<P, M>(), faces_of(*mesh, v_to_f@, mesh.nf() as int),
    ensures r.is_ok() == (fid.0 < mesh.nf()),
        r.is_ok() ==> forall|x: usize| #[trigger] final(neighbours)@.contains(x) == (x != fid.0 && (old(neighbours)@.contains(x) || x < mesh.nf() && share(mesh.unit(x as int), mesh.unit(fid.0 as int)))),
//@ start
    proof { if fid.0 < mesh.nf() { in_mesh::<P, M>(*mesh, fid.0 as int); } }
//@ enditem
/// how many bits are not set
pub open spec fn unset(s: Seq<bool>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { unset(s.drop_last()) + if s.last() { 0nat } else { 1nat } } }
pub proof fn unset_less(s: Seq<bool>, i: int)
    requires 0 <= i < s.len(), !s[i]
    ensures unset(s.update(i, true)) + 1 == unset(s)
    decreases s.len()
{
    let t = s.update(i, true);
    if i < s.len() - 1 { unset_less(s.drop_last(), i); assert(t.drop_last() =~= s.drop_last().update(i, true)); }
    else { assert(t.drop_last() =~= s.drop_last()); }
}
/// the same corners in the same or the other direction
pub open spec fn same_corners<V, M: IsMesh<V, Face3>>(m: M, r: M, i: int) -> bool {
    let t = m.unit(i); let (a, b, c) = (t.a.0 as int, t.b.0 as int, t.c.0 as int);
    is_face::<V, Face3, M>(r.unit(i), a, b, c) || is_face::<V, Face3, M>(r.unit(i), a, c, b)
}
/// a vertex is always reported the same
pub open spec fn steady<V, M: IsMesh<V, Face3>>(m: M) -> bool { forall|i: int, x: V, y: V| #[trigger] m.vert(i, x) && #[trigger] m.vert(i, y) ==> x == y }
pub open spec fn vtx<V, M: IsMesh<V, Face3>>(m: M, i: int) -> V { choose|x: V| m.vert(i, x) }
pub open spec fn facing<V, M: IsMesh<V, Face3>>(m: M, i: int) -> Norm3D { normal_at(vtx::<V, M>(m, M::corner(m.unit(i), 0) as int), vtx::<V, M>(m, M::corner(m.unit(i), 1) as int), vtx::<V, M>(m, M::corner(m.unit(i), 2) as int)) }
/// the normals of two faces of the mesh face away from each other
pub open spec fn apart<V, M: IsMesh<V, Face3>>(m: M, i: int, j: int) -> bool { against(facing::<V, M>(m, i), facing::<V, M>(m, j)) }
/// two different faces with a common vertex
pub open spec fn neigh<V, M: IsMesh<V, Face3>>(m: M, i: int, j: int) -> bool { 0 <= i < m.nf() && 0 <= j < m.nf() && i != j && share(m.unit(i), m.unit(j)) }
/// turning the marked faces, no two neighbours face away from each other
pub open spec fn agrees<V, M: IsMesh<V, Face3>>(m: M, turn: Seq<bool>) -> bool { turn.len() == m.nf() && forall|i: int, j: int| #[trigger] neigh::<V, M>(m, i, j) ==> apart::<V, M>(m, i, j) == (turn[i] != turn[j]) }
/// some faces can be turned so
pub open spec fn orientable<V, M: IsMesh<V, Face3>>(m: M) -> bool { exists|turn: Seq<bool>| #[trigger] agrees::<V, M>(m, turn) }
pub open spec fn side(flip: Seq<bool>, turn: Seq<bool>, i: int) -> bool { flip[i] != turn[i] }
/// only faces of the frontier (or this one) may have neighbours that were not looked at
pub open spec fn closed_but<V, M: IsMesh<V, Face3>>(m: M, checked: Seq<bool>, frontier: Seq<usize>, this: int) -> bool {
    forall|i: int, j: int| #[trigger] neigh::<V, M>(m, i, j) && checked[i] && !checked[j] ==> frontier.contains(i as usize) || i == this
}
pub open spec fn settled<V, M: IsMesh<V, Face3>>(m: M, checked: Seq<bool>, flip: Seq<bool>, turn: Seq<bool>) -> bool {
    agrees::<V, M>(m, turn) ==> forall|i: int, j: int| #[trigger] neigh::<V, M>(m, i, j) && checked[i] && checked[j] ==> side(flip, turn, i) == side(flip, turn, j)
}
pub open spec fn led<V, M: IsMesh<V, Face3>>(m: M, checked: Seq<bool>, flip: Seq<bool>, turn: Seq<bool>, frontier: Seq<usize>, c: bool) -> bool {
    forall|k: int| 0 <= k < frontier.len() ==> (#[trigger] frontier[k]) < checked.len() && checked[frontier[k] as int] && (agrees::<V, M>(m, turn) ==> side(flip, turn, frontier[k] as int) == c)
}
pub proof fn neigh_symmetric<V, M: IsMesh<V, Face3>>(m: M) ensures forall|i: int, j: int| #[trigger] neigh::<V, M>(m, i, j) == neigh::<V, M>(m, j, i) { }
/// a new group starts with a face without known neighbours
pub proof fn seed<V, M: IsMesh<V, Face3>>(m: M, checked: Seq<bool>, flip: Seq<bool>, turn: Seq<bool>, f: usize)
    requires checked.len() == m.nf(), flip.len() == m.nf(), f < m.nf(), !checked[f as int], closed_but::<V, M>(m, checked, Seq::<usize>::empty(), -1), settled::<V, M>(m, checked, flip, turn),
    ensures ({ let (d, fr) = (checked.update(f as int, true), Seq::<usize>::empty().push(f)); closed_but::<V, M>(m, d, fr, -1) && settled::<V, M>(m, d, flip, turn) && led::<V, M>(m, d, flip, turn, fr, side(flip, turn, f as int)) }),
{
    neigh_symmetric::<V, M>(m);
    let (d, fr) = (checked.update(f as int, true), Seq::<usize>::empty().push(f));
    assert(fr[0] == f);
    assert forall|i: int, j: int| #[trigger] neigh::<V, M>(m, i, j) && d[i] && !d[j] implies fr.contains(i as usize) || i == -1 by { if i != f { assert(checked[i] && !checked[j]); } else { assert(fr.contains(f)); } }
    if agrees::<V, M>(m, turn) {
        assert forall|i: int, j: int| #[trigger] neigh::<V, M>(m, i, j) && d[i] && d[j] implies side(flip, turn, i) == side(flip, turn, j) by {
            if i == f { assert(neigh::<V, M>(m, j, i)); assert(checked[j] && !checked[i]); } else if j == f { assert(checked[i] && !checked[j]); }
        }
    }
}
/// a neighbour is turned as its own and this face's normal ask for
pub proof fn adopt<V, M: IsMesh<V, Face3>>(m: M, checked: Seq<bool>, flip: Seq<bool>, turn: Seq<bool>, fr: Seq<usize>, c: bool, this: usize, n: usize, x: bool)
    requires checked.len() == m.nf() <= usize::MAX, flip.len() == m.nf(), neigh::<V, M>(m, this as int, n as int), checked[this as int], !checked[n as int], x == (flip[this as int] != apart::<V, M>(m, this as int, n as int)),
        closed_but::<V, M>(m, checked, fr, this as int), settled::<V, M>(m, checked, flip, turn), led::<V, M>(m, checked, flip, turn, fr, c), agrees::<V, M>(m, turn) ==> side(flip, turn, this as int) == c,
    ensures ({ let (d, g, q) = (checked.update(n as int, true), flip.update(n as int, x), fr.push(n)); closed_but::<V, M>(m, d, q, this as int) && settled::<V, M>(m, d, g, turn) && led::<V, M>(m, d, g, turn, q, c) }),
{
    neigh_symmetric::<V, M>(m);
    let (d, g, q) = (checked.update(n as int, true), flip.update(n as int, x), fr.push(n));
    assert(q[fr.len() as int] == n);
    assert forall|i: int, j: int| #[trigger] neigh::<V, M>(m, i, j) && d[i] && !d[j] implies q.contains(i as usize) || i == this by {
        if i != n && i != this { assert(checked[i] && !checked[j]); let k = choose|k: int| 0 <= k < fr.len() && fr[k] == i as usize; assert(q[k] == i as usize); } else if i == n { assert(q.contains(n)); }
    }
    assert forall|k: int| 0 <= k < q.len() implies (#[trigger] q[k]) < d.len() && d[q[k] as int] && (agrees::<V, M>(m, turn) ==> side(g, turn, q[k] as int) == c) by { if k < fr.len() { assert(q[k] == fr[k]); } }
    if agrees::<V, M>(m, turn) {
        assert(apart::<V, M>(m, this as int, n as int) == (turn[this as int] != turn[n as int]));
        assert(side(g, turn, n as int) == c);
        assert forall|i: int, j: int| #[trigger] neigh::<V, M>(m, i, j) && d[i] && d[j] implies side(g, turn, i) == side(g, turn, j) by {
            let o = if i == n { j } else { i };
            if i == n || j == n {
                assert(neigh::<V, M>(m, o, n as int)); assert(checked[o] && !checked[n as int]);
                if o != this { let k = choose|k: int| 0 <= k < fr.len() && fr[k] == o as usize; assert(fr[k] as int == o); assert(side(flip, turn, fr[k] as int) == c); }
                assert(side(flip, turn, o) == c); assert(side(g, turn, o) == c);
            } else { assert(checked[i] && checked[j]); assert(side(flip, turn, i) == side(flip, turn, j)); }
        }
    }
}
/// as marked: turned around or as it was
pub open spec fn laid<V, M: IsMesh<V, Face3>>(m: M, r: M, i: int, x: bool) -> bool {
    let t = m.unit(i); let (a, b, c) = (t.a.0 as int, t.b.0 as int, t.c.0 as int);
    if x { is_face::<V, Face3, M>(r.unit(i), a, c, b) } else { is_face::<V, Face3, M>(r.unit(i), a, b, c) }
}
/// the first face is kept, and no two neighbours face away from each other if that is possible
pub open spec fn turned_by<V, M: IsMesh<V, Face3>>(m: M, r: M, flip: Seq<bool>) -> bool {
    &&& flip.len() == m.nf() && (m.nf() > 0 ==> !flip[0]) && forall|i: int| 0 <= i < m.nf() ==> #[trigger] laid::<V, M>(m, r, i, flip[i])
    &&& orientable::<V, M>(m) ==> agrees::<V, M>(m, flip)
}
pub open spec fn well_turned<V, M: IsMesh<V, Face3>>(m: M, r: M) -> bool { exists|flip: Seq<bool>| #[trigger] turned_by::<V, M>(m, r, flip) }
pub open spec fn unified<V, M: IsVertexEditableMesh<V, Face3>>(m: M, r: M) -> bool {
    &&& r.mwf() && r.ewf() && valid::<V, Face3, M>(r)
    &&& r.nv() == m.nv() && forall|i: int| 0 <= i < m.nv() ==> #[trigger] same_vert(m, r, i)
    &&& r.nf() == m.nf() && forall|i: int| 0 <= i < m.nf() ==> #[trigger] same_corners(m, r, i)
}
//@ freefn unify_faces
//@ replace `Vec::new()` => `Vec::<usize>::new()` ; the inferred type
//@ replace `bitvec![0; $1]` => `Bits::zeros($1)` ; the bitvec crate, see Bits
//@ replace `checked[$1]` => `checked.at($1)` ; as above
//@ replace `must_flip[$1]` => `must_flip.at($1)` ; as above
//@ replace `let [v1, v2, v3] = $1;` => `let (v1, v2, v3) = three($1);` ; array pattern, the trusted body of three
//@ replace `let [v1n, v2n, v3n] = $1;` => `let (v1n, v2n, v3n) = three($1);` ; as above
//@ replace `neighbour_buffer.iter()` => `values(&neighbour_buffer)` ; the trusted body of values
//@ ret r
//@ spec
    requires mesh.mwf(), valid::<P, Face3, M>(*mesh), plain::<P, M>(), steady::<P, M>(*mesh), 3 * mesh.nf() <= usize::MAX, M::ids_ok(mesh.nv()), forall|i: int| 0 <= i < mesh.nf() ==> proper(#[trigger] mesh.unit(i)),
        forall|m: M| #[trigger] call_ensures(M::default, (), m) ==> fresh(m),
    ensures r.is_ok(), unified(*mesh, r->Ok_0), well_turned::<P, M>(*mesh, r->Ok_0),
//@ start
    let ghost turn = choose|x: Seq<bool>| agrees::<P, M>(*mesh, x);
    let ghost mut c = false;
    proof { dot_symmetric(); neigh_symmetric::<P, M>(*mesh); }
//@ loop 0 inv
        invariant mesh.mwf(), valid::<P, Face3, M>(*mesh), plain::<P, M>(), steady::<P, M>(*mesh), n_f_total == mesh.nf(), faces_of(*mesh, v_to_f@, mesh.nf() as int), checked@.len() == n_f_total, must_flip@.len() == n_f_total,
            checked_lowest <= n_f_total, frontier@.len() == 0, closed_but::<P, M>(*mesh, checked@, Seq::<usize>::empty(), -1), settled::<P, M>(*mesh, checked@, must_flip@, turn), forall|k: int| 0 <= k < checked_lowest ==> #[trigger] checked@[k],
            n_f_total > 0 ==> !must_flip@[0],
        ensures checked_lowest == n_f_total,
        decreases n_f_total - checked_lowest
//@ loop 0 start
        let ghost low = checked_lowest;
        proof { assert(frontier@ =~= Seq::<usize>::empty()); }
//@ loop 1 inv
            invariant_except_break frontier@ == Seq::<usize>::empty(),
            invariant n_f_total == mesh.nf(), checked@.len() == n_f_total, must_flip@.len() == n_f_total, low <= checked_lowest <= n_f_total, low < n_f_total,
                closed_but::<P, M>(*mesh, checked@, frontier@, -1), settled::<P, M>(*mesh, checked@, must_flip@, turn), led::<P, M>(*mesh, checked@, must_flip@, turn, frontier@, c), forall|k: int| 0 <= k < checked_lowest ==> #[trigger] checked@[k],
            ensures checked_lowest > low,
            decreases n_f_total - checked_lowest
//@ loop 1 start
                proof { if !checked@[checked_lowest as int] { c = side(must_flip@, turn, checked_lowest as int); seed::<P, M>(*mesh, checked@, must_flip@, turn, checked_lowest); } }
//@ loop 2 before
        let ghost mut fr = frontier@;
//@ loop 2 inv
            invariant mesh.mwf(), valid::<P, Face3, M>(*mesh), plain::<P, M>(), steady::<P, M>(*mesh), n_f_total == mesh.nf(), faces_of(*mesh, v_to_f@, mesh.nf() as int), checked@.len() == n_f_total, must_flip@.len() == n_f_total,
                fr == frontier@, closed_but::<P, M>(*mesh, checked@, frontier@, -1), settled::<P, M>(*mesh, checked@, must_flip@, turn), led::<P, M>(*mesh, checked@, must_flip@, turn, frontier@, c), forall|k: int| 0 <= k < checked_lowest ==> #[trigger] checked@[k],
                0 < checked_lowest <= n_f_total, !must_flip@[0],
            ensures frontier@.len() == 0,
            decreases 2 * unset(checked@) + frontier@.len()
//@ loop 2 start
            let ghost m0 = 2 * unset(checked@) + frontier@.len();
            proof {
                assert(fr =~= frontier@.push(this)); assert(fr[frontier@.len() as int] == this);
                assert forall|k: int| 0 <= k < frontier@.len() implies #[trigger] frontier@[k] == fr[k] by { }
                assert forall|i: int, j: int| #[trigger] neigh::<P, M>(*mesh, i, j) && checked@[i] && !checked@[j] implies frontier@.contains(i as usize) || i == this by {
                    let k = choose|k: int| 0 <= k < fr.len() && fr[k] == i as usize; if k < frontier@.len() { assert(frontier@[k] == i as usize); }
                }
            }
//@ before `let [v1, v2, v3]`
            proof {
                assert forall|k: int| 0 <= k < neighbour_buffer@.len() implies #[trigger] neighbour_buffer@[k] < n_f_total && neigh::<P, M>(*mesh, this as int, neighbour_buffer@[k] as int) by { assert(neighbour_buffer@.contains(neighbour_buffer@[k])); }
                in_mesh::<P, M>(*mesh, this as int);
            }
            let ghost nb = neighbour_buffer@;
//@ loop 3 iter it
//@ loop 3 inv
                invariant mesh.mwf(), valid::<P, Face3, M>(*mesh), plain::<P, M>(), steady::<P, M>(*mesh), n_f_total == mesh.nf(), checked@.len() == n_f_total, must_flip@.len() == n_f_total, this < n_f_total, it.seq() == nb,
                    forall|k: int| 0 <= k < nb.len() ==> #[trigger] nb[k] < n_f_total && neigh::<P, M>(*mesh, this as int, nb[k] as int), forall|k: int| 0 <= k < it.index@ ==> checked@[(#[trigger] nb[k]) as int],
                    2 * unset(checked@) + frontier@.len() <= m0, n_this == facing::<P, M>(*mesh, this as int),
                    closed_but::<P, M>(*mesh, checked@, frontier@, this as int), settled::<P, M>(*mesh, checked@, must_flip@, turn), led::<P, M>(*mesh, checked@, must_flip@, turn, frontier@, c), forall|k: int| 0 <= k < checked_lowest ==> #[trigger] checked@[k],
                    checked@[this as int], agrees::<P, M>(*mesh, turn) ==> side(must_flip@, turn, this as int) == c, 0 < checked_lowest <= n_f_total, !must_flip@[0],
//@ loop 3 start
                let ghost (c0, f0, q0) = (checked@, must_flip@, frontier@);
                proof {
                    dot_symmetric(); assert(neighbour == nb[it.index@ as int]); in_mesh::<P, M>(*mesh, neighbour as int);
                    if !c0[neighbour as int] { adopt::<P, M>(*mesh, c0, f0, turn, q0, c, this, neighbour, f0[this as int] != apart::<P, M>(*mesh, this as int, neighbour as int)); }
                }
//@ loop 3 end
                proof {
                    if !c0[neighbour as int] { unset_less(c0, neighbour as int); assert(must_flip@ =~= f0.update(neighbour as int, f0[this as int] != apart::<P, M>(*mesh, this as int, neighbour as int))); }
                }
//@ loop 3 after
            proof {
                assert forall|i: int, j: int| #[trigger] neigh::<P, M>(*mesh, i, j) && checked@[i] && !checked@[j] implies frontier@.contains(i as usize) || i == -1 by {
                    if i == this && !frontier@.contains(i as usize) { neigh_symmetric::<P, M>(*mesh); assert(nb.contains(j as usize)); let k = choose|k: int| 0 <= k < nb.len() && nb[k] == j as usize; assert(checked@[nb[k] as int]); }
                }
                fr = frontier@;
            }
//@ loop 4 inv
        invariant mesh.mwf(), n_v_total == mesh.nv(), result.mwf(), result.ewf(), result.nf() == 0, result.nv() == i, forall|j: int| 0 <= j < i ==> #[trigger] same_vert(*mesh, result, j), valid::<P, Face3, M>(result),
//@ loop 4 start
        let ghost r0 = result;
//@ loop 4 end
        proof { grown_verts(*mesh, r0, result, i as int); }
//@ loop 5 inv
        invariant mesh.mwf(), valid::<P, Face3, M>(*mesh), plain::<P, M>(), n_v_total == mesh.nv(), n_f_total == mesh.nf(), M::ids_ok(mesh.nv()), must_flip@.len() == n_f_total, forall|i: int| 0 <= i < mesh.nf() ==> proper(#[trigger] mesh.unit(i)),
            result.mwf(), result.ewf(), result.nf() == i, result.nv() == mesh.nv(), forall|j: int| 0 <= j < mesh.nv() ==> #[trigger] same_vert(*mesh, result, j), valid::<P, Face3, M>(result),
            forall|j: int| 0 <= j < i ==> #[trigger] laid::<P, M>(*mesh, result, j, must_flip@[j]),
//@ loop 5 start
        let ghost r0 = result;
        proof { in_mesh::<P, M>(*mesh, i as int); }
//@ loop 5 end
        proof {
            grown_verts(*mesh, r0, result, mesh.nv() as int);
            assert forall|j: int| 0 <= j < i + 1 implies #[trigger] laid::<P, M>(*mesh, result, j, must_flip@[j]) by { if j < i { assert(laid::<P, M>(*mesh, r0, j, must_flip@[j])); assert(result.unit(j) == r0.unit(j)); } }
        }
//@ tail
    proof {
        assert forall|j: int| 0 <= j < mesh.nf() implies #[trigger] same_corners(*mesh, result, j) by { assert(laid::<P, M>(*mesh, result, j, must_flip@[j])); }
        if orientable::<P, M>(*mesh) {
            assert(agrees::<P, M>(*mesh, turn));
            assert forall|i: int, j: int| #[trigger] neigh::<P, M>(*mesh, i, j) implies apart::<P, M>(*mesh, i, j) == (must_flip@[i] != must_flip@[j]) by { assert(checked@[i] && checked@[j]); assert(side(must_flip@, turn, i) == side(must_flip@, turn, j)); }
        }
        assert(turned_by::<P, M>(*mesh, result, must_flip@)); assert(well_turned::<P, M>(*mesh, result));
    }
//@ enditem
} // verus!
fn main() {}


/// vertices and vertex values below n unchanged
pub open spec fn verts_kept<V, TU: IsTopologyUnit, M: IsMesh<V, TU>>(a: M, b: M) -> bool {
    forall|i: int, y: V| 0 <= i < a.nv() ==> b.vert(i, y) == a.vert(i, y)
}
pub open spec fn faces_kept<V, TU: IsTopologyUnit, M: IsMesh<V, TU>>(a: M, b: M) -> bool {
    forall|i: int| 0 <= i < a.nf() ==> #[trigger] b.unit(i) == a.unit(i)
}
/// every face refers to existing vertices
pub open spec fn valid<V, TU: IsTopologyUnit, M: IsMesh<V, TU>>(m: M) -> bool {
    forall|i: int, k: int| 0 <= i < m.nf() && 0 <= k < 3 ==> #[trigger] M::corner(m.unit(i), k) < m.nv()
}
pub open spec fn is_face<V, TU: IsTopologyUnit, M: IsMesh<V, TU>>(t: TU, a: int, b: int, c: int) -> bool {
    M::corner(t, 0) == a && M::corner(t, 1) == b && M::corner(t, 2) == c
}
pub proof fn kept_valid<V, TU: IsTopologyUnit, M: IsMesh<V, TU>>(a: M, b: M)
    requires faces_kept::<V, TU, M>(a, b), a.nv() <= b.nv(), forall|i: int, k: int| a.nf() <= i < b.nf() && 0 <= k < 3 ==> #[trigger] M::corner(b.unit(i), k) < b.nv(),
    ensures valid::<V, TU, M>(a) ==> valid::<V, TU, M>(b)
{
    if valid::<V, TU, M>(a) {
        assert forall|i: int, k: int| 0 <= i < b.nf() && 0 <= k < 3 implies #[trigger] M::corner(b.unit(i), k) < b.nv() by {
            if i < a.nf() { assert(b.unit(i) == a.unit(i)); assert(M::corner(a.unit(i), k) < a.nv()); }
        }
    }
}
pub proof fn kept_unit<V, TU: IsTopologyUnit, M: IsMesh<V, TU>>(a: M, b: M)
    requires faces_kept::<V, TU, M>(a, b)
    ensures forall|i: int| 0 <= i < a.nf() ==> #[trigger] a.unit(i) == b.unit(i)
{ assert forall|i: int| 0 <= i < a.nf() implies #[trigger] a.unit(i) == b.unit(i) by { assert(b.unit(i) == a.unit(i)); } }
//@ file src/is_vertex_editable_mesh.rs
//@ trait IsVertexEditableMesh
//@ ghost
    /// what editing needs beyond mwf
    spec fn ewf(&self) -> bool;
    spec fn vrep(x: V, y: V) -> bool;
//@ fn add_vertex
//@ ret r
//@ spec
        requires old(self).mwf(), old(self).ewf(),
        ensures final(self).mwf(), final(self).ewf(), r.0 == old(self).nv(), final(self).nv() == old(self).nv() + 1, final(self).nf() == old(self).nf(),
            faces_kept::<V, TU, Self>(*old(self), *final(self)), verts_kept::<V, TU, Self>(*old(self), *final(self)),
            forall|y: V| final(self).vert(r.0 as int, y) == Self::vrep(vertex, y),
            valid::<V, TU, Self>(*old(self)) ==> valid::<V, TU, Self>(*final(self)),
//@ fn change_vertex
//@ ret r
//@ spec
        requires old(self).mwf(), old(self).ewf(),
        ensures final(self).mwf(), final(self).ewf(), r.is_ok() == (vid.0 < old(self).nv()), final(self).nv() == old(self).nv(), final(self).nf() == old(self).nf(),
            faces_kept::<V, TU, Self>(*old(self), *final(self)),
            forall|i: int, y: V| 0 <= i < old(self).nv() && (r.is_err() || i != vid.0) ==> final(self).vert(i, y) == old(self).vert(i, y),
            r.is_ok() ==> forall|y: V| final(self).vert(vid.0 as int, y) == Self::vrep(vertex, y),
            valid::<V, TU, Self>(*old(self)) ==> valid::<V, TU, Self>(*final(self)),
//@ fn reserve_vertices
//@ spec
        requires old(self).mwf(), old(self).ewf(),
        ensures final(self).mwf(), final(self).ewf(), final(self).nv() == old(self).nv(), final(self).nf() == old(self).nf(),
            faces_kept::<V, TU, Self>(*old(self), *final(self)), verts_kept::<V, TU, Self>(*old(self), *final(self)),
//@ enditem
//@ file src/is_face_editable_mesh.rs
//@ trait IsFaceEditableMesh
//@ header pub trait IsFaceEditableMesh<V, TU>: IsVertexEditableMesh<V, TU> where TU: IsTopologyUnit
//@ ghost
    /// ids below n can be stored
    spec fn ids_ok(n: nat) -> bool;
//@ fn add_face
//@ ret r
//@ spec
        requires old(self).mwf(), old(self).ewf(), Self::ids_ok(old(self).nv() + 3),
        ensures final(self).mwf(), final(self).ewf(), r.0 == old(self).nf(), final(self).nf() == old(self).nf() + 1, final(self).nv() == old(self).nv() + 3,
            faces_kept::<V, TU, Self>(*old(self), *final(self)), verts_kept::<V, TU, Self>(*old(self), *final(self)),
            is_face::<V, TU, Self>(final(self).unit(r.0 as int), old(self).nv() as int, (old(self).nv() + 1) as int, (old(self).nv() + 2) as int),
            forall|y: V| final(self).vert(old(self).nv() as int, y) == Self::vrep(v1, y),
            forall|y: V| final(self).vert((old(self).nv() + 1) as int, y) == Self::vrep(v2, y),
            forall|y: V| final(self).vert((old(self).nv() + 2) as int, y) == Self::vrep(v3, y),
            valid::<V, TU, Self>(*old(self)) ==> valid::<V, TU, Self>(*final(self)),
//@ fn try_add_connection
//@ ret r
//@ spec
        requires old(self).mwf(), old(self).ewf(), Self::ids_ok(old(self).nv()),
        ensures final(self).mwf(), final(self).ewf(),
            r.is_ok() == (vid1.0 < old(self).nv() && vid2.0 < old(self).nv() && vid3.0 < old(self).nv() && vid1 != vid2 && vid1 != vid3 && vid2 != vid3),
            final(self).nv() == old(self).nv(), verts_kept::<V, TU, Self>(*old(self), *final(self)), faces_kept::<V, TU, Self>(*old(self), *final(self)),
            r.is_err() ==> final(self).nf() == old(self).nf(),
            r.is_ok() ==> r->Ok_0.0 == old(self).nf() && final(self).nf() == old(self).nf() + 1
                && is_face::<V, TU, Self>(final(self).unit(r->Ok_0.0 as int), vid1.0 as int, vid2.0 as int, vid3.0 as int),
            valid::<V, TU, Self>(*old(self)) ==> valid::<V, TU, Self>(*final(self)),
//@ fn reserve_faces
//@ spec
        requires old(self).mwf(), old(self).ewf(), 3 * n <= usize::MAX,
        ensures final(self).mwf(), final(self).ewf(), final(self).nv() == old(self).nv(), final(self).nf() == old(self).nf(),
            faces_kept::<V, TU, Self>(*old(self), *final(self)), verts_kept::<V, TU, Self>(*old(self), *final(self)),
//@ enditem

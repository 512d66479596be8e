/// `let [a, b, c] = v;`
#[verifier::external_body]
pub fn three<V>(v: [V; 3]) -> (r: (V, V, V)) ensures r.0 == v[0], r.1 == v[1], r.2 == v[2] { let [a, b, c] = v; (a, b, c) }
/// the ids of faces are their corners
pub open spec fn plain<V, M: IsMesh<V, Face3>>() -> bool { forall|t: Face3| #[trigger] M::corner(t, 0) == t.a.0 && M::corner(t, 1) == t.b.0 && M::corner(t, 2) == t.c.0 }
/// the corners of a face exist
pub proof fn in_mesh<V, M: IsMesh<V, Face3>>(m: M, i: int)
    requires plain::<V, M>(), valid::<V, Face3, M>(m), 0 <= i < m.nf()
    ensures ({ let t = m.unit(i); M::corner(t, 0) == t.a.0 && M::corner(t, 1) == t.b.0 && M::corner(t, 2) == t.c.0 && t.a.0 < m.nv() && t.b.0 < m.nv() && t.c.0 < m.nv() })
{
    let t = m.unit(i);
    assert(M::corner(t, 0) == t.a.0);
    assert(M::corner(m.unit(i), 0) < m.nv() && M::corner(m.unit(i), 1) < m.nv() && M::corner(m.unit(i), 2) < m.nv());
}
pub open spec fn proper(t: Face3) -> bool { t.a != t.b && t.a != t.c && t.b != t.c }
/// vertex i of mo is vertex i of mi
pub open spec fn same_vert<V, MI: IsMesh<V, Face3>, MO: IsVertexEditableMesh<V, Face3>>(mi: MI, mo: MO, i: int) -> bool {
    exists|x: V| #[trigger] mi.vert(i, x) && forall|v: V| #[trigger] mo.vert(i, v) == MO::vrep(x, v)
}
pub open spec fn fresh<V, M: IsVertexEditableMesh<V, Face3>>(m: M) -> bool { m.mwf() && m.ewf() && m.nv() == 0 && m.nf() == 0 }
/// what was there in a mesh is still there in one with more
pub open spec fn grown<V, M: IsMesh<V, Face3>>(a: M, b: M) -> bool { a.nv() <= b.nv() && a.nf() <= b.nf() && verts_kept::<V, Face3, M>(a, b) && faces_kept::<V, Face3, M>(a, b) }
pub proof fn grown_verts<V, MI: IsMesh<V, Face3>, MO: IsVertexEditableMesh<V, Face3>>(mi: MI, a: MO, b: MO, n: int)
    requires grown(a, b), n <= a.nv(), forall|i: int| 0 <= i < n ==> #[trigger] same_vert(mi, a, i)
    ensures forall|i: int| 0 <= i < n ==> #[trigger] same_vert(mi, b, i)
{
    assert forall|i: int| 0 <= i < n implies #[trigger] same_vert(mi, b, i) by {
        assert(same_vert(mi, a, i));
        let x = choose|x: V| #[trigger] mi.vert(i, x) && forall|v: V| #[trigger] a.vert(i, v) == MO::vrep(x, v);
        assert forall|v: V| #[trigger] b.vert(i, v) == MO::vrep(x, v) by { assert(b.vert(i, v) == a.vert(i, v)); }
    }
}

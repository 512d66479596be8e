/// what a mesh file lists
pub enum Part { Vertex(V3), Face(int, int, int) }
pub open spec fn vertices(s: Seq<Part>) -> Seq<V3> decreases s.len() { if s.len() == 0 { Seq::empty() } else if s.last() is Vertex { vertices(s.drop_last()).push(s.last()->Vertex_0) } else { vertices(s.drop_last()) } }
pub open spec fn faces(s: Seq<Part>) -> Seq<(int, int, int)> decreases s.len() { if s.len() == 0 { Seq::empty() } else if s.last() is Face { faces(s.drop_last()).push((s.last()->Face_0, s.last()->Face_1, s.last()->Face_2)) } else { faces(s.drop_last()) } }
/// three different ids below n
pub open spec fn face_ok(p: Part, n: int) -> bool { p is Face ==> 0 <= p->Face_0 < n && 0 <= p->Face_1 < n && 0 <= p->Face_2 < n && p->Face_0 != p->Face_1 && p->Face_0 != p->Face_2 && p->Face_1 != p->Face_2 }
/// every face refers to three different vertices listed before it, or among the n that were there
pub open spec fn sound(s: Seq<Part>, n: nat) -> bool decreases s.len() { s.len() == 0 || (sound(s.drop_last(), n) && face_ok(s.last(), (n + vertices(s.drop_last()).len()) as int)) }
pub proof fn unsound(s: Seq<Part>, n: nat, k: int) requires 0 <= k <= s.len(), !sound(s.take(k), n) ensures !sound(s, n) decreases s.len() {
    if k < s.len() { assert(s.drop_last().take(k) == s.take(k)); unsound(s.drop_last(), n, k); } else { assert(s.take(k) == s); }
}
pub proof fn listed_len(s: Seq<Part>) ensures vertices(s).len() <= s.len(), faces(s).len() <= s.len() decreases s.len() { if s.len() > 0 { listed_len(s.drop_last()); } }
/// vertex i has been built from these coordinates
pub open spec fn is_vertex<P: Coords, M: IsVertexEditableMesh<P, Face3>>(m: M, i: int, v: V3) -> bool { exists|p: P| v3(p, v) && (forall|y: P| m.vert(i, y) == #[trigger] M::vrep(p, y)) }
/// b is a and the vertices and faces of s, in order
#[verifier::opaque]
pub open spec fn built<P: Coords, M: IsVertexEditableMesh<P, Face3>>(a: M, b: M, s: Seq<Part>) -> bool {
    verts_kept::<P, Face3, M>(a, b) && faces_kept::<P, Face3, M>(a, b) && b.nv() == a.nv() + vertices(s).len() && b.nf() == a.nf() + faces(s).len()
        && (forall|i: int| a.nv() <= i < b.nv() ==> #[trigger] is_vertex::<P, M>(b, i, vertices(s)[i - a.nv()]))
        && (forall|i: int| a.nf() <= i < b.nf() ==> is_face::<P, Face3, M>(#[trigger] b.unit(i), faces(s)[i - a.nf()].0, faces(s)[i - a.nf()].1, faces(s)[i - a.nf()].2))
}
pub proof fn built_same<P: Coords, M: IsVertexEditableMesh<P, Face3>>(a: M, b: M, c: M, s: Seq<Part>)
    requires built::<P, M>(a, b, s), verts_kept::<P, Face3, M>(b, c), faces_kept::<P, Face3, M>(b, c), c.nv() == b.nv(), c.nf() == b.nf(),
    ensures built::<P, M>(a, c, s),
{
    reveal(built); kept_unit::<P, Face3, M>(b, c); kept_unit::<P, Face3, M>(a, b);
    assert forall|i: int| a.nv() <= i < c.nv() implies #[trigger] is_vertex::<P, M>(c, i, vertices(s)[i - a.nv()]) by { old_vertex::<P, M>(b, c, i, vertices(s)[i - a.nv()]); }
    assert forall|i: int| a.nf() <= i < c.nf() implies is_face::<P, Face3, M>(#[trigger] c.unit(i), faces(s)[i - a.nf()].0, faces(s)[i - a.nf()].1, faces(s)[i - a.nf()].2) by { assert(c.unit(i) == b.unit(i)); }
    assert forall|i: int| 0 <= i < a.nf() implies #[trigger] c.unit(i) == a.unit(i) by { assert(b.unit(i) == a.unit(i)); }
}
/// nothing was added between a and b
pub proof fn built_from<P: Coords, M: IsVertexEditableMesh<P, Face3>>(a: M, b: M, c: M, s: Seq<Part>)
    requires verts_kept::<P, Face3, M>(a, b), faces_kept::<P, Face3, M>(a, b), b.nv() == a.nv(), b.nf() == a.nf(), built::<P, M>(b, c, s),
    ensures built::<P, M>(a, c, s),
{
    reveal(built); kept_unit::<P, Face3, M>(a, b); kept_unit::<P, Face3, M>(b, c);
    assert forall|i: int| 0 <= i < a.nf() implies #[trigger] c.unit(i) == a.unit(i) by { assert(b.unit(i) == a.unit(i)); }
}
proof fn old_vertex<P: Coords, M: IsVertexEditableMesh<P, Face3>>(b: M, c: M, i: int, v: V3)
    requires 0 <= i < b.nv(), verts_kept::<P, Face3, M>(b, c), is_vertex::<P, M>(b, i, v) ensures is_vertex::<P, M>(c, i, v)
{
    let p = choose|p: P| v3(p, v) && (forall|y: P| b.vert(i, y) == #[trigger] M::vrep(p, y));
    assert forall|y: P| c.vert(i, y) == #[trigger] M::vrep(p, y) by { assert(c.vert(i, y) == b.vert(i, y)); }
}
pub proof fn built_vertex<P: Coords, M: IsVertexEditableMesh<P, Face3>>(a: M, b: M, c: M, s: Seq<Part>, v: V3, p: P)
    requires built::<P, M>(a, b, s), verts_kept::<P, Face3, M>(b, c), faces_kept::<P, Face3, M>(b, c), c.nv() == b.nv() + 1, c.nf() == b.nf(), v3(p, v), forall|y: P| c.vert(b.nv() as int, y) == M::vrep(p, y),
    ensures built::<P, M>(a, c, s.push(Part::Vertex(v))),
{
    reveal(built);
    let t = s.push(Part::Vertex(v));
    assert(t.drop_last() == s);
    kept_unit::<P, Face3, M>(b, c);
    assert forall|i: int| a.nv() <= i < c.nv() implies #[trigger] is_vertex::<P, M>(c, i, vertices(t)[i - a.nv()]) by {
        if i < b.nv() { assert(is_vertex::<P, M>(b, i, vertices(s)[i - a.nv()])); old_vertex::<P, M>(b, c, i, vertices(s)[i - a.nv()]); }
        else { assert forall|y: P| c.vert(i, y) == #[trigger] M::vrep(p, y) by { } }
    }
    assert forall|i: int| a.nf() <= i < c.nf() implies is_face::<P, Face3, M>(#[trigger] c.unit(i), faces(t)[i - a.nf()].0, faces(t)[i - a.nf()].1, faces(t)[i - a.nf()].2) by { assert(c.unit(i) == b.unit(i)); }
    assert forall|i: int| 0 <= i < a.nf() implies #[trigger] c.unit(i) == a.unit(i) by { assert(b.unit(i) == a.unit(i)); }
}
pub proof fn built_face<P: Coords, M: IsVertexEditableMesh<P, Face3>>(a: M, b: M, c: M, s: Seq<Part>, x: int, y: int, z: int)
    requires built::<P, M>(a, b, s), verts_kept::<P, Face3, M>(b, c), faces_kept::<P, Face3, M>(b, c), c.nv() == b.nv(), c.nf() == b.nf() + 1, is_face::<P, Face3, M>(c.unit(b.nf() as int), x, y, z),
    ensures built::<P, M>(a, c, s.push(Part::Face(x, y, z))),
{
    reveal(built);
    let t = s.push(Part::Face(x, y, z));
    assert(t.drop_last() == s);
    kept_unit::<P, Face3, M>(b, c);
    assert forall|i: int| a.nv() <= i < c.nv() implies #[trigger] is_vertex::<P, M>(c, i, vertices(t)[i - a.nv()]) by { assert(is_vertex::<P, M>(b, i, vertices(s)[i - a.nv()])); old_vertex::<P, M>(b, c, i, vertices(s)[i - a.nv()]); }
    assert forall|i: int| a.nf() <= i < c.nf() implies is_face::<P, Face3, M>(#[trigger] c.unit(i), faces(t)[i - a.nf()].0, faces(t)[i - a.nf()].1, faces(t)[i - a.nf()].2) by { if i < b.nf() { assert(c.unit(i) == b.unit(i)); } }
    assert forall|i: int| 0 <= i < a.nf() implies #[trigger] c.unit(i) == a.unit(i) by { assert(b.unit(i) == a.unit(i)); }
}
/// three vertices and a face of them at once
pub proof fn built_three<P: Coords, M: IsVertexEditableMesh<P, Face3>>(a: M, b: M, c: M, s: Seq<Part>, v1: V3, v2: V3, v3_: V3, p1: P, p2: P, p3: P)
    requires built::<P, M>(a, b, s), verts_kept::<P, Face3, M>(b, c), faces_kept::<P, Face3, M>(b, c), c.nv() == b.nv() + 3, c.nf() == b.nf() + 1, v3(p1, v1), v3(p2, v2), v3(p3, v3_),
        forall|y: P| c.vert(b.nv() as int, y) == M::vrep(p1, y), forall|y: P| c.vert((b.nv() + 1) as int, y) == M::vrep(p2, y), forall|y: P| c.vert((b.nv() + 2) as int, y) == M::vrep(p3, y),
        is_face::<P, Face3, M>(c.unit(b.nf() as int), b.nv() as int, (b.nv() + 1) as int, (b.nv() + 2) as int),
    ensures built::<P, M>(a, c, s.push(Part::Vertex(v1)).push(Part::Vertex(v2)).push(Part::Vertex(v3_)).push(Part::Face(b.nv() as int, (b.nv() + 1) as int, (b.nv() + 2) as int))),
{
    reveal(built);
    let t1 = s.push(Part::Vertex(v1)); let t2 = t1.push(Part::Vertex(v2)); let t3 = t2.push(Part::Vertex(v3_)); let t = t3.push(Part::Face(b.nv() as int, (b.nv() + 1) as int, (b.nv() + 2) as int));
    assert(t1.drop_last() == s); assert(t2.drop_last() == t1); assert(t3.drop_last() == t2); assert(t.drop_last() == t3);
    kept_unit::<P, Face3, M>(b, c);
    let vs = vertices(s);
    assert(vertices(t1) == vs.push(v1)); assert(vertices(t2) == vertices(t1).push(v2)); assert(vertices(t3) == vertices(t2).push(v3_)); assert(vertices(t) == vertices(t3));
    assert(faces(t1) == faces(s)); assert(faces(t2) == faces(t1)); assert(faces(t3) == faces(t2));
    assert(vertices(t) == vs.push(v1).push(v2).push(v3_));
    assert(faces(t) == faces(s).push((b.nv() as int, (b.nv() + 1) as int, (b.nv() + 2) as int)));
    assert forall|i: int| a.nv() <= i < c.nv() implies #[trigger] is_vertex::<P, M>(c, i, vertices(t)[i - a.nv()]) by {
        if i < b.nv() { assert(is_vertex::<P, M>(b, i, vs[i - a.nv()])); old_vertex::<P, M>(b, c, i, vs[i - a.nv()]); }
        else if i == b.nv() { assert forall|y: P| c.vert(i, y) == #[trigger] M::vrep(p1, y) by { } }
        else if i == b.nv() + 1 { assert forall|y: P| c.vert(i, y) == #[trigger] M::vrep(p2, y) by { } }
        else { assert forall|y: P| c.vert(i, y) == #[trigger] M::vrep(p3, y) by { } }
    }
    assert forall|i: int| a.nf() <= i < c.nf() implies is_face::<P, Face3, M>(#[trigger] c.unit(i), faces(t)[i - a.nf()].0, faces(t)[i - a.nf()].1, faces(t)[i - a.nf()].2) by { if i < b.nf() { assert(c.unit(i) == b.unit(i)); } }
    assert forall|i: int| 0 <= i < a.nf() implies #[trigger] c.unit(i) == a.unit(i) by { assert(b.unit(i) == a.unit(i)); }
}
/// of all, everything but left has been put into the mesh
#[verifier::opaque]
pub open spec fn meshed<P: Coords, M: IsVertexEditableMesh<P, Face3>>(a: M, b: M, all: (Seq<Part>, bool), left: (Seq<Part>, bool)) -> bool {
    let n = all.0.len() - left.0.len();
    n >= 0 && left.1 == all.1 && left.0 == all.0.skip(n) && built::<P, M>(a, b, all.0.take(n)) && sound(all.0.take(n), a.nv()) && b.nv() == a.nv() + vertices(all.0.take(n)).len()
}
pub proof fn meshed_start<P: Coords, M: IsVertexEditableMesh<P, Face3>>(a: M, all: (Seq<Part>, bool)) ensures meshed::<P, M>(a, a, all, all)
{ reveal(meshed); reveal(built); assert(all.0.skip(0) == all.0); assert(all.0.take(0).len() == 0); }
pub proof fn meshed_end<P: Coords, M: IsVertexEditableMesh<P, Face3>>(a: M, b: M, all: (Seq<Part>, bool), left: (Seq<Part>, bool))
    requires meshed::<P, M>(a, b, all, left), left.0.len() == 0 ensures built::<P, M>(a, b, all.0), sound(all.0, a.nv()), left.1 == all.1
{ reveal(meshed); assert(all.0.take(all.0.len() as int) == all.0); }
pub proof fn meshed_nv<P: Coords, M: IsVertexEditableMesh<P, Face3>>(a: M, b: M, all: (Seq<Part>, bool), left: (Seq<Part>, bool))
    requires meshed::<P, M>(a, b, all, left) ensures b.nv() <= a.nv() + all.0.len()
{ reveal(meshed); listed_len(all.0.take(all.0.len() - left.0.len())); }
pub proof fn meshed_same<P: Coords, M: IsVertexEditableMesh<P, Face3>>(a: M, b: M, c: M, all: (Seq<Part>, bool), left: (Seq<Part>, bool))
    requires meshed::<P, M>(a, b, all, left), verts_kept::<P, Face3, M>(b, c), faces_kept::<P, Face3, M>(b, c), c.nv() == b.nv(), c.nf() == b.nf(), ensures meshed::<P, M>(a, c, all, left)
{ reveal(meshed); built_same::<P, M>(a, b, c, all.0.take(all.0.len() - left.0.len())); }
/// the next part: a vertex
pub proof fn meshed_vertex<P: Coords, M: IsVertexEditableMesh<P, Face3>>(a: M, b: M, c: M, p: P, all: (Seq<Part>, bool), left: (Seq<Part>, bool), next: (Seq<Part>, bool))
    requires meshed::<P, M>(a, b, all, left), left.0.len() > 0, left.0[0] is Vertex, v3(p, left.0[0]->Vertex_0), next == (left.0.skip(1), left.1),
        verts_kept::<P, Face3, M>(b, c), faces_kept::<P, Face3, M>(b, c), c.nv() == b.nv() + 1, c.nf() == b.nf(), forall|y: P| c.vert(b.nv() as int, y) == M::vrep(p, y),
    ensures meshed::<P, M>(a, c, all, next), next.0.len() < left.0.len(),
{
    reveal(meshed);
    let n = all.0.len() - left.0.len();
    let s = all.0.take(n);
    assert(all.0.take(n + 1) == s.push(left.0[0]));
    assert(s.push(left.0[0]).drop_last() == s);
    assert(next.0 == all.0.skip(n + 1));
    built_vertex::<P, M>(a, b, c, s, left.0[0]->Vertex_0, p);
}
/// the next part: a face
pub proof fn meshed_face<P: Coords, M: IsVertexEditableMesh<P, Face3>>(a: M, b: M, c: M, all: (Seq<Part>, bool), left: (Seq<Part>, bool), next: (Seq<Part>, bool))
    requires meshed::<P, M>(a, b, all, left), left.0.len() > 0, left.0[0] is Face, next == (left.0.skip(1), left.1), face_ok(left.0[0], b.nv() as int),
        verts_kept::<P, Face3, M>(b, c), faces_kept::<P, Face3, M>(b, c), c.nv() == b.nv(), c.nf() == b.nf() + 1,
        is_face::<P, Face3, M>(c.unit(b.nf() as int), left.0[0]->Face_0, left.0[0]->Face_1, left.0[0]->Face_2),
    ensures meshed::<P, M>(a, c, all, next), next.0.len() < left.0.len(),
{
    reveal(meshed);
    let n = all.0.len() - left.0.len();
    let s = all.0.take(n);
    assert(all.0.take(n + 1) == s.push(left.0[0]));
    assert(s.push(left.0[0]).drop_last() == s);
    assert(next.0 == all.0.skip(n + 1));
    built_face::<P, M>(a, b, c, s, left.0[0]->Face_0, left.0[0]->Face_1, left.0[0]->Face_2);
}
/// the next part: a face of vertices that are not there
pub proof fn meshed_unsound<P: Coords, M: IsVertexEditableMesh<P, Face3>>(a: M, b: M, all: (Seq<Part>, bool), left: (Seq<Part>, bool))
    requires meshed::<P, M>(a, b, all, left), left.0.len() > 0, !face_ok(left.0[0], b.nv() as int)
    ensures !sound(all.0, a.nv())
{
    reveal(meshed);
    let n = all.0.len() - left.0.len();
    assert(all.0.take(n + 1) == all.0.take(n).push(left.0[0]));
    assert(all.0.take(n).push(left.0[0]).drop_last() == all.0.take(n));
    unsound(all.0, a.nv(), n + 1);
}

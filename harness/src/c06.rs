use crate::Src;
use rust_3d::*;

struct Topo {
    nv: usize,
    fs: Vec<[usize; 3]>,
}
impl Topo {
    fn ne(&self) -> usize {
        self.fs.len() * 3
    }
    fn tail(&self, e: usize) -> usize {
        self.fs[e / 3][e % 3]
    }
    fn next(&self, e: usize) -> usize {
        e / 3 * 3 + (e % 3 + 1) % 3
    }
    fn prev(&self, e: usize) -> usize {
        e / 3 * 3 + (e % 3 + 2) % 3
    }
    fn head(&self, e: usize) -> usize {
        self.tail(self.next(e))
    }
    fn is_twin(&self, a: usize, b: usize) -> bool {
        self.tail(a) == self.head(b) && self.head(a) == self.tail(b)
    }
}
fn topo<S: Src>(s: &mut S) -> Topo {
    let nv = s.below(7) + 1;
    let mut fs: Vec<[usize; 3]> = vec![];
    for _ in 0..s.below(7) {
        // often the neighbour of an earlier face, either orientation
        if !fs.is_empty() && s.below(2) == 0 {
            let f = fs[s.below(fs.len())];
            let k = s.below(3);
            let (a, b, c) = (f[k], f[(k + 1) % 3], s.below(nv));
            let f = if s.below(4) == 0 { [a, b, c] } else { [b, a, c] };
            let r = s.below(3);
            fs.push([f[r], f[(r + 1) % 3], f[(r + 2) % 3]]);
        } else {
            fs.push([s.below(nv), s.below(nv), s.below(nv)]);
        }
    }
    Topo { nv, fs }
}
fn mesh<IC: IsIndexContainer>(t: &Topo) -> Mesh3D<Point3D, Vec<Point3D>, IC> {
    let vs: Vec<Point3D> = (0..t.nv).map(|i| Point3D { x: i as f64, y: 0.0, z: 0.0 }).collect();
    let mut topo = IC::with_support_for(t.nv);
    for f in t.fs.iter() {
        for k in 0..3 {
            topo.push(f[k])
        }
    }
    (vs, topo).into()
}
fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}
fn check<S: Src, IC: IsIndexContainer>(s: &mut S, t: &Topo) {
    let m = mesh::<IC>(t);
    let he: HalfEdge<IC> = HalfEdge::new(&m);
    let (ne, nv) = (t.ne(), t.nv);
    for e in 0..ne {
        let id = EId(e);
        s.ck(he.tail(id) == Some(VId(t.tail(e))), "tail of an edge");
        s.ck(he.next(id) == Some(EId(t.next(e))), "next edge");
        s.ck(he.prev(id) == Some(EId(t.prev(e))), "previous edge");
        s.ck(he.face(id) == Some(FId(e / 3)), "face of an edge");
        s.ck(he.ensure_edge_id(id).is_ok(), "existing edge id is accepted");
        match he.twin(id) {
            Some(b) => s.ck(b.0 < ne && t.is_twin(e, b.0), "the twin runs between the same vertices in opposite direction"),
            None => s.ck((0..ne).all(|b| !t.is_twin(e, b)), "the twin exists whenever there is an opposite edge"),
        }
    }
    for e in [ne, ne + 1, ne + 2, usize::MAX, usize::MAX - 1, usize::MAX / 3] {
        let id = EId(e);
        s.ck(he.tail(id).is_none() && he.next(id).is_none() && he.prev(id).is_none() && he.face(id).is_none() && he.twin(id).is_none(), "edges that do not exist give None");
        s.ck(he.ensure_edge_id(id).is_err(), "edges that do not exist are rejected");
    }
    let pre = s.below(2);
    for v in 0..nv {
        let mut cache = vec![EId(7777); s.below(2)];
        let o: Vec<usize> = (0..ne).filter(|e| t.tail(*e) == v).collect();
        let i: Vec<usize> = (0..ne).filter(|e| t.head(*e) == v).collect();
        let start = vec![EId(9999); pre];
        let mut want = start.clone();
        want.extend(o[..].iter().map(|x| EId(*x)));
        let mut r = start.clone();
        s.ck(he.edges_originating(VId(v), &mut r).is_ok() && sorted(r) == sorted(want.clone()), "edges originating from a vertex");
        let mut wi = start.clone();
        wi.extend(i[..].iter().map(|x| EId(*x)));
        let mut r = start.clone();
        s.ck(he.edges_ending(VId(v), &mut cache, &mut r).is_ok() && sorted(r) == sorted(wi), "edges ending in a vertex");
        let mut wa = want.clone();
        wa.extend(i[..].iter().map(|x| EId(*x)));
        let mut r = start.clone();
        s.ck(he.edges_all(VId(v), &mut cache, &mut r).is_ok() && sorted(r) == sorted(wa), "edges connected to a vertex");
        let mut wf = vec![FId(9999); pre];
        wf.extend(o[..].iter().map(|x| FId(*x / 3)));
        let mut r = vec![FId(9999); pre];
        s.ck(he.faces(VId(v), &mut cache, &mut r).is_ok() && sorted(r) == sorted(wf), "faces of a vertex");
        s.ck(he.ensure_vertex_id(VId(v)).is_ok(), "existing vertex id is accepted");
    }
    for v in [nv, nv + 1, usize::MAX] {
        let (mut c, mut r, mut f) = (vec![], vec![], vec![]);
        let bad = he.edges_originating(VId(v), &mut r).is_err()
            && he.edges_ending(VId(v), &mut c, &mut r).is_err()
            && he.edges_all(VId(v), &mut c, &mut r).is_err()
            && he.faces(VId(v), &mut c, &mut f).is_err()
            && he.ensure_vertex_id(VId(v)).is_err();
        s.ck(bad && r.is_empty() && f.is_empty(), "vertices that do not exist give an error");
    }
    // the searchable mesh answers like its half edges
    let mut sm: SearchableMesh<Mesh3D<Point3D, Vec<Point3D>, IC>, Point3D, IC> = SearchableMesh::new(m);
    s.ck(sm.num_edges() == ne && sm.num_faces() == t.fs.len() && sm.num_vertices() == nv, "sizes of the searchable mesh");
    for e in 0..ne + 2 {
        let id = EId(e);
        let ok = e < ne;
        s.ck(sm.edge_tail(id) == if ok { Some(VId(t.tail(e))) } else { None }, "edge_tail");
        s.ck(sm.edge_head(id) == if ok { Some(VId(t.head(e))) } else { None }, "edge_head");
        s.ck(sm.edge_next(id) == if ok { Some(EId(t.next(e))) } else { None }, "edge_next");
        s.ck(sm.edge_prev(id) == if ok { Some(EId(t.prev(e))) } else { None }, "edge_prev");
        s.ck(sm.edge_face(id) == if ok { Some(FId(e / 3)) } else { None }, "edge_face");
        s.ck(sm.edge_twin(id) == he.twin(id), "edge_twin");
    }
    for f in 0..t.fs.len() + 2 {
        let id = FId(f);
        let ok = f < t.fs.len();
        s.ck(sm.edges_of_face(id) == if ok { Some((EId(3 * f), EId(3 * f + 1), EId(3 * f + 2))) } else { None }, "edges_of_face");
        s.ck(sm.ensure_face_id(id).is_ok() == ok, "ensure_face_id");
        s.ck(sm.face_vertex_ids(id) == if ok { Some(Face3::new(VId(t.fs[f][0]), VId(t.fs[f][1]), VId(t.fs[f][2]))) } else { None }, "face_vertex_ids of the searchable mesh");
        let mut r = vec![];
        let res = sm.face_edge_neighbours(id, &mut r);
        s.ck(res.is_ok() == ok, "face_edge_neighbours fails exactly for faces that do not exist");
        if ok {
            let w: Vec<FId> = (3 * f..3 * f + 3).filter_map(|e| he.twin(EId(e)).map(|x| FId(x.0 / 3))).collect();
            s.ck(sorted(r) == sorted(w), "faces sharing an edge");
        }
        let mut r = vec![];
        let res = sm.face_vertex_neighbours(id, &mut vec![], &mut r);
        s.ck(res.is_ok() == ok, "face_vertex_neighbours fails exactly for faces that do not exist");
        if ok {
            let w: Vec<FId> = (0..t.fs.len()).filter(|g| t.fs[*g].iter().any(|v| t.fs[f].contains(v))).map(FId).collect();
            s.ck(r == w, "faces sharing a vertex, sorted and without duplicates");
        }
    }
    for v in 0..nv + 2 {
        let ok = v < nv;
        let (mut c, mut a, mut b) = (vec![EId(5)], vec![], vec![]);
        let mut f1 = vec![];
        let mut f2 = vec![];
        s.ck(sm.faces_of_vertex(VId(v), &mut c, &mut f1).is_ok() == ok && he.faces(VId(v), &mut c, &mut f2).is_ok() == ok && sorted(f1) == sorted(f2), "faces_of_vertex");
        s.ck(sm.edges_originating_from_vertex(VId(v), &mut a).is_ok() == ok && he.edges_originating(VId(v), &mut b).is_ok() == ok && sorted(a) == sorted(b), "edges_originating_from_vertex");
        let (mut a, mut b) = (vec![], vec![]);
        s.ck(sm.edges_ending_at_vertex(VId(v), &mut c, &mut a).is_ok() == ok && he.edges_ending(VId(v), &mut c, &mut b).is_ok() == ok && sorted(a) == sorted(b), "edges_ending_at_vertex");
        let (mut a, mut b) = (vec![], vec![]);
        s.ck(sm.edges_of_vertex(VId(v), &mut c, &mut a).is_ok() == ok && he.edges_all(VId(v), &mut c, &mut b).is_ok() == ok && sorted(a) == sorted(b), "edges_of_vertex");
    }
    // vertices may be added and changed, the faces stay
    sm.reserve_vertices(3);
    let more = s.below(3);
    for k in 0..more {
        s.ck(sm.add_vertex(Point3D::new(k as f64, -7.0, 0.5)) == VId(nv + k), "searchable mesh: a vertex is added at the end");
        if nv + k > 0 {
            let i = s.below(nv + k + 1);
            s.ck(sm.change_vertex(VId(i), Point3D::new(1.5, i as f64, 2.0)).is_ok(), "searchable mesh: existing vertices can be changed");
            s.ck(sm.vertex(VId(i)) == Some(Point3D::new(1.5, i as f64, 2.0)), "searchable mesh: a changed vertex is reported");
        }
        s.ck(sm.change_vertex(VId(nv + k + 1), Point3D::default()).is_err(), "searchable mesh: unknown vertices can not be changed");
    }
    s.ck(sm.num_vertices() == nv + more && sm.num_faces() == t.fs.len(), "searchable mesh: sizes after adding vertices");
    for v in 0..nv + more + 2 {
        let ok = v < nv + more;
        let (mut c, mut a, mut b, mut f) = (vec![EId(5)], vec![], vec![], vec![]);
        if v < nv { let _ = he.edges_originating(VId(v), &mut b); }
        s.ck(sm.edges_originating_from_vertex(VId(v), &mut a).is_ok() == ok && sorted(a) == sorted(b.clone()), "searchable mesh: edges of the vertices after adding vertices");
        s.ck(sm.faces_of_vertex(VId(v), &mut c, &mut f).is_ok() == ok && f.len() == b.len(), "searchable mesh: faces of the vertices after adding vertices");
    }
    for e in 0..ne { s.ck(sm.edge_twin(EId(e)) == he.twin(EId(e)) && sm.edge_tail(EId(e)) == Some(VId(t.tail(e))), "searchable mesh: edges after adding vertices"); }
}
pub fn half_edge_vec<S: Src>(s: &mut S) {
    let t = topo(s);
    check::<S, Vec<usize>>(s, &t)
}
pub fn half_edge_dpiv<S: Src>(s: &mut S) {
    let t = topo(s);
    check::<S, DynamicPrecisionIndexVec>(s, &t)
}
pub fn half_edge_u32<S: Src>(s: &mut S) {
    let t = topo(s);
    check::<S, U32IndexVec>(s, &t)
}
/// more vertices and edges than the narrow index widths hold
pub fn half_edge_large<S: Src>(s: &mut S) {
    let n = 80 + s.below(60);
    let mut fs = vec![];
    for i in 0..n {
        fs.push([i, (i + 1) % n, n]);
        if s.below(2) == 0 {
            fs.push([(i + 1) % n, i, n + 1 + s.below(300)]);
        }
    }
    let t = Topo { nv: n + 302, fs };
    check::<S, DynamicPrecisionIndexVec>(s, &t)
}
crate::natives! { half_edge_vec: 30000, half_edge_dpiv: 30000, half_edge_u32: 20000, half_edge_large: 20 }

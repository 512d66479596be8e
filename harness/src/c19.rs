use crate::Src;
use rust_3d::*;
use std::collections::HashMap;

type M<IC> = Mesh3D<Point3D, PointCloud3D<Point3D>, IC>;
fn pt<S: Src>(s: &mut S, w: usize) -> Point3D {
    let mut c = |s: &mut S| {
        let x = s.below(w) as f64 - (w / 2) as f64;
        if x == 0.0 && s.bool() { -0.0 } else { x }
    };
    let (x, y, z) = (c(s), c(s), c(s));
    Point3D { x, y, z }
}
/// a valid mesh, its vertices and faces
fn mesh<S: Src, IC: IsIndexContainer>(s: &mut S, w: usize, max_v: usize) -> (M<IC>, Vec<Point3D>, Vec<[usize; 3]>) {
    let mut m: M<IC> = Default::default();
    let n = 3 + s.below(max_v - 2);
    let mut vs = vec![];
    for _ in 0..n {
        let p = pt(s, w);
        m.add_vertex(p.clone());
        vs.push(p)
    }
    let mut fs = vec![];
    let k = s.below(12);
    for _ in 0..k {
        let f = [s.below(n), s.below(n), s.below(n)];
        if m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2])).is_ok() { fs.push(f) }
    }
    (m, vs, fs)
}
fn ids<S: Src, IC: IsIndexContainer>(s: &mut S, m: &M<IC>) -> Vec<[usize; 3]> {
    let mut r = vec![];
    for i in 0..m.num_faces() {
        match m.face_vertex_ids(FId(i)) {
            Some(f) => {
                s.ck(f.a.0 < m.num_vertices() && f.b.0 < m.num_vertices() && f.c.0 < m.num_vertices(), "faces have existing vertices");
                s.ck(f.a != f.b && f.a != f.c && f.b != f.c, "faces have three different vertices");
                r.push([f.a.0, f.b.0, f.c.0])
            }
            None => s.ck(false, "every face below num_faces exists"),
        }
    }
    r
}
fn verts<IC: IsIndexContainer>(m: &M<IC>) -> Vec<Point3D> {
    (0..m.num_vertices()).map(|i| m.vertex(VId(i)).unwrap()).collect()
}
fn sub<S: Src, IC: IsIndexContainer, IO: IsIndexContainer>(s: &mut S) {
    let (m, vs, fs) = mesh::<S, IC>(s, 9, 9);
    let o: M<IO> = match rust_3d::subdivide::linear(&m) {
        Ok(o) => o,
        Err(_) => return s.ck(false, "subdividing a valid mesh succeeds"),
    };
    let (ov, of) = (verts(&o), ids(s, &o));
    s.ck(ov.len() >= vs.len() && ov[..vs.len()] == vs[..], "all original vertices are kept");
    s.ck(of.len() == 4 * fs.len(), "every face becomes four faces");
    if of.len() != 4 * fs.len() || ov.len() < vs.len() { return }
    let mut centers: HashMap<(usize, usize), usize> = HashMap::new();
    for (i, f) in fs.iter().enumerate() {
        let (a, b, c) = (f[0], f[1], f[2]);
        let mut four: Vec<[usize; 3]> = of[4 * i..4 * i + 4].to_vec();
        // the three corner faces: found by the corner they hold
        let mut mids: [Option<usize>; 3] = [None; 3];
        let mut key = |x: usize, y: usize| (x.min(y), x.max(y));
        let mut fits = true;
        for (corner, e1, e2) in [(a, 0usize, 2usize), (b, 1, 0), (c, 2, 1)].iter() {
            match four.iter().position(|t| t.contains(corner)) {
                None => fits = false,
                Some(p) => {
                    let t = four.remove(p);
                    let k = t.iter().position(|x| x == corner).unwrap();
                    // same orientation: corner, center of the edge to the next corner, center of the edge from the previous
                    for (e, x) in [(*e1, t[(k + 1) % 3]), (*e2, t[(k + 2) % 3])].iter() {
                        if mids[*e].map_or(false, |y| y != *x) { fits = false }
                        mids[*e] = Some(*x)
                    }
                }
            }
        }
        s.ck(fits, "three faces hold one corner and the centers of its edges");
        if !fits { return }
        let (x, y, z) = (mids[0].unwrap(), mids[1].unwrap(), mids[2].unwrap());
        let t = four[0];
        s.ck(t == [x, y, z] || t == [y, z, x] || t == [z, x, y], "the fourth face is over the edge centers");
        for (p, q, r) in [(a, b, x), (b, c, y), (c, a, z)].iter() {
            let (v, w) = (&vs[*p], &vs[*q]);
            let want = Point3D { x: 0.5 * (v.x + w.x), y: 0.5 * (v.y + w.y), z: 0.5 * (v.z + w.z) };
            s.ck(*r >= vs.len() && ov[*r] == want, "new vertices are the centers of edges");
            let at = *centers.entry(key(*p, *q)).or_insert(*r);
            s.ck(at == *r, "faces sharing an edge share its center");
        }
    }
    s.ck(ov.len() == vs.len() + centers.len(), "one new vertex per edge");
}
pub fn subdivided<S: Src>(s: &mut S) {
    match s.below(3) {
        0 => sub::<S, Vec<usize>, U32IndexVec>(s),
        1 => sub::<S, U32IndexVec, DynamicPrecisionIndexVec>(s),
        _ => sub::<S, DynamicPrecisionIndexVec, Vec<usize>>(s),
    }
}
fn uni<S: Src, IC: IsIndexContainer>(s: &mut S) {
    let (m, vs, fs) = mesh::<S, IC>(s, 5, 12);
    let o: M<IC> = match unify_faces(&m) {
        Ok(o) => o,
        Err(_) => return s.ck(false, "unifying a valid mesh succeeds"),
    };
    let (ov, of) = (verts(&o), ids(s, &o));
    s.ck(ov == vs, "unifying keeps the vertices");
    s.ck(of.len() == fs.len(), "unifying keeps the number of faces");
    for (f, g) in fs.iter().zip(of.iter()) {
        let (mut a, mut b) = (*f, *g);
        a.sort();
        b.sort();
        s.ck(a == b, "unifying keeps every face's vertices");
    }
}
/// a gently sloped surface over a grid, faces in any direction and order
fn turned<S: Src>(s: &mut S) {
    let (w, h) = (1 + s.below(4), 1 + s.below(3));
    let mut m: M<Vec<usize>> = Default::default();
    for y in 0..=h {
        for x in 0..=w {
            m.add_vertex(Point3D { x: 4.0 * x as f64, y: 4.0 * y as f64, z: s.below(2) as f64 });
        }
    }
    let mut fs = vec![];
    for y in 0..h {
        for x in 0..w {
            let a = y * (w + 1) + x;
            let (b, c, d) = (a + 1, a + w + 1, a + w + 2);
            for f in [[a, b, c], [b, d, c]].iter() {
                if s.below(5) == 0 { continue }
                let k = s.below(fs.len() + 1);
                fs.insert(k, (if s.bool() { [f[0], f[2], f[1]] } else { *f }))
            }
        }
    }
    for f in fs.iter() {
        m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2])).unwrap();
    }
    let vs = verts(&m);
    let up = |f: &[usize; 3]| {
        let (a, b, c) = (&vs[f[0]], &vs[f[1]], &vs[f[2]]);
        (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x) > 0.0
    };
    let o: M<Vec<usize>> = match unify_faces(&m) {
        Ok(o) => o,
        Err(_) => return s.ck(false, "unifying a valid mesh succeeds"),
    };
    let of = ids(s, &o);
    s.ck(of.len() == fs.len(), "unifying keeps the number of faces");
    for (i, f) in of.iter().enumerate() {
        for g in of[..i].iter() {
            if f.iter().any(|v| g.contains(v)) { s.ck(up(f) == up(g), "faces with a common vertex face the same way") }
        }
        if i == 0 { s.ck(up(f) == up(&fs[0]), "the first face is kept as it is") }
    }
}
pub fn unified<S: Src>(s: &mut S) {
    if s.below(3) == 0 { return turned(s) }
    match s.below(3) {
        0 => uni::<S, Vec<usize>>(s),
        1 => uni::<S, U32IndexVec>(s),
        _ => uni::<S, DynamicPrecisionIndexVec>(s),
    }
}
fn heal<S: Src, IC: IsIndexContainer>(s: &mut S) {
    let w = 2 + s.below(3);
    let (m, vs, fs) = mesh::<S, IC>(s, w, 12);
    let o: M<IC> = match heal_mesh(&m) {
        Ok(o) => o,
        Err(_) => return s.ck(false, "healing a valid mesh succeeds"),
    };
    let (ov, of) = (verts(&o), ids(s, &o));
    for i in 0..ov.len() {
        for j in 0..i { s.ck(ov[i] != ov[j], "healed meshes have every position once") }
        let used = fs.iter().any(|f| f.iter().any(|k| vs[*k] == ov[i]));
        s.ck(used, "healed meshes only have positions of the original faces");
    }
    let want: Vec<[Point3D; 3]> = fs[..].iter().map(|f| [vs[f[0]].clone(), vs[f[1]].clone(), vs[f[2]].clone()])
        .filter(|p| p[0] != p[1] && p[0] != p[2] && p[1] != p[2]).collect();
    let got: Vec<[Point3D; 3]> = of.iter().map(|f| [ov[f[0]].clone(), ov[f[1]].clone(), ov[f[2]].clone()]).collect();
    s.ck(got == want, "healing keeps exactly the faces with three different positions");
}
pub fn healed<S: Src>(s: &mut S) {
    match s.below(3) {
        0 => heal::<S, Vec<usize>>(s),
        1 => heal::<S, U32IndexVec>(s),
        _ => heal::<S, DynamicPrecisionIndexVec>(s),
    }
}
fn clu<S: Src, IC: IsIndexContainer>(s: &mut S) {
    let (m, vs, fs) = mesh::<S, IC>(s, 13, 14);
    let size = match s.below(12) {
        0 => 0.0,
        1 => -1.0,
        2 => 1e-300,
        3 => 1e-5,
        k => 0.25 + 0.5 * k as f64,
    };
    let r: Result<M<IC>> = cluster_vertices(&m, size);
    let ext = |f: fn(&Point3D) -> f64| {
        let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
        for v in vs.iter() { lo = lo.min(f(v)); hi = hi.max(f(v)) }
        hi - lo
    };
    let (ex, ey, ez) = (ext(|p| p.x), ext(|p| p.y), ext(|p| p.z));
    let o = match r {
        Ok(o) => {
            s.ck(size > 0.0, "cluster sizes are positive");
            o
        }
        Err(_) => {
            let fine = size >= 0.25 && ex > 0.0 && ey > 0.0 && ez > 0.0 && ex / size >= 2.0 && ey / size >= 2.0 && ez / size >= 2.0;
            return s.ck(!fine, "clustering with at least two clusters per axis succeeds");
        }
    };
    let (ov, of) = (verts(&o), ids(s, &o));
    for i in 0..ov.len() {
        for j in 0..i { s.ck(ov[i] != ov[j], "clustered meshes have every position once") }
        s.ck(vs.contains(&ov[i]), "clustered meshes only have original positions");
    }
    let close = |a: &Point3D, b: &Point3D| (a.x - b.x).abs() < size && (a.y - b.y).abs() < size && (a.z - b.z).abs() < size;
    let lost: Vec<[usize; 3]> = fs.iter().filter(|f| !of.iter().any(|g| (0..3).all(|k| close(&vs[f[k]], &ov[g[k]])))).cloned().collect();
    for f in lost {
        let (a, b, c) = (&vs[f[0]], &vs[f[1]], &vs[f[2]]);
        s.ck(close(a, b) || close(a, c) || close(b, c), "only faces with two corners in one cluster are dropped");
    }
    s.ck(of.len() <= fs.len(), "clustering adds no faces");
    for g in of.iter() {
        s.ck(fs.iter().any(|f| (0..3).all(|k| close(&vs[f[k]], &ov[g[k]]))), "every face stays closer than the cluster size");
    }
}
pub fn clustered<S: Src>(s: &mut S) {
    match s.below(3) {
        0 => clu::<S, Vec<usize>>(s),
        1 => clu::<S, U32IndexVec>(s),
        _ => clu::<S, DynamicPrecisionIndexVec>(s),
    }
}
/// data with a box, told apart by a number
struct Item(usize, BoundingBox3D);
impl HasBoundingBox3DMaybe for Item {
    fn bounding_box_maybe(&self) -> Option<BoundingBox3D> { Some(self.1.clone()) }
}
impl HasBoundingBox3D for Item {
    fn bounding_box(&self) -> BoundingBox3D { self.1.clone() }
}
pub fn candidates<S: Src>(s: &mut S) {
    let n = s.below(8);
    let fine = s.bool();
    let mut c = |s: &mut S| if fine { s.below(1000) as f64 * 0.01 } else { s.grid() };
    let mut items = vec![];
    let mut bbs = vec![];
    for i in 0..n {
        let (a, b) = (Point3D { x: c(s), y: c(s), z: c(s) }, Point3D { x: c(s), y: c(s), z: c(s) });
        let hi = |x: f64, y: f64| if x == y { x + 1.0 } else { x.max(y) };
        let min = Point3D { x: a.x.min(b.x), y: a.y.min(b.y), z: a.z.min(b.z) };
        let max = Point3D { x: hi(a.x, b.x), y: hi(a.y, b.y), z: hi(a.z, b.z) };
        let bb = BoundingBox3D::new(&min, &max).unwrap();
        bbs.push((min, max));
        items.push(Item(i, bb));
    }
    let (cx, cy) = (s.below(12) as u16, s.below(12) as u16);
    let cl = match Cluster::new(items, cx, cy) {
        Ok(x) => x,
        Err(_) => return s.ck(n == 0, "clustering data succeeds"),
    };
    s.ck(n > 0, "there are no clusters without data");
    for _ in 0..8 {
        let (mut x, mut y) = (c(s), c(s));
        if n > 0 && s.bool() {
            let b = &bbs[s.below(n)];
            if s.bool() { x = b.0.x } else { x = b.1.x }
            if s.bool() { y = b.0.y } else { y = b.1.y }
        }
        let mut seen = vec![0; n];
        cl.for_each_candidate(x, y, &mut |i: &Item| seen[i.0] += 1);
        for i in 0..n {
            let (lo, hi) = &bbs[i];
            let over = lo.x <= x && x <= hi.x && lo.y <= y && y <= hi.y;
            s.ck(seen[i] <= 1, "candidates are visited once");
            s.ck(!over || seen[i] == 1, "data over a position is a candidate");
        }
    }
}
fn sum<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// equal values hash alike, others do not
pub fn hashed<S: Src>(s: &mut S) {
    let (a, b) = (pt(s, 3), pt(s, 3));
    s.ck((a == b) == (sum(&a) == sum(&b)), "equal 3D positions hash alike");
    let (p, q) = (Point2D { x: a.x, y: a.y }, Point2D { x: b.x, y: b.y });
    s.ck((p == q) == (sum(&p) == sum(&q)), "equal 2D positions hash alike");
    if let (Ok(n), Ok(m)) = (Norm3D::new(a.clone()), Norm3D::new(b.clone())) { s.ck((n == m) == (sum(&n) == sum(&m)), "equal 3D directions hash alike") }
    if let (Ok(n), Ok(m)) = (Norm2D::new(p), Norm2D::new(q)) { s.ck((n == m) == (sum(&n) == sum(&m)), "equal 2D directions hash alike") }
    if let (Some(n), Some(m)) = (NonNegative::new(a.x), NonNegative::new(b.x)) { s.ck((n == m) == (sum(&n) == sum(&m)), "equal numbers hash alike") }
    if let (Some(n), Some(m)) = (Positive::new(a.y), Positive::new(b.y)) { s.ck((n == m) == (sum(&n) == sum(&m)), "equal positive numbers hash alike") }
}
crate::natives! { hashed: 20000, subdivided: 20000, unified: 20000, healed: 30000, clustered: 40000, candidates: 30000 }

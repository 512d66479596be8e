use crate::src::same;
use crate::Src;
use rust_3d::*;

fn p3<S: Src>(s: &mut S) -> Point3D {
    Point3D { x: s.num(), y: s.num(), z: s.num() }
}
fn eq(a: &Point3D, b: &Point3D, lossy: bool) -> bool {
    if lossy {
        same(a.x, b.x as f32 as f64) && same(a.y, b.y as f32 as f64) && same(a.z, b.z as f32 as f64)
    } else {
        same(a.x, b.x) && same(a.y, b.y) && same(a.z, b.z)
    }
}
fn edit<S: Src, ID: IsDataContainer<Point3D> + Default, IC: IsIndexContainer>(s: &mut S, lossy: bool) {
    let mut m: Mesh3D<Point3D, ID, IC> = Default::default();
    let mut vs: Vec<Point3D> = vec![];
    let mut fs: Vec<[usize; 3]> = vec![];
    let n = s.below(10);
    for _ in 0..n {
        match s.below(7) {
            0 | 1 => {
                let p = p3(s);
                let id = m.add_vertex(p.clone());
                s.ck(id.0 == vs.len(), "add_vertex returns the new id");
                vs.push(p);
            }
            2 => {
                let (a, b, c) = (p3(s), p3(s), p3(s));
                let id = m.add_face(a.clone(), b.clone(), c.clone());
                s.ck(id.0 == fs.len(), "add_face returns the new id");
                fs.push([vs.len(), vs.len() + 1, vs.len() + 2]);
                vs.push(a);
                vs.push(b);
                vs.push(c);
            }
            3 | 4 => {
                let mut v = |s: &mut S| if s.below(8) == 0 { s.usize() } else { s.below(vs.len() + 1) };
                let (a, b, c) = (v(s), v(s), v(s));
                let r = m.try_add_connection(VId(a), VId(b), VId(c));
                let ok = a < vs.len() && b < vs.len() && c < vs.len() && a != b && b != c && a != c;
                s.ck(r.is_ok() == ok, "connecting succeeds exactly for three different existing vertices");
                if let Ok(id) = r {
                    s.ck(id.0 == fs.len(), "connecting returns the new id");
                    fs.push([a, b, c]);
                }
            }
            5 => {
                let i = if s.below(4) == 0 { s.usize() } else { s.below(vs.len() + 1) };
                let p = p3(s);
                let r = m.change_vertex(VId(i), p.clone());
                s.ck(r.is_ok() == (i < vs.len()), "change_vertex succeeds exactly for existing vertices");
                if r.is_ok() {
                    vs[i] = p
                }
            }
            _ => {
                m.reserve_vertices(s.below(20));
                m.reserve_faces(s.below(20));
            }
        }
        s.ck(m.num_faces() == fs.len(), "number of faces");
        s.ck(m.num_vertices() == vs.len(), "number of vertices");
        for (i, v) in vs.iter().enumerate() {
            s.ck(m.vertex(VId(i)).map_or(false, |p| eq(&p, v, lossy)), "vertex returns what was added");
        }
        for (i, f) in fs.iter().enumerate() {
            let t = m.face_vertex_ids(FId(i));
            s.ck(t == Some(Face3::new(VId(f[0]), VId(f[1]), VId(f[2]))), "face_vertex_ids returns what was added");
            let p = m.face_vertices(FId(i));
            s.ck(
                p.map_or(false, |p| (0..3).all(|k| eq(&p[k], &vs[f[k]], lossy))),
                "face_vertices returns the face's vertices",
            );
        }
        let j = s.usize();
        s.ck(m.vertex(VId(j)).is_some() == (j < vs.len()), "vertex is None exactly for ids that do not exist");
        s.ck(m.face_vertex_ids(FId(j)).is_some() == (j < fs.len()), "face_vertex_ids is None exactly for ids that do not exist");
        s.ck(m.face_vertices(FId(j)).is_some() == (j < fs.len()), "face_vertices is None exactly for ids that do not exist");
    }
}
pub fn mesh_pc_vec<S: Src>(s: &mut S) {
    edit::<S, PointCloud3D<Point3D>, Vec<usize>>(s, false)
}
pub fn mesh_vec_dpiv<S: Src>(s: &mut S) {
    edit::<S, Vec<Point3D>, DynamicPrecisionIndexVec>(s, false)
}
pub fn mesh_f32_u32<S: Src>(s: &mut S) {
    edit::<S, PointCloud3Df32<Point3D>, U32IndexVec>(s, true)
}
/// lookups multiply ids: ids near usize::MAX / 3 and above
pub fn mesh_huge_ids<S: Src>(s: &mut S) {
    let mut m: Mesh3D<Point3D, PointCloud3Df32<Point3D>, Vec<usize>> = Default::default();
    for _ in 0..s.below(4) {
        m.add_face(Point3D::default(), Point3D::default(), Point3D::default());
    }
    let base = [usize::MAX / 3, usize::MAX / 3 + 1, 2 * (usize::MAX / 3), 2 * (usize::MAX / 3) + 1, usize::MAX][s.below(5)];
    let j = base.wrapping_add(s.below(5)).wrapping_sub(2);
    if j > 100 {
        s.ck(m.vertex(VId(j)).is_none(), "huge vertex id gives None");
        s.ck(m.face_vertex_ids(FId(j)).is_none(), "huge face id gives None");
        s.ck(m.face_vertices(FId(j)).is_none(), "huge face id gives None");
        s.ck(m.change_vertex(VId(j), Point3D::default()).is_err(), "changing a huge vertex id fails");
    }
}
/// any topology the mesh is built from: lookups stay consistent with it
pub fn mesh_from_parts<S: Src>(s: &mut S) {
    let nv = s.below(5);
    let vs: Vec<Point3D> = (0..nv).map(|i| Point3D { x: i as f64, y: 0.0, z: 0.0 }).collect();
    let nt = s.below(9);
    let mut topo: Vec<usize> = vec![];
    for _ in 0..nt {
        let v = if s.below(6) == 0 { s.usize() } else { s.below(nv + 1) };
        topo.push(v)
    }
    let m: Mesh3D<Point3D, Vec<Point3D>, Vec<usize>> = (vs.clone(), topo.clone()).into();
    s.ck(m.num_faces() == nt / 3 && m.num_vertices() == nv, "sizes of a mesh from parts");
    for f in 0..nt / 3 + 2 {
        let want = if f < nt / 3 { Some([topo[3 * f], topo[3 * f + 1], topo[3 * f + 2]]) } else { None };
        let got = m.face_vertex_ids(FId(f)).map(|t| [t.a.0, t.b.0, t.c.0]);
        s.ck(got == want, "face ids of a mesh from parts");
        let all = want.map_or(false, |w| w.iter().all(|x| *x < nv));
        let p = m.face_vertices(FId(f));
        s.ck(p.is_some() == all, "face vertices exist exactly if all three do");
        if let (Some(p), Some(w)) = (p, want) {
            s.ck((0..3).all(|k| p[k] == vs[w[k]]), "face vertices of a mesh from parts");
        }
    }
    let (v2, t2): (Vec<Point3D>, Vec<usize>) = m.into();
    s.ck(v2 == vs && t2 == topo, "a mesh decomposes into its parts");
}
/// a topology unit hands out its ids in order
pub fn topology_unit<S: Src>(s: &mut S) {
    let (a, b, c) = (s.usize(), s.usize(), s.usize());
    let f = Face3::new(VId(a), VId(b), VId(c));
    s.ck(Face3::n_vids() == 3, "three ids");
    let i = s.usize();
    s.ck(f.vid(i) == [a, b, c].get(i).map(|x| VId(*x)), "vid by index");
    let mut got = vec![];
    f.for_each_vid(&mut |v| got.push(v.0));
    s.ck(got == [a, b, c], "for_each_vid visits all ids in order");
}
crate::natives! { mesh_pc_vec: 60000, mesh_vec_dpiv: 60000, mesh_f32_u32: 60000, mesh_huge_ids: 2000, mesh_from_parts: 60000, topology_unit: 5000 }

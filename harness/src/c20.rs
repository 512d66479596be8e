use crate::Src;
use rust_3d::*;

fn p3<S: Src>(s: &mut S) -> Point3D {
    Point3D { x: s.num(), y: s.num(), z: s.num() }
}
fn p2<S: Src>(s: &mut S) -> Point2D {
    Point2D { x: s.num(), y: s.num() }
}
fn edit<S: Src, V: Clone + PartialEq, P: IsEditablePolygon<V> + Clone>(s: &mut S, mut p: P, mut vs: Vec<V>, gen: fn(&mut S) -> V) {
    for _ in 0..s.below(8) {
        if s.below(3) > 0 {
            let v = gen(s);
            let id = p.add_vertex(v.clone());
            s.ck(id.0 == vs.len(), "add_vertex returns the new id");
            vs.push(v);
        } else {
            let i = if s.below(3) == 0 { s.usize() } else { s.below(vs.len() + 1) };
            let v = gen(s);
            let r = p.change_vertex(VId(i), v.clone());
            s.ck(r.is_ok() == (i < vs.len()), "change_vertex succeeds exactly for existing vertices");
            if i < vs.len() {
                vs[i] = v
            }
        }
        check(s, &p, &vs);
    }
    check(s, &p, &vs);
}
fn check<S: Src, V: Clone + PartialEq, P: IsPolygon<V>>(s: &mut S, p: &P, vs: &Vec<V>) {
    let n = vs.len();
    s.ck(p.num_segments() == n, "n vertices, n segments");
    s.ck(p.num_vertices() == n, "number of vertices");
    let x = s.usize();
    let mut ids: Vec<usize> = (0..n + 3).collect();
    ids.extend([x, usize::MAX, usize::MAX - 1].iter());
    for i in ids[..].iter() {
        let i = *i;
        let ok = i < n;
        s.ck(p.vertex(VId(i)) == vs[..].get(i).cloned(), "vertex by id");
        let j = if i == n.wrapping_sub(1) { 0 } else { i.wrapping_add(1) };
        s.ck(p.segment_vertex_ids(SId(i)) == if ok { Some((VId(i), VId(j))) } else { None }, "segment i runs from vertex i to the next, the last one to vertex 0");
        s.ck(p.segment_vertices(SId(i)) == if ok { Some((vs[i].clone(), vs[j].clone())) } else { None }, "segment vertices");
    }
}
pub fn polygon_2d<S: Src>(s: &mut S) {
    let n = s.below(3);
    let vs: Vec<Point2D> = (0..n).map(|_| p2(s)).collect();
    let p: Polygon2D<Point2D> = PointCloud2D { data: vs.clone() }.into();
    edit(s, p, vs, p2::<S>)
}
pub fn polygon_3d<S: Src>(s: &mut S) {
    let n = s.below(3);
    let vs: Vec<Point3D> = (0..n).map(|_| p3(s)).collect();
    let p: Polygon3D<Point3D> = PointCloud3D { data: vs.clone() }.into();
    edit(s, p, vs, p3::<S>)
}
pub fn polygon_from_default<S: Src>(s: &mut S) {
    edit(s, Polygon3D::<Point3D>::default(), vec![], p3::<S>);
    edit(s, Polygon2D::<Point2D>::default(), vec![], p2::<S>)
}
crate::natives! { polygon_2d: 60000, polygon_3d: 60000, polygon_from_default: 20000 }

use crate::src::same;
use crate::Src;
use rust_3d::*;
use std::collections::{LinkedList, VecDeque};

fn at<T: IsND>(t: &T, i: usize) -> f64 {
    t.position_nd(i).unwrap_or(f64::NAN)
}
fn nd<S: Src, T: IsND>(s: &mut S, t: &T, want: &[f64]) {
    s.ck(T::n_dimensions() == want.len(), "number of dimensions");
    for (i, w) in want.iter().enumerate() {
        s.ck(t.position_nd(i).map_or(false, |x| same(x, *w)), "coordinate by dimension index");
    }
    let k = s.usize();
    for i in [want.len(), want.len() + 1, usize::MAX, k].iter() {
        s.ck(*i < want.len() || t.position_nd(*i).is_none(), "an index beyond the dimensions gives None");
    }
}
fn is2<S: Src, T: Is2D>(s: &mut S, t: &T, want: &[f64]) {
    nd(s, t, want);
    s.ck(same(t.x(), want[0]) && same(t.y(), want[1]), "x and y are coordinates 0 and 1");
    let a = t.xy();
    s.ck(same(a[0], want[0]) && same(a[1], want[1]), "xy");
}
fn is3<S: Src, T: Is3D>(s: &mut S, t: &T, want: &[f64]) {
    nd(s, t, want);
    s.ck(same(t.x(), want[0]) && same(t.y(), want[1]) && same(t.z(), want[2]), "x, y and z are coordinates 0, 1 and 2");
    let (a, b, c, d) = (t.xyz(), t.xy(), t.xz(), t.yz());
    s.ck(same(a[0], want[0]) && same(a[1], want[1]) && same(a[2], want[2]), "xyz");
    s.ck(same(b[0], want[0]) && same(b[1], want[1]) && same(c[0], want[0]) && same(c[1], want[2]) && same(d[0], want[1]) && same(d[1], want[2]), "xy, xz, yz");
}
fn build_nd<S: Src, T: IsBuildableND>(s: &mut S, n: usize, mut t: T) {
    let k = s.below(6);
    let v: Vec<f64> = (0..k).map(|_| s.f64()).collect();
    match T::new_nd(&v) {
        Ok(t) => {
            s.ck(k == n, "only a list of the right length builds a position");
            for i in 0..k {
                s.ck(same(at(&t, i), v[i]), "built from a list");
            }
        }
        Err(_) => s.ck(k != n, "a list of the right length builds a position"),
    }
    for i in 0..n {
        s.ck(at(&T::zero_nd(), i) == 0.0, "zero_nd");
    }
    let before: Vec<f64> = (0..n).map(|i| at(&t, i)).collect();
    let (p2, p3) = (Point2D::new(s.f64(), s.f64()), Point3D::new(s.f64(), s.f64(), s.f64()));
    let other = if n == 2 { vec![p2.x, p2.y] } else { vec![p3.x, p3.y, p3.z] };
    let mut buffer = vec![1.0; s.below(3)];
    let (m2, m3) = (t.center_nd(&p2, &mut buffer), t.center_nd(&p3, &mut buffer));
    s.ck(m2.is_ok() == (n == 2) && m3.is_ok() == (n == 3), "center needs the same dimension");
    let m = if n == 2 { m2 } else { m3 };
    for i in 0..n {
        s.ck(m.as_ref().map_or(false, |m| same(at(m, i), 0.5 * (before[i] + other[i]))), "center_nd");
    }
    let (wrong, right);
    if n == 2 {
        wrong = t.from_nd(p3.clone());
        s.ck((0..n).all(|i| same(at(&t, i), before[i])), "a failed copy changes nothing");
        right = t.from_nd(p2.clone());
    } else {
        wrong = t.from_nd(p2.clone());
        s.ck((0..n).all(|i| same(at(&t, i), before[i])), "a failed copy changes nothing");
        right = t.from_nd(p3.clone());
    }
    s.ck(wrong.is_err() && right.is_ok(), "copying needs the same dimension");
    s.ck((0..n).all(|i| same(at(&t, i), other[i])), "copied from another position");
}
fn set_nd<S: Src, T: IsEditableND>(s: &mut S, n: usize, t: &mut T) {
    let before: Vec<f64> = (0..n).map(|i| at(t, i)).collect();
    let k = if s.bool() { s.below(5) } else { s.usize() };
    let v = s.f64();
    let r = t.set_position(k, v);
    s.ck(r.is_ok() == (k < n), "setting by index succeeds exactly for existing dimensions");
    for i in 0..n {
        s.ck(same(at(t, i), if i == k { v } else { before[i] }), "set by index changes only that coordinate");
    }
}
fn edit2<S: Src, T: IsBuildable2D + IsBuildableND + IsEditable2D + Clone>(s: &mut S, mut t: T) {
    let (x, y) = (s.f64(), s.f64());
    is2(s, &T::new(x, y), &[x, y]);
    let o = Point2D::new(s.f64(), s.f64());
    is2(s, &T::new_from(&o), &[o.x, o.y]);
    is2(s, &T::zero(), &[0.0, 0.0]);
    let w = [t.x(), t.y()];
    is2(s, &t, &w);
    build_nd(s, 2, t.clone());
    is2(s, &t.center(&o), &[0.5 * (w[0] + o.x), 0.5 * (w[1] + o.y)]);
    let mut u = t.clone();
    IsBuildable2D::from(&mut u, &o);
    is2(s, &u, &[o.x, o.y]);
    for _ in 0..4 {
        let w = [t.x(), t.y()];
        let (a, b) = (s.f64(), s.f64());
        let f = 0.5 + s.below(4) as f64;
        let want = match s.below(8) {
            0 => { t.set_x(a); [a, w[1]] }
            1 => { t.set_y(a); [w[0], a] }
            2 => { t.set_xy(a, b); [a, b] }
            3 => { t.add(&o); [w[0] + o.x, w[1] + o.y] }
            4 => { t.subtract(&o); [w[0] - o.x, w[1] - o.y] }
            5 => { t.scale_pos(a); [w[0] * a, w[1] * a] }
            6 => { set_nd(s, 2, &mut t); [t.x(), t.y()] }
            _ => { t.increase_distance_to_by(&o, Positive::new(f).unwrap()); [o.x + f * (w[0] - o.x), o.y + f * (w[1] - o.y)] }
        };
        is2(s, &t, &want);
    }
}
fn edit3<S: Src, T: IsBuildable3D + IsBuildableND + IsEditable3D + Clone>(s: &mut S, mut t: T) {
    let (x, y, z) = (s.f64(), s.f64(), s.f64());
    is3(s, &T::new(x, y, z), &[x, y, z]);
    let o = Point3D::new(s.f64(), s.f64(), s.f64());
    is3(s, &T::new_from(&o), &[o.x, o.y, o.z]);
    is3(s, &T::zero(), &[0.0, 0.0, 0.0]);
    let w = [t.x(), t.y(), t.z()];
    is3(s, &t, &w);
    build_nd(s, 3, t.clone());
    is3(s, &t.center(&o), &[0.5 * (w[0] + o.x), 0.5 * (w[1] + o.y), 0.5 * (w[2] + o.z)]);
    let mut u = t.clone();
    IsBuildable3D::from(&mut u, &o);
    is3(s, &u, &[o.x, o.y, o.z]);
    for _ in 0..4 {
        let w = [t.x(), t.y(), t.z()];
        let (a, b, c) = (s.f64(), s.f64(), s.f64());
        let f = 0.5 + s.below(4) as f64;
        let want = match s.below(12) {
            0 => { t.set_x(a); [a, w[1], w[2]] }
            1 => { t.set_y(a); [w[0], a, w[2]] }
            2 => { t.set_z(a); [w[0], w[1], a] }
            3 => { t.set_xyz(a, b, c); [a, b, c] }
            4 => { t.set_xy(a, b); [a, b, w[2]] }
            5 => { t.set_xz(a, b); [a, w[1], b] }
            6 => { t.set_yz(a, b); [w[0], a, b] }
            7 => { t.add(&o); [w[0] + o.x, w[1] + o.y, w[2] + o.z] }
            8 => { t.subtract(&o); [w[0] - o.x, w[1] - o.y, w[2] - o.z] }
            9 => { t.scale_pos(a); [w[0] * a, w[1] * a, w[2] * a] }
            10 => { set_nd(s, 3, &mut t); [t.x(), t.y(), t.z()] }
            _ => { t.increase_distance_to_by(&o, Positive::new(f).unwrap()); [o.x + f * (w[0] - o.x), o.y + f * (w[1] - o.y), o.z + f * (w[2] - o.z)] }
        };
        is3(s, &t, &want);
    }
}
fn pos<S: Src>(s: &mut S) -> Positive {
    Positive::new(s.f64()).unwrap_or(Positive::one())
}
fn p2<S: Src>(s: &mut S) -> Point2D {
    Point2D { x: s.f64(), y: s.f64() }
}
fn p3<S: Src>(s: &mut S) -> Point3D {
    Point3D { x: s.f64(), y: s.f64(), z: s.f64() }
}
fn box2<S: Src>(s: &mut S) -> Box2D {
    Box2D { center: p2(s), size_x: pos(s), size_y: pos(s) }
}
fn box3<S: Src>(s: &mut S) -> Box3D {
    Box3D { center: p3(s), size_x: pos(s), size_y: pos(s), size_z: pos(s) }
}
pub fn points<S: Src>(s: &mut S) {
    let (a, b) = (p2(s), p3(s));
    is2(s, &Box::new(a.clone()), &[a.x, a.y]);
    is3(s, &Box::new(b.clone()), &[b.x, b.y, b.z]);
    is2(s, &a, &[a.x, a.y]);
    is3(s, &b, &[b.x, b.y, b.z]);
    edit2(s, a);
    edit3(s, b);
}
pub fn boxes<S: Src>(s: &mut S) {
    let (a, b) = (box2(s), box3(s));
    is2(s, &a, &[a.center.x, a.center.y]);
    is3(s, &b, &[b.center.x, b.center.y, b.center.z]);
    // moving the position keeps the size
    let (mut a2, mut b2) = (a.clone(), b.clone());
    let (o2, o3) = (p2(s), p3(s));
    IsBuildable2D::from(&mut a2, &o2);
    IsBuildable3D::from(&mut b2, &o3);
    s.ck(*a2.size_x == *a.size_x && *a2.size_y == *a.size_y && *b2.size_x == *b.size_x && *b2.size_y == *b.size_y && *b2.size_z == *b.size_z, "copying a position keeps the sizes");
    edit2(s, a);
    edit3(s, b);
}
pub fn circles<S: Src>(s: &mut S) {
    let a = Circle { center: p2(s), radius: pos(s) };
    let b = Sphere { center: p3(s), radius: pos(s) };
    is2(s, &a, &[a.center.x, a.center.y]);
    is3(s, &b, &[b.center.x, b.center.y, b.center.z]);
    let (mut a2, mut b2) = (a.clone(), b.clone());
    let (o2, o3) = (p2(s), p3(s));
    IsBuildable2D::from(&mut a2, &o2);
    IsBuildable3D::from(&mut b2, &o3);
    s.ck(*a2.radius == *a.radius && *b2.radius == *b.radius, "copying a position keeps the radius");
    edit2(s, a);
    edit3(s, b);
}
pub fn filters<S: Src>(s: &mut S) {
    let (a, b) = (box2(s), box3(s));
    let (x, y) = (a.center.clone(), b.center.clone());
    let (fa, fb) = (FilterBox2D::new(a), FilterBox3D::new(b));
    is2(s, &fa, &[x.x, x.y]);
    is3(s, &fb, &[y.x, y.y, y.z]);
    edit2(s, fa);
    edit3(s, fb);
    let r = pos(s);
    let (fa, fb) = (FilterCircle::new(Circle { center: x.clone(), radius: r }), FilterSphere::new(Sphere { center: y.clone(), radius: r }));
    is2(s, &fa, &[x.x, x.y]);
    is3(s, &fb, &[y.x, y.y, y.z]);
    edit2(s, fa);
    edit3(s, fb);
}
pub fn read_only<S: Src>(s: &mut S) {
    let (a, b) = (Point2D::new(s.num(), s.num()), p2(s));
    let (c, d) = (Point3D::new(s.num(), s.num(), s.num()), p3(s));
    if let Ok(n) = Norm2D::new(a.clone()) {
        let w = [n.x(), n.y()];
        is2(s, &n, &w);
    }
    if let Ok(n) = Norm3D::new(c.clone()) {
        let w = [n.x(), n.y(), n.z()];
        is3(s, &n, &w);
    }
    is2(s, &Norm2D::norm_x(), &[1.0, 0.0]);
    is2(s, &Norm2D::norm_y(), &[0.0, 1.0]);
    is3(s, &Norm3D::norm_x(), &[1.0, 0.0, 0.0]);
    is3(s, &Norm3D::norm_y(), &[0.0, 1.0, 0.0]);
    is3(s, &Norm3D::norm_z(), &[0.0, 0.0, 1.0]);
    if let Ok(n) = BoundingBox2D::new(&a, &b) {
        let m = n.center_bb();
        is2(s, &n, &[m.x, m.y]);
    }
    if let Ok(n) = BoundingBox3D::new(&c, &d) {
        let m = n.center_bb();
        is3(s, &n, &[m.x, m.y, m.z]);
    }
}
pub fn moves_2d<S: Src>(s: &mut S) {
    let k = s.below(5);
    let v: Vec<Point2D> = (0..k).map(|_| p2(s)).collect();
    let (x, y) = (s.f64(), s.f64());
    let ok = |a: &Point2D, b: &Point2D| same(b.x, a.x + x) && same(b.y, a.y + y);
    let mut m = v.clone();
    m.move_by(x, y);
    s.ck(m.len() == k && (0..k).all(|i| ok(&v[i], &m[i])), "Vec moved");
    let mut m: VecDeque<Point2D> = v.iter().cloned().collect();
    m.rotate_left(k / 2);
    let b: Vec<Point2D> = m.iter().cloned().collect();
    m.move_by(x, y);
    s.ck(m.len() == k && (0..k).all(|i| ok(&b[i], &m[i])), "VecDeque moved");
    let mut m: LinkedList<Point2D> = v.iter().cloned().collect();
    m.move_by(x, y);
    s.ck(m.len() == k && v.iter().zip(m.iter()).all(|(a, b)| ok(a, b)), "LinkedList moved");
    let mut m = PointCloud2D { data: v.clone() };
    m.move_by(x, y);
    s.ck(m.len() == k && (0..k).all(|i| ok(&v[i], &m.data[i])), "PointCloud2D moved");
    let mut m: Polygon2D<Point2D> = PointCloud2D { data: v.clone() }.into();
    m.move_by(x, y);
    s.ck(m.num_segments() == k && (0..k).all(|i| m.vertex(VId(i)).map_or(false, |p| ok(&v[i], &p))), "Polygon2D moved");
    let (a, b) = (p2(s), p2(s));
    let mut m = a.clone();
    m.move_by(x, y);
    s.ck(ok(&a, &m), "Point2D moved");
    let c = box2(s);
    let mut m = c.clone();
    m.move_by(x, y);
    s.ck(ok(&c.center, &m.center) && *c.size_x == *m.size_x && *c.size_y == *m.size_y, "Box2D moved");
    let mut m = LineSegment2D { start: a.clone(), end: b.clone() };
    m.move_by(x, y);
    s.ck(ok(&a, &m.start) && ok(&b, &m.end), "LineSegment2D moved");
    let mut m = Line2D { anchor: a.clone(), dir: Norm2D::norm_y() };
    m.move_by(x, y);
    s.ck(ok(&a, &m.anchor) && m.dir == Norm2D::norm_y(), "Line2D moved");
    let mut m = Ray2D { line: Line2D { anchor: a.clone(), dir: Norm2D::norm_x() } };
    m.move_by(x, y);
    s.ck(ok(&a, &m.line.anchor) && m.line.dir == Norm2D::norm_x(), "Ray2D moved");
    if let Ok(bb) = BoundingBox2D::new(&a, &b) {
        let mut m = bb.clone();
        m.move_by(x, y);
        s.ck(ok(&bb.min_p(), &m.min_p()) && ok(&bb.max_p(), &m.max_p()), "BoundingBox2D moved");
    }
}
pub fn moves_3d<S: Src>(s: &mut S) {
    let k = s.below(5);
    let v: Vec<Point3D> = (0..k).map(|_| p3(s)).collect();
    let (x, y, z) = (s.f64(), s.f64(), s.f64());
    let ok = |a: &Point3D, b: &Point3D| same(b.x, a.x + x) && same(b.y, a.y + y) && same(b.z, a.z + z);
    let mut m = v.clone();
    m.move_by(x, y, z);
    s.ck(m.len() == k && (0..k).all(|i| ok(&v[i], &m[i])), "Vec moved");
    let mut m: VecDeque<Point3D> = v.iter().cloned().collect();
    m.rotate_left(k / 2);
    let b: Vec<Point3D> = m.iter().cloned().collect();
    m.move_by(x, y, z);
    s.ck(m.len() == k && (0..k).all(|i| ok(&b[i], &m[i])), "VecDeque moved");
    let mut m: LinkedList<Point3D> = v.iter().cloned().collect();
    m.move_by(x, y, z);
    s.ck(m.len() == k && v.iter().zip(m.iter()).all(|(a, b)| ok(a, b)), "LinkedList moved");
    let mut m = PointCloud3D { data: v.clone() };
    m.move_by(x, y, z);
    s.ck(m.len() == k && (0..k).all(|i| ok(&v[i], &m.data[i])), "PointCloud3D moved");
    let mut m: Polygon3D<Point3D> = PointCloud3D { data: v.clone() }.into();
    m.move_by(x, y, z);
    s.ck(m.num_segments() == k && (0..k).all(|i| m.vertex(VId(i)).map_or(false, |p| ok(&v[i], &p))), "Polygon3D moved");
    let topo: Vec<usize> = (0..3 * k).map(|i| i % k.max(1)).collect();
    let mut m: Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>> = (PointCloud3D { data: v.clone() }, topo.clone()).into();
    m.move_by(x, y, z);
    s.ck(m.num_vertices() == k && m.num_faces() == k, "a moved mesh keeps its size");
    s.ck((0..k).all(|i| m.vertex(VId(i)).map_or(false, |p| ok(&v[i], &p))), "Mesh3D moved");
    s.ck((0..k).all(|i| m.face_vertex_ids(FId(i)) == Some(Face3::new(VId(topo[3 * i]), VId(topo[3 * i + 1]), VId(topo[3 * i + 2])))), "moving keeps the faces");
    let mut m = PointCloud3Df32::<Point3D>::new();
    for p in v.iter() {
        m.push_d(p.clone())
    }
    m.move_by(x, y, z);
    let f = |a: f64, d: f64, r: f64| same((a as f32 + d as f32) as f64, r);
    s.ck(m.len_d() == k && (0..k).all(|i| m.get_d(i).map_or(false, |p| f(v[i].x, x, p.x) && f(v[i].y, y, p.y) && f(v[i].z, z, p.z))), "PointCloud3Df32 moved");
    let (a, b) = (p3(s), p3(s));
    let mut m = a.clone();
    m.move_by(x, y, z);
    s.ck(ok(&a, &m), "Point3D moved");
    let c = box3(s);
    let mut m = c.clone();
    m.move_by(x, y, z);
    s.ck(ok(&c.center, &m.center) && *c.size_x == *m.size_x && *c.size_y == *m.size_y && *c.size_z == *m.size_z, "Box3D moved");
    let mut m = LineSegment3D { start: a.clone(), end: b.clone() };
    m.move_by(x, y, z);
    s.ck(ok(&a, &m.start) && ok(&b, &m.end), "LineSegment3D moved");
    let mut m = Line3D { anchor: a.clone(), dir: Norm3D::norm_y() };
    m.move_by(x, y, z);
    s.ck(ok(&a, &m.anchor) && m.dir == Norm3D::norm_y(), "Line3D moved");
    let mut m = Ray3D { line: Line3D { anchor: a.clone(), dir: Norm3D::norm_x() } };
    m.move_by(x, y, z);
    s.ck(ok(&a, &m.line.anchor) && m.line.dir == Norm3D::norm_x(), "Ray3D moved");
    if let Ok(bb) = BoundingBox3D::new(&a, &b) {
        let mut m = bb.clone();
        m.move_by(x, y, z);
        s.ck(ok(&bb.min_p(), &m.min_p()) && ok(&bb.max_p(), &m.max_p()), "BoundingBox3D moved");
    }
}
crate::natives! { points: 4000, boxes: 4000, circles: 4000, filters: 4000, read_only: 4000, moves_2d: 4000, moves_3d: 4000 }

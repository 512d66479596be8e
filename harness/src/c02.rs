use crate::Src;
use rust_3d::*;

fn p3<S: Src>(s: &mut S) -> Point3D {
    Point3D { x: s.num(), y: s.num(), z: s.num() }
}
fn p2<S: Src>(s: &mut S) -> Point2D {
    Point2D { x: s.num(), y: s.num() }
}
fn list2(c: &[[f64; 3]]) -> Vec<Point2D> {
    c.iter().map(|c| Point2D { x: c[0], y: c[1] }).collect()
}
fn list3(c: &[[f64; 3]]) -> Vec<Point3D> {
    c.iter().map(|c| Point3D { x: c[0], y: c[1], z: c[2] }).collect()
}
type Lim = Option<([f64; 3], [f64; 3])>;
fn a2(b: &BoundingBox2D) -> Lim {
    Some(([b.min_p().x, b.min_p().y, 0.0], [b.max_p().x, b.max_p().y, 0.0]))
}
fn a3(b: &BoundingBox3D) -> Lim {
    Some(([b.min_p().x, b.min_p().y, b.min_p().z], [b.max_p().x, b.max_p().y, b.max_p().z]))
}
fn f2(b: Option<BoundingBox2D>) -> Lim {
    b.and_then(|b| a2(&b))
}
fn f3(b: Option<BoundingBox3D>) -> Lim {
    b.and_then(|b| a3(&b))
}
fn eq(n: usize, a: &Lim, b: &Lim) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => (0..n).all(|i| a.0[i] == b.0[i] && a.1[i] == b.1[i]),
        (None, None) => true,
        _ => false,
    }
}
/// the limits of a list of NaN free coordinates
fn want(n: usize, c: &[[f64; 3]]) -> Lim {
    if c.len() < 2 {
        return None;
    }
    let (mut lo, mut hi) = (c[0], c[0]);
    for x in c {
        for i in 0..n {
            if x[i] < lo[i] {
                lo[i] = x[i]
            }
            if x[i] > hi[i] {
                hi[i] = x[i]
            }
        }
    }
    box_if(n, lo, hi)
}
fn box_if(n: usize, lo: [f64; 3], hi: [f64; 3]) -> Lim {
    if (0..n).all(|i| lo[i] < hi[i]) {
        Some((lo, hi))
    } else {
        None
    }
}
fn coords<S: Src>(s: &mut S, max: usize) -> Vec<[f64; 3]> {
    let n = s.below(max + 1);
    (0..n).map(|_| [s.num(), s.num(), s.num()]).collect()
}
/// sometimes equal in a coordinate
fn pair<S: Src>(s: &mut S, any: bool) -> ([f64; 3], [f64; 3]) {
    let mut g = |s: &mut S| if any { s.f64() } else { s.num() };
    let a = [g(s), g(s), g(s)];
    let mut b = [g(s), g(s), g(s)];
    for i in 0..3 {
        match s.below(8) {
            0 => b[i] = a[i],
            1 if a[i].is_finite() => b[i] = f64::from_bits(a[i].to_bits() + 1),
            _ => (),
        }
    }
    (a, b)
}
pub fn new_box<S: Src>(s: &mut S) {
    let (a, b) = pair(s, true);
    let r = BoundingBox2D::new(&Point2D { x: a[0], y: a[1] }, &Point2D { x: b[0], y: b[1] });
    s.ck(eq(2, &f2(r.ok()), &box_if(2, a, b)), "a 2D box exists exactly if min < max in every dimension and has these limits");
    let r = BoundingBox3D::new(&Point3D { x: a[0], y: a[1], z: a[2] }, &Point3D { x: b[0], y: b[1], z: b[2] });
    s.ck(eq(3, &f3(r.ok()), &box_if(3, a, b)), "a 3D box exists exactly if min < max in every dimension and has these limits");
}
pub fn of_positions<S: Src>(s: &mut S) {
    let c = coords(s, 7);
    let (u, v) = (list2(&c), list3(&c));
    let (w2, w3) = (want(2, &c), want(3, &c));
    s.ck(eq(2, &f2(BoundingBox2D::from_iterator(&u).ok()), &w2), "2D box of positions");
    s.ck(eq(3, &f3(BoundingBox3D::from_iterator(&v).ok()), &w3), "3D box of positions");
    s.ck(eq(2, &f2(BoundingBox2D::from_into_iterator(u.clone()).ok()), &w2), "2D box of owned positions");
    s.ck(eq(3, &f3(BoundingBox3D::from_into_iterator(v.clone()).ok()), &w3), "3D box of owned positions");
    s.ck(eq(2, &f2(PointCloud2D { data: u.clone() }.bounding_box_maybe()), &w2), "2D box of a cloud");
    s.ck(eq(3, &f3(PointCloud3D { data: v.clone() }.bounding_box_maybe()), &w3), "3D box of a cloud");
    let p: Polygon2D<Point2D> = Polygon2D::from(PointCloud2D { data: u.clone() });
    s.ck(eq(2, &f2(p.bounding_box_maybe()), &w2), "box of a 2D polygon");
    let p: Polygon3D<Point3D> = Polygon3D::from(PointCloud3D { data: v.clone() });
    s.ck(eq(3, &f3(p.bounding_box_maybe()), &w3), "box of a 3D polygon");
    let mut m = Mesh3D::<Point3D, PointCloud3D<Point3D>, Vec<usize>>::default();
    for p in v.iter() {
        m.add_vertex(p.clone());
    }
    s.ck(eq(3, &f3(m.bounding_box_maybe()), &w3), "box of a mesh");
    let conv = HasBoundingBox3DConverted::new(PointCloud3D { data: v.clone() });
    s.ck(conv.is_some() == w3.is_some(), "converted exactly if there is a box");
    if let Some(x) = conv {
        s.ck(x.get().data == v && eq(3, &a3(&x.bounding_box()), &w3) && eq(3, &f3(x.bounding_box_maybe()), &w3), "box of the converted cloud")
    }
    let conv = HasBoundingBox2DConverted::new(PointCloud2D { data: u.clone() });
    s.ck(conv.is_some() == w2.is_some(), "converted exactly if there is a box");
    if let Some(x) = conv {
        s.ck(x.get().data == u && eq(2, &a2(&x.bounding_box()), &w2) && eq(2, &f2(x.bounding_box_maybe()), &w2), "box of the converted cloud")
    }
    let mut f = PointCloud3Df32::<Point3D>::new();
    let mut fc = vec![];
    for p in v.iter() {
        let q = [p.x as f32 as f64, p.y as f32 as f64, p.z as f32 as f64];
        f.push_d(p.clone());
        fc.push(q)
    }
    s.ck(eq(3, &f3(f.bounding_box_maybe()), &want(3, &fc)), "box of the f32 cloud");
}
pub fn of_shapes<S: Src>(s: &mut S) {
    let (a, b) = pair(s, false);
    let c = [s.num(), s.num(), s.num()];
    let w = want(3, &[a, b]);
    let w2 = want(2, &[a, b]);
    let l = list3(&[a, b, c]);
    let l2 = list2(&[a, b, c]);
    s.ck(eq(3, &f3(LineSegment3D::new(l[0].clone(), l[1].clone()).bounding_box_maybe()), &w), "box of a 3D line segment");
    s.ck(eq(2, &f2(LineSegment2D::new(l2[0].clone(), l2[1].clone()).bounding_box_maybe()), &w2), "box of a 2D line segment");
    let w = want(3, &[a, b, c]);
    let t = TriFace3D::new(l[0].clone(), l[1].clone(), l[2].clone());
    s.ck(t.is_ok() == w.is_some(), "a triangle exists exactly if it has a box");
    if let Ok(t) = t {
        s.ck(*t.a() == l[0] && *t.b() == l[1] && *t.c() == l[2], "corners of a triangle");
        s.ck(eq(3, &a3(&t.bounding_box()), &w) && eq(3, &f3(t.bounding_box_maybe()), &w), "box of a triangle");
        s.ck(eq(3, &a3(&Collider3D::Face(t).bounding_box()), &w), "box of a triangle collider");
    }
    let sz = [s.num(), s.num(), s.num()];
    if let (Some(x), Some(y), Some(z)) = (Positive::new(sz[0]), Positive::new(sz[1]), Positive::new(sz[2])) {
        let lim = |n: usize, h: [f64; 3]| box_if(n, [a[0] - h[0], a[1] - h[1], a[2] - h[2]], [a[0] + h[0], a[1] + h[1], a[2] + h[2]]);
        let h = [sz[0] / 2.0, sz[1] / 2.0, sz[2] / 2.0];
        let r = [sz[0]; 3];
        let w = lim(2, h);
        if w.is_some() {
            let k = Box2D { center: l2[0].clone(), size_x: x, size_y: y };
            s.ck(eq(2, &a2(&k.bounding_box()), &w) && eq(2, &f2(k.bounding_box_maybe()), &w), "box of a 2D box");
            let (u, o) = (k.min_p(), k.max_p());
            s.ck(eq(2, &Some(([u.x, u.y, 0.0], [o.x, o.y, 0.0])), &w), "corners of a 2D box");
            let k = FilterBox2D::new(k);
            s.ck(eq(2, &a2(&k.bounding_box()), &w) && eq(2, &f2(k.bounding_box_maybe()), &w), "box of a 2D box filter");
        }
        let w = lim(3, h);
        if w.is_some() {
            let k = Box3D { center: l[0].clone(), size_x: x, size_y: y, size_z: z };
            s.ck(eq(3, &a3(&k.bounding_box()), &w) && eq(3, &f3(k.bounding_box_maybe()), &w), "box of a 3D box");
            let (u, o) = (k.min_p(), k.max_p());
            s.ck(eq(3, &Some(([u.x, u.y, u.z], [o.x, o.y, o.z])), &w), "corners of a 3D box");
            let k = FilterBox3D::new(k);
            s.ck(eq(3, &a3(&k.bounding_box()), &w) && eq(3, &f3(k.bounding_box_maybe()), &w), "box of a 3D box filter");
        }
        if a.iter().all(|c| c.abs() < 1e100) && [*x, *y, *z].iter().all(|c| *c < 1e100) {
            let mut k = BoxUnaligned3D::new_from_z_rotation(&l[0], [x, y, z], s.below(9) as f64 / 3.0);
            if s.bool() { k.y_dir = Norm3D::new(Point3D { x: 1.0, y: 2.0, z: -1.0 }).unwrap(); k.z_dir = Norm3D::new(Point3D { x: 3.0, y: -1.0, z: 1.0 }).unwrap() }
            let mut c = vec![];
            k.for_each_point(&mut |p: &Point3D| c.push([p.x, p.y, p.z]));
            let w = want(3, &c);
            if w.is_some() { s.ck(c.len() == 8 && eq(3, &a3(&k.bounding_box()), &w) && eq(3, &f3(k.bounding_box_maybe()), &w), "box of a rotated box") }
        }
        let w = lim(2, r);
        if w.is_some() {
            let k = Circle { center: l2[0].clone(), radius: x };
            s.ck(eq(2, &a2(&k.bounding_box()), &w) && eq(2, &f2(k.bounding_box_maybe()), &w), "box of a circle");
            let k = FilterCircle::new(k);
            s.ck(eq(2, &a2(&k.bounding_box()), &w) && eq(2, &f2(k.bounding_box_maybe()), &w), "box of a circle filter");
        }
        let w = lim(3, r);
        if w.is_some() {
            let k = Sphere { center: l[0].clone(), radius: x };
            s.ck(eq(3, &a3(&k.bounding_box()), &w) && eq(3, &f3(k.bounding_box_maybe()), &w), "box of a sphere");
            let k = FilterSphere::new(k);
            s.ck(eq(3, &a3(&k.bounding_box()), &w) && eq(3, &f3(k.bounding_box_maybe()), &w), "box of a sphere filter");
        }
    }
}
fn valid<S: Src>(s: &mut S) -> ([f64; 3], [f64; 3]) {
    let (mut a, mut b) = pair(s, false);
    for i in 0..3 {
        s.assume(a[i] != b[i]);
        if a[i] > b[i] {
            let t = a[i];
            a[i] = b[i];
            b[i] = t
        }
    }
    (a, b)
}
pub fn accessors<S: Src>(s: &mut S) {
    let (a, b) = valid(s);
    let (l, l2) = (list3(&[a, b]), list2(&[a, b]));
    if let (Ok(k), Ok(k2)) = (BoundingBox3D::new(&l[0], &l[1]), BoundingBox2D::new(&l2[0], &l2[1])) {
        s.ck(*k.size_x() == b[0] - a[0] && *k.size_y() == b[1] - a[1] && *k.size_z() == b[2] - a[2], "3D sizes");
        let z = k.sizes();
        s.ck((0..3).all(|i| *z[i] == b[i] - a[i]), "3D sizes");
        s.ck(*k2.size_x() == b[0] - a[0] && *k2.size_y() == b[1] - a[1], "2D sizes");
        let z = k2.sizes();
        s.ck((0..2).all(|i| *z[i] == b[i] - a[i]), "2D sizes");
        if (0..3).all(|i| (b[i] - a[i]).is_finite() && a[i].is_finite()) {
            let c = k.center_bb();
            let c2 = k2.center_bb();
            let w: Vec<f64> = (0..3).map(|i| a[i] + (b[i] - a[i]) / 2.0).collect();
            s.ck(c.x == w[0] && c.y == w[1] && c.z == w[2] && c2.x == w[0] && c2.y == w[1], "center");
        }
        let pick = |m: usize, i: usize, n: usize| if (m >> (n - 1 - i)) & 1 == 1 { b[i] } else { a[i] };
        let cs = k.corners();
        s.ck((0..8).all(|m| cs[m].x == pick(m, 0, 3) && cs[m].y == pick(m, 1, 3) && cs[m].z == pick(m, 2, 3)), "3D corners");
        let cs = k2.corners();
        s.ck((0..4).all(|m| (0..4).any(|j| cs[j].x == pick(m, 0, 2) && cs[j].y == pick(m, 1, 2))), "2D corners");
        s.ck(eq(3, &a3(&k.bounding_box()), &Some((a, b))) && eq(3, &f3(k.bounding_box_maybe()), &Some((a, b))), "box of a 3D box");
        s.ck(eq(2, &a2(&k2.bounding_box()), &Some((a, b))) && eq(2, &f2(k2.bounding_box_maybe()), &Some((a, b))), "box of a 2D box");
        s.ck(eq(3, &a3(&Collider3D::AABB(k).bounding_box()), &Some((a, b))), "box of a box collider");
    } else {
        s.ck(false, "valid limits give a box")
    }
}
pub fn merging<S: Src>(s: &mut S) {
    let (a, b) = valid(s);
    let (c, d) = valid(s);
    let w = want(3, &[a, b, c, d]);
    let (l, l2) = (list3(&[a, b, c, d]), list2(&[a, b, c, d]));
    if let (Ok(mut p), Ok(q)) = (BoundingBox3D::new(&l[0], &l[1]), BoundingBox3D::new(&l[2], &l[3])) {
        s.ck(eq(3, &a3(&p.combine(&q)), &w), "combined 3D box");
        p.consume(q);
        s.ck(eq(3, &a3(&p), &w), "merged 3D box");
    }
    if let (Ok(mut p), Ok(q)) = (BoundingBox2D::new(&l2[0], &l2[1]), BoundingBox2D::new(&l2[2], &l2[3])) {
        s.ck(eq(2, &a2(&p.combine(&q)), &w), "combined 2D box");
        p.consume(q);
        s.ck(eq(2, &a2(&p), &w), "merged 2D box");
    }
}
crate::natives! { new_box: 100000, of_positions: 60000, of_shapes: 60000, accessors: 60000, merging: 60000 }

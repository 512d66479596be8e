use crate::Src;
use rust_3d::*;

fn v3<S: Src>(s: &mut S) -> [f64; 3] {
    [s.num(), s.num(), s.num()]
}
/// coordinates on, just beside or anywhere around a border
fn around<S: Src>(s: &mut S, c: f64, h: f64) -> f64 {
    let b = match s.below(5) {
        0 => c - h,
        1 => c + h,
        2 => c,
        3 => c + h * 0.5,
        _ => return s.f64(),
    };
    match s.below(5) {
        0 if b.is_finite() && b != 0.0 => f64::from_bits(b.to_bits() + 1),
        1 if b.is_finite() && b != 0.0 => f64::from_bits(b.to_bits() - 1),
        _ => b,
    }
}
pub fn boxes<S: Src>(s: &mut S) {
    let c = v3(s);
    let z = v3(s);
    if let (Some(a), Some(b), Some(d)) = (Positive::new(z[0].abs()), Positive::new(z[1].abs()), Positive::new(z[2].abs())) {
        let z = [*a, *b, *d];
        let mut p = [0.0; 3];
        for i in 0..3 {
            p[i] = if s.below(4) == 0 { c[i] } else { around(s, c[i], z[i] / 2.0) }
        }
        let ok = |n: usize| (0..n).all(|i| c[i] - z[i] / 2.0 <= p[i] && p[i] <= c[i] + z[i] / 2.0);
        let k = Box3D { center: Point3D { x: c[0], y: c[1], z: c[2] }, size_x: a, size_y: b, size_z: d };
        let q = Point3D { x: p[0], y: p[1], z: p[2] };
        s.ck(FilterBox3D::new(k.clone()).is_allowed(&q) == ok(3), "3D box filter allows exactly the positions within the box, borders included");
        let (l, h) = (k.min_p(), k.max_p());
        s.ck(IsFilter::<Norm3D>::is_allowed(&FilterBox3D::new(k.clone()), &Norm3D::norm_z()) == [0.0, 0.0, 1.0].iter().enumerate().all(|(i, v)| c[i] - z[i] / 2.0 <= *v && *v <= c[i] + z[i] / 2.0), "3D box filter for any positioned type");
        s.ck(l.x == c[0] - z[0] / 2.0 && l.y == c[1] - z[1] / 2.0 && l.z == c[2] - z[2] / 2.0 || c.iter().chain(z.iter()).any(|x| x.is_infinite()), "min_p");
        s.ck(h.x == c[0] + z[0] / 2.0 && h.y == c[1] + z[1] / 2.0 && h.z == c[2] + z[2] / 2.0 || c.iter().chain(z.iter()).any(|x| x.is_infinite()), "max_p");
        s.ck((0..3).all(|i| *k.sizes()[i] == z[i]), "sizes");
        let k = Box2D { center: Point2D { x: c[0], y: c[1] }, size_x: a, size_y: b };
        let q = Point2D { x: p[0], y: p[1] };
        s.ck(FilterBox2D::new(k).is_allowed(&q) == ok(2), "2D box filter allows exactly the positions within the box, borders included");
    }
}
pub fn spheres<S: Src>(s: &mut S) {
    let c = v3(s);
    let r = s.num().abs();
    if let Some(rad) = Positive::new(r) {
        // on the surface for exactly representable triples, else anywhere
        let mut p = [0.0; 3];
        let k = [[0.6, 0.8, 0.0], [0.0, 0.6, 0.8], [1.0, 0.0, 0.0], [0.0, 0.0, -1.0], [0.5, 0.5, 0.5], [0.9, 0.9, 0.9]][s.below(6)];
        for i in 0..3 {
            p[i] = if s.below(5) == 0 { s.f64() } else { c[i] + k[i] * r }
        }
        let g: Vec<f64> = (0..3).map(|i| (p[i] - c[i]) * (p[i] - c[i])).collect();
        let (d2, d3) = (g[0] + g[1], g[0] + g[1] + g[2]);
        let (q3, c3) = (Point3D { x: p[0], y: p[1], z: p[2] }, Point3D { x: c[0], y: c[1], z: c[2] });
        let (q2, c2) = (Point2D { x: p[0], y: p[1] }, Point2D { x: c[0], y: c[1] });
        s.ck(FilterSphere::new(Sphere { center: c3.clone(), radius: rad }).is_allowed(&q3) == (d3.sqrt() <= r), "sphere filter allows exactly the positions at most the radius away");
        s.ck(FilterCircle::new(Circle { center: c2.clone(), radius: rad }).is_allowed(&q2) == (d2.sqrt() <= r), "circle filter allows exactly the positions at most the radius away");
        let e = |a: f64, b: f64| a == b || a.is_nan() && b.is_nan();
        s.ck(e(sqr_dist_3d(&q3, &c3), d3) && e(dist_3d(&q3, &c3), d3.sqrt()), "3D distance");
        s.ck(e(sqr_dist_2d(&q2, &c2), d2) && e(dist_2d(&q2, &c2), d2.sqrt()), "2D distance");
        let e = |a: Result<f64>, b: f64| a.map_or(false, |a| e(a, b));
        s.ck(e(sqr_dist_nd(&q3, &c3), d3) && e(dist_nd(&q3, &c3), d3.sqrt()), "distance of any dimension");
        s.ck(e(sqr_dist_nd(&q2, &c2), d2) && e(dist_nd(&q2, &c2), d2.sqrt()), "distance of any dimension");
        s.ck(sqr_dist_nd(&q2, &c3).is_err() && dist_nd(&q3, &c2).is_err(), "no distance between different dimensions");
    }
}
pub fn of_bounding_box<S: Src>(s: &mut S) {
    let (a, b) = (v3(s), v3(s));
    for i in 0..3 {
        s.assume(a[i] < b[i] && (b[i] - a[i]).is_finite())
    }
    let b3 = BoundingBox3D::new(&Point3D { x: a[0], y: a[1], z: a[2] }, &Point3D { x: b[0], y: b[1], z: b[2] }).unwrap();
    let b2 = BoundingBox2D::new(&Point2D { x: a[0], y: a[1] }, &Point2D { x: b[0], y: b[1] }).unwrap();
    let c: Vec<f64> = (0..3).map(|i| a[i] + (b[i] - a[i]) / 2.0).collect();
    let z: Vec<f64> = (0..3).map(|i| b[i] - a[i]).collect();
    let k = <Box3D as From<BoundingBox3D>>::from(b3.clone());
    s.ck(k.center.x == c[0] && k.center.y == c[1] && k.center.z == c[2] && *k.size_x == z[0] && *k.size_y == z[1] && *k.size_z == z[2], "3D box of a bounding box");
    s.ck(<FilterBox3D as From<BoundingBox3D>>::from(b3) == FilterBox3D::new(k), "3D box filter of a bounding box");
    let k = <Box2D as From<BoundingBox2D>>::from(b2.clone());
    s.ck(k.center.x == c[0] && k.center.y == c[1] && *k.size_x == z[0] && *k.size_y == z[1], "2D box of a bounding box");
    s.ck(<FilterBox2D as From<BoundingBox2D>>::from(b2) == FilterBox2D::new(k), "2D box filter of a bounding box");
}
crate::natives! { boxes: 100000, spheres: 100000, of_bounding_box: 100000 }

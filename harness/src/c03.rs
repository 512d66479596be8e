use crate::Src;
use rust_3d::*;

type Lim = ([f64; 3], [f64; 3]);
/// values related to others in all ways (equal, one step apart, far)
fn near<S: Src>(s: &mut S, known: &[f64]) -> f64 {
    if known.is_empty() {
        return s.num();
    }
    let k = known[s.below(known.len())];
    match s.below(8) {
        0 | 1 => k,
        2 if k.is_finite() && k != 0.0 => f64::from_bits(k.to_bits() + 1),
        3 if k.is_finite() && k != 0.0 => f64::from_bits(k.to_bits() - 1),
        _ => s.num(),
    }
}
fn valid<S: Src>(s: &mut S, known: &[Lim]) -> Lim {
    let (mut a, mut b) = ([0.0; 3], [0.0; 3]);
    for i in 0..3 {
        let mut k: Vec<f64> = vec![];
        for l in known {
            k.push(l.0[i]);
            k.push(l.1[i])
        }
        a[i] = near(s, &k);
        b[i] = near(s, &k);
        if a[i] == b[i] && b[i].abs() < 1e308 {
            b[i] += 1.0 + b[i].abs()
        }
        s.assume(a[i] != b[i]);
        if a[i] > b[i] {
            let t = a[i];
            a[i] = b[i];
            b[i] = t
        }
    }
    (a, b)
}
fn b3(l: &Lim) -> BoundingBox3D {
    BoundingBox3D::new(&Point3D { x: l.0[0], y: l.0[1], z: l.0[2] }, &Point3D { x: l.1[0], y: l.1[1], z: l.1[2] }).unwrap()
}
fn b2(l: &Lim) -> BoundingBox2D {
    BoundingBox2D::new(&Point2D { x: l.0[0], y: l.0[1] }, &Point2D { x: l.1[0], y: l.1[1] }).unwrap()
}
fn all(n: usize, f: impl Fn(usize) -> bool) -> bool {
    (0..n).all(f)
}
pub fn positions<S: Src>(s: &mut S) {
    let l = valid(s, &[]);
    let mut p = [0.0; 3];
    for i in 0..3 {
        p[i] = match s.below(3) {
            0 => l.0[i] + (l.1[i] - l.0[i]) * 0.25 * s.below(5) as f64,
            _ => near(s, &[l.0[i], l.1[i]]),
        };
        s.assume(!p[i].is_nan());
    }
    let (k3, k2) = (b3(&l), b2(&l));
    let (q3, q2) = (Point3D { x: p[0], y: p[1], z: p[2] }, Point2D { x: p[0], y: p[1] });
    let inside = |n: usize| all(n, |i| l.0[i] < p[i] && p[i] < l.1[i]);
    s.ck(k3.contains(&q3) == inside(3), "3D contains exactly the positions strictly between the limits");
    s.ck(k2.contains(&q2) == inside(2), "2D contains exactly the positions strictly between the limits");
    let cross = |i: usize, v: f64| l.0[i] < v && v < l.1[i];
    s.ck(k3.crossing_x_value(p[0]) == cross(0, p[0]) && k3.crossing_y_value(p[1]) == cross(1, p[1]) && k3.crossing_z_value(p[2]) == cross(2, p[2]), "3D crossing");
    s.ck(k2.crossing_x_value(p[0]) == cross(0, p[0]) && k2.crossing_y_value(p[1]) == cross(1, p[1]), "2D crossing");
    if all(3, |i| !(l.0[i] - p[i]).is_nan() && !(p[i] - l.1[i]).is_nan()) {
        let gap = |i: usize| {
            if p[i] < l.0[i] {
                l.0[i] - p[i]
            } else if p[i] > l.1[i] {
                p[i] - l.1[i]
            } else {
                0.0
            }
        };
        let d2 = gap(0) * gap(0) + gap(1) * gap(1);
        let d3 = d2 + gap(2) * gap(2);
        s.ck(*k3.sqr_distance(&q3) == d3 && *k3.distance(&q3) == d3.sqrt(), "3D distance to a position is the length of the gaps");
        s.ck(*k2.sqr_distance(&q2) == d2 && *k2.distance(&q2) == d2.sqrt(), "2D distance to a position is the length of the gaps");
    }
}
pub fn boxes<S: Src>(s: &mut S) {
    let a = valid(s, &[]);
    let b = valid(s, &[a]);
    let (a3, c3, a2, c2) = (b3(&a), b3(&b), b2(&a), b2(&b));
    let within = |n: usize, x: &Lim, y: &Lim| all(n, |i| y.0[i] < x.0[i] && x.1[i] < y.1[i]);
    s.ck(a3.is_inside(&c3) == within(3, &a, &b) && c3.is_inside(&a3) == within(3, &b, &a), "3D is_inside");
    s.ck(a2.is_inside(&c2) == within(2, &a, &b) && c2.is_inside(&a2) == within(2, &b, &a), "2D is_inside");
    s.ck(a3.has_inside(&c3) == within(3, &b, &a) && c3.has_inside(&a3) == within(3, &a, &b), "3D has_inside");
    s.ck(a2.has_inside(&c2) == within(2, &b, &a) && c2.has_inside(&a2) == within(2, &a, &b), "2D has_inside");
    let hit = |n: usize| all(n, |i| a.0[i] < b.1[i] && b.0[i] < a.1[i]);
    s.ck(a3.collides_with(&c3) == hit(3) && c3.collides_with(&a3) == hit(3), "3D boxes collide exactly if their open extents overlap");
    s.ck(a2.collides_with(&c2) == hit(2) && c2.collides_with(&a2) == hit(2), "2D boxes collide exactly if their open extents overlap");
    s.ck(Collider3D::AABB(a3.clone()).collides_with(&Collider3D::AABB(c3.clone())) == hit(3), "box colliders");
    if all(3, |i| !(a.0[i] - b.1[i]).is_nan() && !(b.0[i] - a.1[i]).is_nan()) {
        let gap = |i: usize| {
            if b.1[i] < a.0[i] {
                a.0[i] - b.1[i]
            } else if b.0[i] > a.1[i] {
                b.0[i] - a.1[i]
            } else {
                0.0
            }
        };
        let d2 = gap(0) * gap(0) + gap(1) * gap(1);
        let d3 = d2 + gap(2) * gap(2);
        let f = |x: &BoundingBox3D, y: &BoundingBox3D| (*HasDistanceTo::sqr_distance(x, y), *HasDistanceTo::distance(x, y));
        s.ck(f(&a3, &c3) == (d3, d3.sqrt()) && f(&c3, &a3) == (d3, d3.sqrt()), "distance of 3D boxes");
        let f = |x: &BoundingBox2D, y: &BoundingBox2D| (*HasDistanceTo::sqr_distance(x, y), *HasDistanceTo::distance(x, y));
        s.ck(f(&a2, &c2) == (d2, d2.sqrt()) && f(&c2, &a2) == (d2, d2.sqrt()), "distance of 2D boxes");
    }
}
crate::natives! { positions: 200000, boxes: 200000 }

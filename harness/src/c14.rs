use crate::Src;
use rust_3d::*;

fn det(a: &Point2D, b: &Point2D, c: &Point2D) -> i128 {
    let v = |x: f64| (x * 4.0) as i128;
    (v(b.x) - v(a.x)) * (v(c.y) - v(a.y)) - (v(b.y) - v(a.y)) * (v(c.x) - v(a.x))
}
pub fn hull<S: Src>(s: &mut S) {
    let n = if s.below(10) == 0 { s.below(60) } else { s.below(9) };
    let kind = s.below(6);
    let mut pc = PointCloud2D::new();
    for i in 0..n {
        // coordinates for which products are exact
        let (x, y) = match kind {
            0 => (s.below(3) as f64, s.below(3) as f64),
            1 => (s.below(2_000_001) as f64 - 1_000_000.0, s.below(2_000_001) as f64 - 1_000_000.0),
            2 => (7.0, s.below(5) as f64),
            3 => (s.below(5) as f64 * 0.25, -2.0),
            4 => (i as f64, i as f64 * 2.0 - 5.0),
            _ => (s.below(20) as f64 - 10.0, s.below(20) as f64 * 0.5 - 5.0),
        };
        pc.push(Point2D::new(x, y));
    }
    let v = pc.data.clone();
    let h = convex_hull_2d(&pc);
    s.ck(h.iter().all(|p| v.contains(p)), "every vertex of the hull is an input point");
    s.ck(h.is_empty() == v.is_empty(), "the hull of a cloud is empty only if the cloud is");
    s.ck((0..h.len()).all(|i| (0..i).all(|j| h[i] != h[j])), "no vertex of the hull is listed twice");
    if h.len() == 1 {
        s.ck(v.iter().all(|p| *p == h[0]), "a single vertex is the hull of equal points");
    }
    if h.len() == 2 {
        let on = |p: &Point2D| det(&h[0], &h[1], p) == 0 && p.x >= h[0].x.min(h[1].x) && p.x <= h[0].x.max(h[1].x) && p.y >= h[0].y.min(h[1].y) && p.y <= h[0].y.max(h[1].y);
        s.ck(v.iter().all(on), "two vertices are the ends of the segment with all points");
    }
    if h.len() > 2 {
        let m = h.len();
        s.ck((0..m).all(|i| v.iter().all(|p| det(&h[i], &h[(i + 1) % m], p) >= 0)), "every point lies left of or on every edge");
        s.ck((0..m).all(|i| det(&h[i], &h[(i + 1) % m], &h[(i + 2) % m]) > 0), "the vertices turn left (counter-clockwise)");
    }
}
crate::natives! {
    hull: 60000,
}

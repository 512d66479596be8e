use crate::Src;
use rust_3d::*;

/// distance from the line, or from the point if the line has no direction
fn dist(p: &Point2D, a: &Point2D, b: &Point2D) -> f64 {
    let (dx, dy) = (b.x - a.x, b.y - a.y);
    let (px, py) = (p.x - a.x, p.y - a.y);
    let l = dx.hypot(dy);
    if l == 0.0 { px.hypot(py) } else { ((dx * py - dy * px) / l).abs() }
}
pub fn simplify<S: Src>(s: &mut S) {
    let n = if s.below(10) == 0 { s.below(40) } else { s.below(8) };
    let kind = s.below(5);
    let mut pc = PointCloud2D::new();
    for i in 0..n {
        let (x, y) = match kind {
            0 => (s.grid(), s.grid()),
            1 => (s.below(1000) as f64 / 7.0 - 50.0, s.below(1000) as f64 / 7.0 - 50.0),
            2 => (3.0, s.below(9) as f64),                  // vertical
            3 => (i as f64, s.below(5) as f64),             // a graph
            _ => (s.below(3) as f64, s.below(3) as f64),    // many repetitions, closed lines
        };
        // the id travels in no coordinate: points are told apart by their position in the input
        pc.push(Point2D::new(x, y));
    }
    let eps = match s.below(4) { 0 => 0.0, 1 => 1.0, 2 => s.below(100) as f64 / 10.0, _ => 1e-3 };
    let v = pc.data.clone();
    let r = douglas_peucker_2d(pc, eps).data;
    if n <= 2 {
        s.ck(r == v, "up to two points come back unchanged");
        return;
    }
    s.ck(r.len() >= 2 && r[0] == v[0] && r[r.len() - 1] == v[n - 1], "the first and the last point are kept");
    // some way to map the result into the input such that all dropped points are close (dynamic programming over the last kept point)
    let scale = v.iter().map(|p| p.x.abs().max(p.y.abs())).fold(1.0, f64::max);
    let tol = eps + 1e-9 * scale;
    let gap = |i: usize, j: usize| (i + 1..j).all(|k| dist(&v[k], &v[i], &v[j]) <= tol);
    let mut at: Vec<bool> = (0..n).map(|i| i == 0).collect();
    for k in 1..r.len() {
        at = (0..n).map(|j| v[j] == r[k] && (0..j).any(|i| at[i] && gap(i, j))).collect();
    }
    s.ck(at[n - 1], "the result is a subsequence and every dropped point is within the tolerance of its line");
}
crate::natives! {
    simplify: 40000,
}

use crate::Src;
use rust_3d::*;

type V = [f64; 2];
fn at(pc: &PointCloud2D<Point2D>, i: usize) -> V { [pc.data[i].x(), pc.data[i].y()] }
fn near(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-7 * (1.0 + a.abs().max(b.abs())) }
fn close(a: V, b: V) -> bool { near(a[0], b[0]) && near(a[1], b[1]) }
fn frac<S: Src>(s: &mut S) -> f64 { (s.u32() as f64) / (u32::max_value() as f64) }
fn co<S: Src>(s: &mut S) -> f64 { if s.bool() { s.grid() } else { frac(s) * 20.0 - 10.0 } }
fn pos<S: Src>(s: &mut S) -> f64 { match s.below(3) { 0 => 1.0 + s.below(4) as f64, 1 => 0.5, _ => 0.01 + frac(s) * 3.0 } }
fn num<S: Src>(s: &mut S) -> usize { match s.below(4) { 0 => s.below(4), 1 => 2 + s.below(8), _ => 2 + s.below(40) } }
fn angle<S: Src>(s: &mut S) -> f64 { match s.below(4) { 0 => 0.0, 1 => std::f64::consts::PI * (s.below(9) as f64 - 4.0) / 4.0, _ => frac(s) * 14.0 - 7.0 } }
fn share(i: usize, n: usize) -> f64 { if n < 2 { 0.0 } else { i as f64 / (n - 1) as f64 } }

/// rectangles, arcs, involutes and ellipses
pub fn shapes<S: Src>(s: &mut S) {
    let (x, y, a, b, n, from, to) = (co(s), co(s), pos(s), pos(s), num(s), angle(s), angle(s));
    let c = Point2D::new(x, y);
    let (pa, pb) = (Positive::new(a).unwrap(), Positive::new(b).unwrap());
    let r = rectangle(&c, pa, pb);
    s.ck(r.len() == 4, "rectangle: four corners");
    let w = [[-a, -b], [a, -b], [a, b], [-a, b]];
    s.ck((0..4).all(|i| close(at(&r, i), [x + w[i][0] / 2.0, y + w[i][1] / 2.0])), "rectangle: the corners in order");
    let span = (to - from).abs();
    let r = arc(&c, n, pa, Rad(from), Rad(to));
    s.ck(r.len() == n, "arc: number of positions");
    for i in 0..n {
        let t = from + share(i, n) * span;
        s.ck(close(at(&r, i), [x + a / 2.0 * t.cos(), y + a / 2.0 * t.sin()]), "arc: equally spaced from the start");
    }
    let r = involut_circle(&c, n, pa, Rad(from), Rad(to));
    s.ck(r.len() == n, "involute: number of positions");
    for i in 0..n {
        let t = from + share(i, n) * span;
        s.ck(close(at(&r, i), [x + a / 2.0 * (t.cos() + t * t.sin()), y + a / 2.0 * (t.sin() - t * t.cos())]), "involute: equally spaced from the start");
    }
    let r = ellipse(&c, n, pa, pb);
    s.ck(r.len() == n, "ellipse: number of positions");
    for i in 0..n {
        let t = share(i, n) * 2.0 * std::f64::consts::PI;
        s.ck(close(at(&r, i), [x + a * t.cos(), y + b * t.sin()]), "ellipse: one full turn");
    }
}

/// base points: any, with equal ones, on a line
fn base<S: Src>(s: &mut S, most: usize) -> Vec<V> {
    let n = s.below(most + 1);
    let kind = s.below(4);
    let mut r: Vec<V> = Vec::new();
    for i in 0..n {
        let p = match kind { 0 => [i as f64, 0.0], 1 => [s.grid(), s.grid()], _ => [co(s), co(s)] };
        let equal = i > 0 && s.below(5) == 0;
        r.push(if equal { r[i - 1] } else { p });
    }
    r
}
fn cloud(b: &[V]) -> PointCloud2D<Point2D> {
    let mut r = PointCloud2D::new();
    for p in b { r.push(Point2D::new(p[0], p[1])) }
    r
}

pub fn bezier<S: Src>(s: &mut S) {
    let most = if s.below(4) == 0 { 60 } else { 6 };
    let b = base(s, most);
    let n = num(s);
    let pc = cloud(&b);
    match interpolate_bezier(&pc, n) {
        Err(_) => s.ck(b.len() < 2, "bezier: only fails without two base points"),
        Ok(r) => {
            s.ck(b.len() >= 2, "bezier: fails without two base points");
            s.ck(r.len() == n, "bezier: number of positions");
            for i in 0..n {
                // de Casteljau
                let t = i as f64 / n as f64;
                let mut c = b.clone();
                while c.len() > 1 { c = c.windows(2).map(|w| [w[0][0] * (1.0 - t) + w[1][0] * t, w[0][1] * (1.0 - t) + w[1][1] * t]).collect() }
                s.ck(close(at(&r, i), c[0]), "bezier: on the curve of the base points");
            }
        }
    }
}

/// the positions which may be the one after the given way, and the one by easing
pub fn along<S: Src>(s: &mut S) {
    let b = base(s, 6);
    let n = num(s);
    let pc = cloud(&b);
    let (lin, cos) = (interpolation_linear(&pc, n), interpolate_cosine(&pc, n));
    s.ck(lin.is_ok() == (b.len() >= 2) && cos.is_ok() == (b.len() >= 2), "interpolation: fails exactly without two base points");
    if b.len() < 2 { return; }
    let (lin, cos) = (lin.unwrap(), cos.unwrap());
    s.ck(lin.len() == n && cos.len() == n, "interpolation: number of positions");
    let d: Vec<f64> = b.windows(2).map(|w| ((w[1][0] - w[0][0]).powi(2) + (w[1][1] - w[0][1]).powi(2)).sqrt()).collect();
    let all: f64 = d.iter().sum();
    for i in 0..n {
        let way = share(i, n) * all;
        let (mut okl, mut okc, mut done) = (false, false, 0.0);
        for j in 0..d.len() {
            // (rounding may choose either segment at a base point)
            if way >= done - 1e-9 && way <= done + d[j] + 1e-9 {
                let f = if d[j] == 0.0 { 0.0 } else { (way - done) / d[j] };
                let e = (1.0 - (f * std::f64::consts::PI).cos()) / 2.0;
                let (p, q) = (b[j], b[j + 1]);
                okl = okl || close(at(&lin, i), [p[0] + f * (q[0] - p[0]), p[1] + f * (q[1] - p[1])]);
                okc = okc || close(at(&cos, i), [p[0] + f * (q[0] - p[0]), p[1] + e * (q[1] - p[1])]);
            }
            done += d[j];
        }
        s.ck(okl, "linear interpolation: equally spaced along the base points");
        s.ck(okc, "cosine interpolation: equally spaced along the base points, eased");
    }
}
crate::natives! { shapes: 40000, bezier: 30000, along: 40000 }

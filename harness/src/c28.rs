use crate::Src;
use rust_3d::*;
use std::collections::{LinkedList, VecDeque};

type V = [f64; 3];
fn v<P: Is3D>(p: &P) -> V { [p.x(), p.y(), p.z()] }
fn w<P: Is2D>(p: &P) -> V { [p.x(), p.y(), 0.0] }
fn frac<S: Src>(s: &mut S) -> f64 { (s.u32() as f64) / (u32::max_value() as f64) }
fn co<S: Src>(s: &mut S) -> f64 { if s.bool() { s.grid() } else { frac(s) * 20.0 - 10.0 } }
fn p3(a: &V) -> Point3D { Point3D::new(a[0], a[1], a[2]) }
fn p2(a: &V) -> Point2D { Point2D::new(a[0], a[1]) }
fn pts<S: Src>(s: &mut S, most: usize) -> Vec<V> { (0..s.below(most + 1)).map(|_| [co(s), co(s), co(s)]).collect() }
fn cloud3(b: &[V]) -> PointCloud3D<Point3D> { PointCloud3D::from(b.iter().map(p3).collect::<Vec<_>>()) }
fn cloud2(b: &[V]) -> PointCloud2D<Point2D> { PointCloud2D::from(b.iter().map(p2).collect::<Vec<_>>()) }
fn all3(pc: &PointCloud3D<Point3D>) -> Vec<V> { pc.data.iter().map(v).collect() }
fn all2(pc: &PointCloud2D<Point2D>) -> Vec<V> { pc.data.iter().map(w).collect() }
fn flat(b: &[V]) -> Vec<V> { b.iter().map(|p| [p[0], p[1], 0.0]).collect() }
fn ordered(mut b: Vec<V>) -> Vec<V> { b.sort_by(|p, q| p.partial_cmp(q).unwrap()); b }

pub fn sorting<S: Src>(s: &mut S) {
    let b = pts(s, 12);
    let d = s.below(5);
    let (mut c3, mut c2) = (cloud3(&b), cloud2(&b));
    s.ck(c3.sort_dim(d).is_ok() == (d < 3), "sort: only by dimensions there are");
    s.ck(c2.sort_dim(d).is_ok() == (d < 2), "sort: only by dimensions there are (2D)");
    s.ck(PointCloud3D::<Point3D>::n_dimensions() == 3 && PointCloud2D::<Point2D>::n_dimensions() == 2, "sort: number of dimensions");
    if d < 3 {
        s.ck(c3.data.windows(2).all(|p| v(&p[0])[d] <= v(&p[1])[d]), "sort: ascending");
        s.ck(ordered(all3(&c3)) == ordered(b.clone()), "sort: the same positions");
    } else { s.ck(all3(&c3) == b, "sort: nothing changed on failure"); }
    if d < 2 {
        s.ck(c2.data.windows(2).all(|p| w(&p[0])[d] <= w(&p[1])[d]), "sort: ascending (2D)");
        s.ck(ordered(all2(&c2)) == ordered(flat(&b)), "sort: the same positions (2D)");
    } else { s.ck(all2(&c2) == flat(&b), "sort: nothing changed on failure (2D)"); }
    let (mut x, mut y, mut z) = (cloud3(&b), cloud3(&b), cloud3(&b));
    x.sort_x(); y.sort_y(); z.sort_z();
    let up = |c: &PointCloud3D<Point3D>, d: usize| c.data.windows(2).all(|p| v(&p[0])[d] <= v(&p[1])[d]);
    s.ck(up(&x, 0) && up(&y, 1) && up(&z, 2), "sort: by x, y, z");
    let (mut x, mut y) = (cloud2(&b), cloud2(&b));
    x.sort_x(); y.sort_y();
    let up = |c: &PointCloud2D<Point2D>, d: usize| c.data.windows(2).all(|p| w(&p[0])[d] <= w(&p[1])[d]);
    s.ck(up(&x, 0) && up(&y, 1), "sort: by x, y (2D)");
}

pub fn merging<S: Src>(s: &mut S) {
    let (a, b) = (pts(s, 6), pts(s, 6));
    let want: Vec<V> = a.iter().chain(b.iter()).cloned().collect();
    let (p, q) = (cloud3(&a), cloud3(&b));
    s.ck(all3(&p.combine(&q)) == want && all3(&p) == a && all3(&q) == b, "merge: combination");
    let mut r = p.clone();
    r.append_ra(&q.data);
    s.ck(all3(&r) == want, "merge: appended");
    let mut r = p.clone();
    r.append_ra(&q);
    s.ck(all3(&r) == want, "merge: appended cloud");
    let mut r = p.clone();
    r.consume(q);
    s.ck(all3(&r) == want, "merge: consumed");
    let (p, q) = (cloud2(&a), cloud2(&b));
    s.ck(all2(&p.combine(&q)) == flat(&want), "merge: combination (2D)");
    let mut r = p.clone();
    r.consume(q);
    s.ck(all2(&r) == flat(&want), "merge: consumed (2D)");
    let vec: Vec<Point3D> = cloud3(&a).into();
    s.ck(vec.iter().map(v).collect::<Vec<_>>() == a, "merge: the positions as a list");
    let vec: Vec<Point2D> = cloud2(&a).into();
    s.ck(vec.iter().map(w).collect::<Vec<_>>() == flat(&a), "merge: the positions as a list (2D)");
}

pub fn moving<S: Src>(s: &mut S) {
    let a = pts(s, 6);
    let m = [co(s), co(s), co(s)];
    let want: Vec<V> = a.iter().map(|p| [p[0] + m[0], p[1] + m[1], p[2] + m[2]]).collect();
    let mut c = cloud3(&a); c.move_by(m[0], m[1], m[2]);
    s.ck(all3(&c) == want, "move: cloud");
    let mut c: LinkedList<Point3D> = a.iter().map(p3).collect(); c.move_by(m[0], m[1], m[2]);
    s.ck(c.iter().map(v).collect::<Vec<_>>() == want, "move: linked list");
    let mut c: VecDeque<Point3D> = a.iter().map(p3).collect();
    if a.len() > 1 { c.rotate_left(1); c.rotate_right(1); }
    c.move_by(m[0], m[1], m[2]);
    s.ck(c.iter().map(v).collect::<Vec<_>>() == want, "move: ring buffer");
    let mut c: Vec<Point3D> = a.iter().map(p3).collect(); c.move_by(m[0], m[1], m[2]);
    s.ck(c.iter().map(v).collect::<Vec<_>>() == want, "move: list");
    let mut c = Polygon3D::from(cloud3(&a)); c.move_by(m[0], m[1], m[2]);
    s.ck((0..a.len()).all(|i| v(&c.vertex(VId(i)).unwrap()) == want[i]), "move: polygon");
    let want = flat(&want);
    let mut c = cloud2(&a); c.move_by(m[0], m[1]);
    s.ck(all2(&c) == want, "move: cloud (2D)");
    let mut c: LinkedList<Point2D> = a.iter().map(p2).collect(); c.move_by(m[0], m[1]);
    s.ck(c.iter().map(w).collect::<Vec<_>>() == want, "move: linked list (2D)");
    let mut c: VecDeque<Point2D> = a.iter().map(p2).collect(); c.move_by(m[0], m[1]);
    s.ck(c.iter().map(w).collect::<Vec<_>>() == want, "move: ring buffer (2D)");
    let mut c: Vec<Point2D> = a.iter().map(p2).collect(); c.move_by(m[0], m[1]);
    s.ck(c.iter().map(w).collect::<Vec<_>>() == want, "move: list (2D)");
}

fn num<S: Src>(s: &mut S) -> f64 { match s.below(4) { 0 => s.f64(), 1 => s.grid(), 2 => f64::from_bits(s.u64()), _ => frac(s) * 20.0 - 10.0 } }
fn same(a: f64, b: f64) -> bool { a == b || a.is_nan() && b.is_nan() }
pub fn text<S: Src>(s: &mut S) {
    let n = s.below(5);
    let b: Vec<V> = (0..n).map(|_| [num(s), num(s), num(s)]).collect();
    let (c3, c2) = (cloud3(&b), cloud2(&b));
    for p in &b {
        match Point3D::parse(&p3(p).to_str()) { Ok(q) => s.ck((0..3).all(|i| same(v(&q)[i], p[i])), "text: position reads back"), Err(_) => s.ck(false, "text: position reads back") }
        match Point2D::parse(&p2(p).to_str()) { Ok(q) => s.ck((0..2).all(|i| same(w(&q)[i], p[i])), "text: 2D position reads back"), Err(_) => s.ck(false, "text: 2D position reads back") }
        // one number less or more, a word that is no number
        let t = p3(p).to_str();
        s.ck(Point2D::parse(&t).is_err() && Point3D::parse(&p2(p).to_str()).is_err(), "text: number of coordinates");
        s.ck(Point3D::parse(&(t.clone() + " x")).is_err() && Point3D::parse(&(t.clone() + "x")).is_err() && Point3D::parse("").is_err(), "text: other words");
        let more = ["#", "# x", "//", "-", "+", "0", "-0", ",", ";1", "nan", ".", "e", "1e", "_", "\"x\"", "!", "1 2"][s.below(17)];
        let gap = [" ", "  ", " \t"][s.below(3)];
        s.ck(Point3D::parse(&(t.clone() + gap + more)).is_err() && Point2D::parse(&(p2(p).to_str() + gap + more)).is_err(), "text: further words");
        s.ck(Point3D::parse(&(String::from(more) + gap + &t)).is_err() && Point2D::parse(&(String::from(more) + gap + &p2(p).to_str())).is_err(), "text: words before the position");
        match Point3D::parse(&(String::from("  ") + &t.replace(" ", "   ") + " ")) { Ok(q) => s.ck((0..3).all(|i| same(v(&q)[i], p[i])), "text: repeated blanks"), Err(_) => s.ck(false, "text: repeated blanks") }
    }
    match PointCloud3D::<Point3D>::parse(&c3.to_str()) {
        Ok(r) => s.ck(n > 0 && r.len() == n && (0..n).all(|j| (0..3).all(|i| same(v(&r.data[j])[i], b[j][i]))), "text: cloud reads back"),
        Err(_) => s.ck(n == 0, "text: cloud reads back"),
    }
    match PointCloud2D::<Point2D>::parse(&c2.to_str()) {
        Ok(r) => s.ck(n > 0 && r.len() == n && (0..n).all(|j| (0..2).all(|i| same(w(&r.data[j])[i], b[j][i]))), "text: 2D cloud reads back"),
        Err(_) => s.ck(n == 0, "text: 2D cloud reads back"),
    }
    if n > 0 {
        let bad = c3.to_str() + "1 2\n";
        s.ck(PointCloud3D::<Point3D>::parse(&bad).is_err() && PointCloud2D::<Point2D>::parse(&(c2.to_str() + "1\n")).is_err(), "text: a line that is no position");
        let blank = String::from("\n") + &c3.to_str().replace("\n", "\n\n");
        s.ck(PointCloud3D::<Point3D>::parse(&blank).map(|r| r.len() == n).unwrap_or(false), "text: empty lines");
    }
}

macro_rules! packed { ($T:ty, $s:expr, $b:expr, $most:expr) => {{ let (s, b, most): (&mut S, &[V], f64) = ($s, $b, $most);
    let lo = |i: usize| b.iter().map(|p| p[i]).fold(f64::INFINITY, f64::min);
    let hi = |i: usize| b.iter().map(|p| p[i]).fold(f64::NEG_INFINITY, f64::max);
    let ext = b.len() >= 2 && (0..3).all(|i| lo(i) < hi(i));
    match CompressedPointCloud3D::<$T>::compress(&cloud3(b)) {
        Err(_) => s.ck(!ext, "compress: only fails without bounding box"),
        Ok(z) => {
            s.ck(ext && z.data.len() == b.len(), "compress: every position");
            let r: PointCloud3D<Point3D> = z.decompress();
            s.ck(r.len() == b.len(), "decompress: every position");
            for (p, q) in b.iter().zip(r.data.iter()) {
                let q = v(q);
                for i in 0..3 { s.ck((p[i] - q[i]).abs() <= (hi(i) - lo(i)) / most * 1.000001 + 1e-12 * (1.0 + p[i].abs()), "decompress: within a unit"); }
            }
        }
    }
}}}
pub fn compressing<S: Src>(s: &mut S) {
    let b = pts(s, 6);
    packed!(u8, s, &b, 255.0);
    packed!(u16, s, &b, 65535.0);
    packed!(u32, s, &b, 4294967295.0);
    packed!(u64, s, &b, 1.8446744073709552e19);
    packed!(usize, s, &b, 1.8446744073709552e19);
}

pub fn outliers<S: Src>(s: &mut S) {
    let b: Vec<V> = (0..1 + s.below(10)).map(|_| [s.grid(), s.grid(), s.grid()]).collect();
    let mut tree: KdTree<Point3D> = KdTree::default();
    tree.build(cloud3(&b)).unwrap();
    let (r, min) = (0.25 + s.below(6) as f64 * 0.5, s.below(4));
    let mut f = FilterOutlier3D::new(tree, Positive::new(r).unwrap(), min);
    let near = |p: &V, r: f64| b.iter().filter(|q| (0..3).map(|i| (p[i] - q[i]).powi(2)).sum::<f64>() <= r * r).count();
    for _ in 0..3 {
        let p = if s.bool() { b[s.below(b.len())] } else { [s.grid(), s.grid(), s.grid()] };
        s.ck(f.is_allowed(&p3(&p)) == (near(&p, r) >= min), "outlier: allowed with enough neighbours");
    }
    f.scale(Positive::new(2.0).unwrap());
    let p = b[0];
    s.ck(f.is_allowed(&p3(&p)) == (near(&p, r * 2.0) >= min), "outlier: scaled distance");
}
crate::natives! { sorting: 40000, merging: 30000, moving: 30000, text: 30000, compressing: 30000, outliers: 30000 }

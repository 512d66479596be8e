use crate::Src;
use rust_3d::*;

fn coord<S: Src>(s: &mut S, kind: usize) -> f64 {
    match kind {
        0 => s.grid(),
        1 => s.fin(),
        2 => [0.0, -0.0, 5e-324, -5e-324, 1.0, 1.0 + f64::EPSILON, -1.0, 2.0][s.below(8)],
        _ => s.below(4000) as f64 / 7.0,
    }
}
fn cloud<S: Src>(s: &mut S) -> Vec<Point3D> {
    let kind = s.below(4);
    let n = if s.below(20) == 0 { 10 + s.below(40) } else { s.below(9) };
    let mut v: Vec<Point3D> = Vec::new();
    for i in 0..n {
        let p = if i > 0 && s.below(5) == 0 {
            let mut q = v[s.below(i)].clone();
            if s.bool() {
                q.x = f64::from_bits(q.x.to_bits() ^ 1);
            }
            q
        } else {
            Point3D { x: coord(s, kind), y: coord(s, kind), z: coord(s, kind) }
        };
        v.push(p);
    }
    v
}
fn distinct(v: &Vec<Point3D>) -> Vec<Point3D> {
    let mut r: Vec<Point3D> = Vec::new();
    for p in v {
        if !r.contains(p) {
            r.push(p.clone());
        }
    }
    r
}
fn same(a: &Vec<Point3D>, b: &Vec<Point3D>) -> bool {
    let mut left = b.clone();
    a.len() == b.len()
        && a.iter().all(|p| match left.iter().position(|q| p == q) {
            Some(i) => {
                left.remove(i);
                true
            }
            None => false,
        })
}
/// number of results for a depth limit: points above, occupied cells at the limit
fn cells(ps: &Vec<Point3D>, lo: [f64; 3], hi: [f64; 3], depth: usize, limit: usize) -> usize {
    if ps.len() <= 1 {
        return ps.len();
    }
    let mid = [0, 1, 2].map(|i| lo[i] + (hi[i] - lo[i]) / 2.0);
    if (0..3).any(|i| !(lo[i] < mid[i] && mid[i] < hi[i])) {
        return ps.len();
    }
    let mut n = 0;
    for o in 0..8 {
        let up = [o & 1 > 0, o & 2 > 0, o & 4 > 0];
        let sub: Vec<Point3D> = ps.iter().filter(|p| (p.x >= mid[0]) == up[0] && (p.y >= mid[1]) == up[1] && (p.z >= mid[2]) == up[2]).cloned().collect();
        if !sub.is_empty() {
            let l = [0, 1, 2].map(|i| if up[i] { mid[i] } else { lo[i] });
            let h = [0, 1, 2].map(|i| if up[i] { hi[i] } else { mid[i] });
            n += if depth.min(127) > limit { 1 } else { cells(&sub, l, h, depth + 1, limit) };
        }
    }
    n
}
pub fn tree<S: Src>(s: &mut S) {
    let v = cloud(s);
    let want = distinct(&v);
    let flat = |f: fn(&Point3D) -> f64| v.is_empty() || v.iter().all(|p| f(p) == f(&v[0]));
    let mut pc = PointCloud3D::new();
    for p in &v {
        pc.push(p.clone());
    }
    let mut t: OcTree<Point3D> = Default::default();
    let r = t.build(pc);
    s.ck(r.is_err() == (flat(|p| p.x) || flat(|p| p.y) || flat(|p| p.z)), "building fails exactly for a cloud without volume");
    if r.is_ok() {
        s.ck(t.size() == want.len(), "size is the number of distinct points");
        s.ck(same(&t.to_pointcloud().data, &want), "to_pointcloud returns every distinct point once");
        let d = s.below(128) as i8;
        let d = if s.bool() { d % 8 } else { d };
        let c = t.collect(d).data;
        s.ck(!c.is_empty() && c.len() <= want.len(), "collect returns at most one result per point");
        let m = |f: fn(&Point3D) -> f64| (want.iter().map(f).fold(f64::INFINITY, f64::min), want.iter().map(f).fold(f64::NEG_INFINITY, f64::max));
        let (x, y, z) = (m(|p| p.x), m(|p| p.y), m(|p| p.z));
        let n = cells(&want, [x.0, y.0, z.0], [x.1, y.1, z.1], 0, d as usize);
        s.ck(c.len() == n, "collect returns one result per point above the limit and per occupied cell at it");
        for (f, n) in [(0, "x"), (1, "y"), (2, "z")] {
            let g = |p: &Point3D| if f == 0 { p.x } else if f == 1 { p.y } else { p.z };
            let lo = want.iter().map(|p| g(p)).fold(f64::INFINITY, f64::min);
            let hi = want.iter().map(|p| g(p)).fold(f64::NEG_INFINITY, f64::max);
            let e = 1e-9 * (1.0 + lo.abs() + hi.abs());
            s.ck(!(e < 1e200) || c.iter().all(|p| g(p) >= lo - e && g(p) <= hi + e), if n == "x" { "collect stays within the cloud" } else { "collect stays within the cloud (y, z)" });
        }
        s.ck(same(&t.collect(-1).data, &want), "collect without limit returns every distinct point once");
    }
}
pub fn empty<S: Src>(s: &mut S) {
    let t: OcTree<Point3D> = Default::default();
    let d = s.below(128) as i8;
    s.ck(t.size() == 0 && t.to_pointcloud().data.is_empty() && t.collect(d).data.is_empty(), "an unbuilt tree is empty");
}

crate::natives! {
    tree: 60000,
    empty: 20,
}

use crate::Src;
use rust_3d::*;

#[derive(Clone, Debug, Default)]
struct Q(usize, Point3D);
impl IsND for Q {
    fn n_dimensions() -> usize {
        3
    }
    fn position_nd(&self, i: usize) -> Option<f64> {
        self.1.position_nd(i)
    }
}
impl Is3D for Q {
    fn x(&self) -> f64 {
        self.1.x
    }
    fn y(&self) -> f64 {
        self.1.y
    }
    fn z(&self) -> f64 {
        self.1.z
    }
}
/// exact coordinates, or any finite ones
fn point<S: Src>(s: &mut S, exact: bool) -> Point3D {
    let mut c = || if exact { s.grid() } else { s.fin() };
    Point3D { x: c(), y: c(), z: c() }
}
fn cloud<S: Src>(s: &mut S, exact: bool) -> Vec<Q> {
    let n = if s.below(20) == 0 { 10 + s.below(60) } else { s.below(12) };
    let mut v: Vec<Q> = Vec::new();
    for i in 0..n {
        let p = if i > 0 && s.below(6) == 0 { v[s.below(i)].1.clone() } else { point(s, exact) };
        v.push(Q(i, p));
    }
    v
}
fn tree<S: Src>(s: &mut S, v: &Vec<Q>) -> Option<KdTree<Q>> {
    let mut t = KdTree::<Q>::default();
    let mut pc = PointCloud3D::new();
    for q in v {
        pc.push(q.clone());
    }
    let r = t.build(pc);
    s.ck(r.is_ok() == !v.is_empty(), "building fails exactly for an empty cloud");
    s.ck(t.size() == v.len(), "size is the number of points");
    let mut ids: Vec<usize> = t.to_pointcloud().data.iter().map(|q| q.0).collect();
    ids.sort();
    s.ck(ids == (0..v.len()).collect::<Vec<_>>(), "the points of the tree are the points of the cloud");
    if r.is_ok() {
        Some(t)
    } else {
        None
    }
}
/// positions, id removed: what got[from..] holds of the points, each at most once
fn found<S: Src>(s: &mut S, v: &Vec<Q>, got: &[Q]) -> Vec<bool> {
    let mut r = vec![false; v.len()];
    for q in got {
        s.ck(q.0 < v.len() && !r[q.0], "results are points of the cloud, none twice");
        s.ck(q.1 == v[q.0].1, "results are the points as they were added");
        r[q.0] = true;
    }
    r
}
fn outside(c: &Point3D, r: [f64; 3], p: &Point3D) -> bool {
    let o = |c: f64, r: f64, p: f64| p < c - r || p > c + r;
    o(c.x, r[0], p.x) || o(c.y, r[1], p.y)
}
fn sphere<S: Src>(s: &mut S, exact: bool) {
    let v = cloud(s, exact);
    if let Some(t) = tree(s, &v) {
        let c = if s.below(3) == 0 { v[s.below(v.len())].1.clone() } else { point(s, exact) };
        let r = if exact { s.grid() } else { s.fin() }.abs();
        let r = if s.below(4) == 0 { dist_3d(&c, &v[s.below(v.len())]) } else { r };
        s.assume(r > 0.0 && r.is_finite());
        if r > 0.0 && r.is_finite() {
            let mut got = Vec::new();
            if s.bool() {
                got.push(Q(99, point(s, exact)));
            }
            let pre = got.len();
            t.in_sphere(&Sphere { center: c.clone(), radius: Positive::new(r).unwrap() }, &mut got);
            s.ck(got.len() >= pre && (pre == 0 || got[0].0 == 99), "in_sphere keeps the results already there");
            let f = found(s, &v, &got[pre..]);
            for i in 0..v.len() {
                if f[i] {
                    s.ck(dist_3d(&c, &v[i]) <= r, "in_sphere returns only points within the radius");
                } else {
                    s.ck(!(dist_3d(&c, &v[i]) <= r) || outside(&c, [r; 3], &v[i].1), "in_sphere misses no point within the radius");
                }
            }
        }
    }
}
fn boxed<S: Src>(s: &mut S, exact: bool) {
    let v = cloud(s, exact);
    if let Some(t) = tree(s, &v) {
        let c = if s.below(3) == 0 { v[s.below(v.len())].1.clone() } else { point(s, exact) };
        let mut z = [1.0; 3];
        for i in 0..3 {
            let x = if exact { s.grid() } else { s.fin() }.abs();
            z[i] = if x > 0.0 && x.is_finite() { x } else { 1.0 };
        }
        let mut got = Vec::new();
        if s.bool() {
            got.push(Q(99, point(s, exact)));
        }
        let pre = got.len();
        let p = |i: usize| Positive::new(z[i]).unwrap();
        t.in_box(&Box3D { center: c.clone(), size_x: p(0), size_y: p(1), size_z: p(2) }, &mut got);
        s.ck(got.len() >= pre && (pre == 0 || got[0].0 == 99), "in_box keeps the results already there");
        let f = found(s, &v, &got[pre..]);
        for i in 0..v.len() {
            let q = &v[i].1;
            let within = (c.x - q.x).abs() <= 0.5 * z[0] && (c.y - q.y).abs() <= 0.5 * z[1] && (c.z - q.z).abs() <= 0.5 * z[2];
            if f[i] {
                s.ck(within, "in_box returns only points within half the size");
            } else {
                s.ck(!within || outside(&c, [0.5 * z[0], 0.5 * z[1], 0.5 * z[2]], q), "in_box misses no point within half the size");
            }
        }
    }
}
fn near<S: Src>(s: &mut S, exact: bool) {
    let v = cloud(s, exact);
    if let Some(t) = tree(s, &v) {
        let c = if s.below(3) == 0 { v[s.below(v.len())].1.clone() } else { point(s, exact) };
        let n = if s.below(8) == 0 { s.below(80) } else { s.below(6) };
        let mut got = Vec::new();
        t.knearest(&c, n, &mut got);
        s.ck(got.len() == n.min(v.len()), "knearest returns as many points as asked for, or all");
        let f = found(s, &v, &got);
        let k = |q: &Q| sqr_dist_3d(&c, q);
        for i in 1..got.len() {
            s.ck(k(&got[i - 1]) <= k(&got[i]), "knearest returns ascending distances");
        }
        if let Some(l) = got.last() {
            for i in 0..v.len() {
                s.ck(f[i] || !(k(&v[i]) < k(l)) || outside(&c, [k(l).sqrt(); 3], &v[i].1), "no other point is closer than those knearest returns");
            }
        }
        let one = t.nearest(&c);
        s.ck(one.is_some(), "nearest finds a point");
        if let Some(l) = one {
            found(s, &v, &[l.clone()]);
            for q in &v {
                s.ck(!(k(q) < k(&l)) || outside(&c, [k(&l).sqrt(); 3], &q.1), "no point is closer than nearest");
            }
        }
    }
}
pub fn in_sphere<S: Src>(s: &mut S) {
    sphere(s, true)
}
pub fn in_sphere_any<S: Src>(s: &mut S) {
    sphere(s, false)
}
pub fn in_box<S: Src>(s: &mut S) {
    boxed(s, true)
}
pub fn in_box_any<S: Src>(s: &mut S) {
    boxed(s, false)
}
pub fn knearest<S: Src>(s: &mut S) {
    near(s, true)
}
pub fn knearest_any<S: Src>(s: &mut S) {
    near(s, false)
}
pub fn empty<S: Src>(s: &mut S) {
    let t: KdTree<Q> = Default::default();
    let c = point(s, true);
    let mut got = Vec::new();
    t.knearest(&c, s.below(4), &mut got);
    t.in_sphere(&Sphere { center: c.clone(), radius: Positive::one() }, &mut got);
    t.in_box(&Box3D { center: c.clone(), size_x: Positive::one(), size_y: Positive::one(), size_z: Positive::one() }, &mut got);
    s.ck(got.is_empty() && t.nearest(&c).is_none() && t.size() == 0, "an empty tree finds nothing");
}

crate::natives! {
    in_sphere: 60000,
    in_sphere_any: 20000,
    in_box: 60000,
    in_box_any: 20000,
    knearest: 60000,
    knearest_any: 20000,
    empty: 20,
}

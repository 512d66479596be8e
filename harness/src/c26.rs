use crate::Src;
use rust_3d::*;

type V = [f64; 3];
fn v<P: Is3D>(p: &P) -> V { [p.x(), p.y(), p.z()] }
fn w<P: Is2D>(p: &P) -> [f64; 2] { [p.x(), p.y()] }
fn near(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs())) }
fn close(a: V, b: V) -> bool { (0..3).all(|i| near(a[i], b[i])) }
fn close2(a: [f64; 2], b: [f64; 2]) -> bool { (0..2).all(|i| near(a[i], b[i])) }
fn frac<S: Src>(s: &mut S) -> f64 { (s.u32() as f64) / (u32::max_value() as f64) }
/// a coordinate: a small whole number or any
fn co<S: Src>(s: &mut S) -> f64 { if s.bool() { s.grid() } else { frac(s) * 20.0 - 10.0 } }
fn any<S: Src>(s: &mut S) -> V { [co(s), co(s), co(s)] }
fn p3(a: V) -> Point3D { Point3D::new(a[0], a[1], a[2]) }
fn p2(a: V) -> Point2D { Point2D::new(a[0], a[1]) }
fn dot(a: V, b: V) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn crs(a: V, b: V) -> V { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn len(a: V) -> f64 { dot(a, a).sqrt() }
fn pos<S: Src>(s: &mut S) -> Positive { Positive::new(match s.below(3) { 0 => 1.0 + s.below(4) as f64, 1 => 0.5, _ => 0.01 + frac(s) * 3.0 }).unwrap() }

/// operators, products, lengths, directions, angles
pub fn vectors<S: Src>(s: &mut S) {
    let (a, b, f) = (any(s), any(s), co(s));
    let (p, q) = (p3(a), p3(b));
    let flat = |x: V| [x[0], x[1], 0.0];
    let (p_, q_) = (p2(a), p2(b));
    let each = |g: &dyn Fn(usize) -> f64| [g(0), g(1), g(2)];
    s.ck(close(v(&(&p + &q)), each(&|i| a[i] + b[i])) && close(v(&(p.clone() + q.clone())), each(&|i| a[i] + b[i])), "vectors: sum of 3D positions");
    s.ck(close(v(&(&p - &q)), each(&|i| a[i] - b[i])) && close(v(&(p.clone() - q.clone())), each(&|i| a[i] - b[i])), "vectors: difference of 3D positions");
    s.ck(close(v(&(&p * f)), each(&|i| a[i] * f)) && close(v(&(p.clone() * f)), each(&|i| a[i] * f)), "vectors: multiple of a 3D position");
    if f != 0.0 { s.ck(close(v(&(&p / f)), each(&|i| a[i] / f)) && close(v(&(p.clone() / f)), each(&|i| a[i] / f)), "vectors: fraction of a 3D position"); }
    s.ck(close(v(&(-&p)), each(&|i| -a[i])) && close(v(&(-p.clone())), each(&|i| -a[i])), "vectors: negated 3D position");
    s.ck(close2(w(&(&p_ + &q_)), [a[0] + b[0], a[1] + b[1]]) && close2(w(&(p_.clone() + q_.clone())), [a[0] + b[0], a[1] + b[1]]), "vectors: sum of 2D positions");
    s.ck(close2(w(&(&p_ - &q_)), [a[0] - b[0], a[1] - b[1]]) && close2(w(&(p_.clone() - q_.clone())), [a[0] - b[0], a[1] - b[1]]), "vectors: difference of 2D positions");
    s.ck(close2(w(&(&p_ * f)), [a[0] * f, a[1] * f]) && close2(w(&(p_.clone() * f)), [a[0] * f, a[1] * f]), "vectors: multiple of a 2D position");
    s.ck(near(p.dot(&q), dot(a, b)) && near(p_.dot(&q_), a[0] * b[0] + a[1] * b[1]), "vectors: dot product");
    s.ck(close(v(&cross::<Point3D, Point3D>(&p, &q)), crs(a, b)) && near(p_.cross(&q_), a[0] * b[1] - a[1] * b[0]), "vectors: cross product");
    s.ck(near(*p.abs(), len(a)) && near(*p_.abs(), len(flat(a))), "vectors: length");
    s.ck(close(v(&conn(&p, &q)), each(&|i| b[i] - a[i])), "vectors: connection");
    s.ck(close(v(&center_3d(&p, &q)), each(&|i| (a[i] + b[i]) / 2.0)) && close2(w(&center_2d(&p_, &q_)), [(a[0] + b[0]) / 2.0, (a[1] + b[1]) / 2.0]), "vectors: center of two positions");
    let (l, m, l_) = (len(a), len(b), len(flat(a)));
    if l == 0.0 || l > 1e-6 {
        match p.normalized() { Ok(n) => s.ck(l > 0.0 && close(v(&n), each(&|i| a[i] / l)), "vectors: normalized"), Err(_) => s.ck(l == 0.0, "vectors: normalized") }
        match Norm3D::new(p.clone()) { Ok(n) => s.ck(l > 0.0 && close(v(&n), each(&|i| a[i] / l)), "vectors: direction"), Err(_) => s.ck(l == 0.0, "vectors: direction") }
    }
    if l_ == 0.0 || l_ > 1e-6 {
        match p_.normalized() { Ok(n) => s.ck(l_ > 0.0 && close2(w(&n), [a[0] / l_, a[1] / l_]), "vectors: normalized 2D"), Err(_) => s.ck(l_ == 0.0, "vectors: normalized 2D") }
        match Norm2D::new(p_.clone()) { Ok(n) => s.ck(l_ > 0.0 && close2(w(&n), [a[0] / l_, a[1] / l_]), "vectors: direction 2D"), Err(_) => s.ck(l_ == 0.0, "vectors: direction 2D") }
    }
    {
        // the length does not matter
        let t = [1e-7, 1e-8, 1e-9][s.below(3)];
        let (a, l) = (each(&|i| a[i] * t), l * t);
        if l > 0.5 * t {
            match p3(a).normalized() { Ok(n) => s.ck(close(v(&n), each(&|i| a[i] / l)), "vectors: short vector normalized"), Err(_) => s.ck(false, "vectors: short vector normalized") }
            match Norm3D::new(p3(a)) { Ok(n) => s.ck(close(v(&n), each(&|i| a[i] / l)), "vectors: direction of a short vector"), Err(_) => s.ck(false, "vectors: direction of a short vector") }
        }
        let l_ = l_ * t;
        if l_ > 0.5 * t {
            match p2(a).normalized() { Ok(n) => s.ck(close2(w(&n), [a[0] / l_, a[1] / l_]), "vectors: short 2D vector normalized"), Err(_) => s.ck(false, "vectors: short 2D vector normalized") }
            match Norm2D::new(p2(a)) { Ok(n) => s.ck(close2(w(&n), [a[0] / l_, a[1] / l_]), "vectors: direction of a short 2D vector"), Err(_) => s.ck(false, "vectors: direction of a short 2D vector") }
        }
    }
    {
        // distances asked of positions of any type
        let (d2, d3): (&dyn Is2D, &dyn Is3D) = (&p_, &p);
        let off = each(&|i| a[i] - b[i]);
        s.ck(near(*d3.sqr_distance(&q), len(off) * len(off)) && near(*d3.distance(&q), len(off)), "vectors: distance of 3D positions");
        s.ck(near(*d2.sqr_distance(&q_), len(flat(off)) * len(flat(off))) && near(*d2.distance(&q_), len(flat(off))), "vectors: distance of 2D positions");
    }
    match p.rad_to(&q) {
        Ok(r) => {
            s.ck(l > 0.0 && m > 0.0 && r.0 >= 0.0 && r.0 <= 3.1415927, "angle: defined between two directions, from 0 to pi");
            s.ck((r.0 - len(crs(a, b)).atan2(dot(a, b))).abs() < 1e-6, "angle: the angle");
        }
        Err(_) => s.ck(l == 0.0 || m == 0.0, "angle: only undefined without length"),
    }
    // parallel
    let k = 1.0 + s.below(9) as f64;
    let k = if s.bool() { k } else { -k / 7.0 };
    if l > 0.001 { match p.rad_to(&p3(each(&|i| a[i] * k))) { Ok(r) => s.ck((r.0 - if k > 0.0 { 0.0 } else { std::f64::consts::PI }).abs() < 1e-6, "angle: of parallel directions"), Err(_) => s.ck(false, "angle: of parallel directions") } }
    if a[0] != b[0] || a[1] != b[1] {
        let r = p_.rad_to(&q_).0;
        let d = len(flat(each(&|i| b[i] - a[i])));
        s.ck(near(r.cos() * d, b[0] - a[0]) && near(r.sin() * d, b[1] - a[1]), "angle: from a 2D position to another");
    }
    // rotation
    let r = Rad(frac(s) * 8.0 - 4.0);
    let mut t = p_.clone();
    t.rotate(r, &q_);
    s.ck(close2(w(&t), [b[0] + r.0.cos() * (a[0] - b[0]) - r.0.sin() * (a[1] - b[1]), b[1] + r.0.sin() * (a[0] - b[0]) + r.0.cos() * (a[1] - b[1])]), "rotate: around the center");
    // unit vectors
    s.ck(v(&Norm3D::norm_x()) == [1.0, 0.0, 0.0] && v(&Norm3D::norm_y()) == [0.0, 1.0, 0.0] && v(&Norm3D::norm_z()) == [0.0, 0.0, 1.0]
        && v(&Norm3D::norm_x_neg()) == [-1.0, 0.0, 0.0] && v(&Norm3D::norm_y_neg()) == [0.0, -1.0, 0.0] && v(&Norm3D::norm_z_neg()) == [0.0, 0.0, -1.0], "vectors: unit vectors");
    s.ck(w(&Norm2D::norm_x()) == [1.0, 0.0] && w(&Norm2D::norm_y()) == [0.0, 1.0] && w(&Norm2D::norm_x_neg()) == [-1.0, 0.0] && w(&Norm2D::norm_y_neg()) == [0.0, -1.0], "vectors: 2D unit vectors");
    if l > 0.001 {
        let n = Norm3D::new(p.clone()).unwrap();
        s.ck(close(v(&(&n * f)), each(&|i| a[i] / l * f)) && close(v(&(n.clone() * f)), each(&|i| a[i] / l * f)) && close(v(&-&n), each(&|i| -a[i] / l)) && close(v(&-n), each(&|i| -a[i] / l)), "vectors: multiple and opposite of a direction");
    }
    if l_ > 0.001 {
        let n = Norm2D::new(p_.clone()).unwrap();
        s.ck(close2(w(&(&n * f)), [a[0] / l_ * f, a[1] / l_ * f]) && close2(w(&(n.clone() * f)), [a[0] / l_ * f, a[1] / l_ * f]) && close2(w(&-&n), [-a[0] / l_, -a[1] / l_]) && close2(w(&-n), [-a[0] / l_, -a[1] / l_]), "vectors: multiple and opposite of a 2D direction");
    }
}

/// normals of faces and meshes, planes, direction fields
struct F2(Norm2D);
impl IsDirectionField2D for F2 { fn direction_at<P: Is2D>(&self, _: &P) -> Norm2D { self.0.clone() } }
struct F3(Norm3D);
impl IsDirectionField3D for F3 { fn direction_at<P: Is3D>(&self, _: &P) -> Norm3D { self.0.clone() } }
pub fn normals<S: Src>(s: &mut S) {
    let n = 1 + s.below(4);
    let mut m = Mesh3D::<Point3D, PointCloud3D<Point3D>, Vec<usize>>::default();
    let nv = 3 + s.below(3);
    let pts: Vec<V> = (0..nv).map(|_| any(s)).collect();
    for x in pts.iter() { m.add_vertex(p3(*x)); }
    let mut faces = vec![];
    for _ in 0..n {
        let f = [s.below(nv), s.below(nv), s.below(nv)];
        if m.try_add_connection(VId(f[0]), VId(f[1]), VId(f[2])).is_ok() { faces.push(f); }
    }
    let sub = |a: V, b: V| [a[0] - b[0], a[1] - b[1], a[2] - b[2]];
    let mut sums = vec![[0.0; 3]; nv];
    let mut clear = true;
    for (i, f) in faces.iter().enumerate() {
        let (a, b, c) = (pts[f[0]], pts[f[1]], pts[f[2]]);
        let u = crs(sub(b, a), sub(c, b));
        let l = len(u);
        let r = m.face_normal(FId(i));
        if l > 1e-3 { s.ck(r.is_ok() && close(v(&r.unwrap()), [u[0] / l, u[1] / l, u[2] / l]), "normal of a face: perpendicular, by the right hand rule"); }
        if a == b || b == c || a == c { s.ck(m.face_normal(FId(i)).is_err(), "normal of a face: none if two corners are the same"); }
        let flat = a == b || b == c || a == c;
        clear &= flat || l > 1e-3;
        let up = if flat { [0.0, 0.0, 1.0] } else { [u[0] / l, u[1] / l, u[2] / l] };
        for k in f.iter() { for d in 0..3 { sums[*k][d] += up[d]; } }
    }
    let ns = normals_of_mesh(&m);
    s.ck(ns.len() == nv, "normals of a mesh: one for every vertex");
    for i in 0..nv {
        let l = len(sums[i]);
        if clear && l > 1e-3 { s.ck(close(v(&ns[i]), [sums[i][0] / l, sums[i][1] / l, sums[i][2] / l]), "normals of a mesh: the directions of all faces around the vertex add up"); }
        if !faces.iter().any(|f| f.contains(&i)) { s.ck(v(&ns[i]) == [0.0, 0.0, 1.0], "normals of a mesh: upwards without a face"); }
    }
    s.ck(m.face_normal(FId(faces.len())).is_err() && m.face_normal(FId(usize::max_value())).is_err(), "normal of a face: none of an unknown face");
    // planes
    let (o, p) = (any(s), any(s));
    let dir = |s: &mut S| loop { let d = any(s); if len(d) > 0.01 { return d; } if s.below(2) == 1 { return [0.0, 0.0, 1.0]; } };
    let (u, w_) = (dir(s), dir(s));
    let (nu, nw) = (Norm3D::new(p3(u)).unwrap(), Norm3D::new(p3(w_)).unwrap());
    let plane = Plane3D::new(p3(o), nu.clone(), nw.clone());
    s.ck(v(&plane.origin()) == o && v(&plane.u()) == v(&nu) && v(&plane.v()) == v(&nw), "plane: keeps its origin and directions");
    let q: Point2D = project_point_on_plane(&plane, &p3(p));
    let rel = sub(p, o);
    s.ck(close2(w(&q), [dot(rel, u) / len(u), dot(rel, w_) / len(w_)]), "plane: coordinates along both directions");
    // direction fields
    let eps = frac(s) * 3.3;
    let angle = len(crs(u, w_)).atan2(dot(u, w_));
    let r = FilterDirectionField3D::new(F3(nu), Rad(eps)).is_allowed(&(p3(p), nw));
    if (angle - eps).abs() > 1e-6 { s.ck(r == (angle <= eps), "direction field: directions within the angle"); }
    let flat = |x: V| [x[0], x[1], 0.0];
    if len(flat(u)) > 0.01 && len(flat(w_)) > 0.01 {
        let (u, w_) = (flat(u), flat(w_));
        let angle = len(crs(u, w_)).atan2(dot(u, w_));
        let r = FilterDirectionField2D::new(F2(Norm2D::new(p2(u)).unwrap()), Rad(eps)).is_allowed(&(p2(p), Norm2D::new(p2(w_)).unwrap()));
        if (angle - eps).abs() > 1e-6 { s.ck(r == (angle <= eps), "direction field: 2D directions within the angle"); }
    }
    // exactly the angle is allowed
    let axis = [Norm2D::norm_x(), Norm2D::norm_y(), Norm2D::norm_x_neg(), Norm2D::norm_y_neg()];
    let (i, j) = (s.below(4), s.below(4));
    let quarters = match (4 + i - j) % 4 { 0 => 0, 2 => 2, _ => 1 };
    for (q, eps) in [0.0, std::f64::consts::FRAC_PI_2, std::f64::consts::PI].iter().enumerate() {
        s.ck(FilterDirectionField2D::new(F2(axis[i].clone()), Rad(*eps)).is_allowed(&(p2(p), axis[j].clone())) == (quarters <= q), "direction field: 2D directions at exactly the angle");
        let up = |i: usize| [Norm3D::norm_x(), Norm3D::norm_z(), Norm3D::norm_x_neg(), Norm3D::norm_z_neg()][i].clone();
        s.ck(FilterDirectionField3D::new(F3(up(i)), Rad(*eps)).is_allowed(&(p3(p), up(j))) == (quarters <= q), "direction field: directions at exactly the angle");
    }
}

/// lengths and centers of gravity
pub fn measures<S: Src>(s: &mut S) {
    let n = s.below(6);
    let pts: Vec<V> = (0..n).map(|_| any(s)).collect();
    let sub = |a: V, b: V| [a[0] - b[0], a[1] - b[1], a[2] - b[2]];
    let flat = |x: V| [x[0], x[1], 0.0];
    let (mut l3, mut l2) = (0.0, 0.0);
    for i in 1..n { l3 += len(sub(pts[i], pts[i - 1])); l2 += len(flat(sub(pts[i], pts[i - 1]))); }
    let (mut c3, mut c2) = (PointCloud3D::new(), PointCloud2D::new());
    for p in pts.iter() { c3.push(p3(*p)); c2.push(p2(*p)); }
    s.ck(near(c3.length(), l3) && near(c2.length(), l2), "length: of a cloud, from position to position");
    let mean = |i: usize| pts.iter().map(|p| p[i]).sum::<f64>() / n as f64;
    match c3.center_of_gravity() { Some(c) => s.ck(n > 0 && close(v(&c), [mean(0), mean(1), mean(2)]), "center of gravity: of a cloud, the mean"), None => s.ck(n == 0, "center of gravity: of a cloud, the mean") }
    match c2.center_of_gravity() { Some(c) => s.ck(n > 0 && close2(w(&c), [mean(0), mean(1)]), "center of gravity: of a 2D cloud, the mean"), None => s.ck(n == 0, "center of gravity: of a 2D cloud, the mean") }
    let (q3, q2) = (Polygon3D::from(c3.clone()), Polygon2D::from(c2.clone()));
    let (e3, e2) = if n == 0 { (0.0, 0.0) } else { (len(sub(pts[n - 1], pts[0])), len(flat(sub(pts[n - 1], pts[0])))) };
    s.ck(near(q3.length(), l3 + e3) && near(q2.length(), l2 + e2), "length: of a polygon, back to its start");
    s.ck(q3.center_of_gravity() == c3.center_of_gravity() && q2.center_of_gravity() == c2.center_of_gravity(), "center of gravity: of a polygon, that of its positions");
    let mut m = Mesh3D::<Point3D, PointCloud3D<Point3D>, Vec<usize>>::default();
    for p in pts.iter() { m.add_vertex(p3(*p)); }
    s.ck(m.center_of_gravity() == c3.center_of_gravity(), "center of gravity: of a mesh, that of its vertices");
    s.ck(SearchableMesh::<_, Point3D, Vec<usize>>::new(m).center_of_gravity() == c3.center_of_gravity(), "center of gravity: of a searchable mesh, that of its vertices");
    if n > 1 {
        let (g3, g2) = (LineSegment3D::new(p3(pts[0]), p3(pts[1])), LineSegment2D::new(p2(pts[0]), p2(pts[1])));
        s.ck(near(g3.length(), len(sub(pts[1], pts[0]))) && near(g2.length(), len(flat(sub(pts[1], pts[0])))), "length: of a line segment, between its ends");
        let mid = |i: usize| (pts[0][i] + pts[1][i]) / 2.0;
        s.ck(close(v(&g3.center_of_gravity().unwrap()), [mid(0), mid(1), mid(2)]) && close2(w(&g2.center_of_gravity().unwrap()), [mid(0), mid(1)]), "center of gravity: of a line segment, its middle");
    }
}

/// scaling: f times as large, at the same place
pub fn scaling<S: Src>(s: &mut S) {
    let f = pos(s);
    let k = *f;
    let c = any(s);
    let (a, b) = (pos(s), pos(s));
    let mut x = Circle { center: p2(c), radius: a }; x.scale(f);
    s.ck(w(&x.center) == [c[0], c[1]] && near(*x.radius, *a * k), "scale: circle");
    let mut x = Sphere { center: p3(c), radius: a }; x.scale(f);
    s.ck(v(&x.center) == c && near(*x.radius, *a * k), "scale: sphere");
    let mut x = Box2D { center: p2(c), size_x: a, size_y: b }; x.scale(f);
    s.ck(w(&x.center) == [c[0], c[1]] && near(*x.size_x, *a * k) && near(*x.size_y, *b * k), "scale: box");
    let mut x = Box3D { center: p3(c), size_x: a, size_y: b, size_z: a }; x.scale(f);
    s.ck(v(&x.center) == c && near(*x.size_x, *a * k) && near(*x.size_y, *b * k) && near(*x.size_z, *a * k), "scale: 3D box");
    let at = |p: V, i: usize, h: f64| p[i] + h;
    let mut x = BoundingBox2D::new(&p2(c), &Point2D::new(at(c, 0, *a), at(c, 1, *b))).unwrap(); x.scale(f);
    let mid = [c[0] + *a / 2.0, c[1] + *b / 2.0, c[2] + *a / 2.0];
    s.ck(close2(w(&x.min_p()), [mid[0] - *a * k / 2.0, mid[1] - *b * k / 2.0]) && close2(w(&x.max_p()), [mid[0] + *a * k / 2.0, mid[1] + *b * k / 2.0]), "scale: bounding box");
    let mut x = BoundingBox3D::new(&p3(c), &Point3D::new(at(c, 0, *a), at(c, 1, *b), at(c, 2, *a))).unwrap(); x.scale(f);
    s.ck(close(v(&x.min_p()), [mid[0] - *a * k / 2.0, mid[1] - *b * k / 2.0, mid[2] - *a * k / 2.0]) && close(v(&x.max_p()), [mid[0] + *a * k / 2.0, mid[1] + *b * k / 2.0, mid[2] + *a * k / 2.0]), "scale: 3D bounding box");
    let away = |q: V, m: V| [m[0] + k * (q[0] - m[0]), m[1] + k * (q[1] - m[1]), m[2] + k * (q[2] - m[2])];
    let d = any(s);
    let m = [(c[0] + d[0]) / 2.0, (c[1] + d[1]) / 2.0, (c[2] + d[2]) / 2.0];
    let mut x = LineSegment3D::new(p3(c), p3(d)); x.scale(f);
    s.ck(close(v(&x.start), away(c, m)) && close(v(&x.end), away(d, m)), "scale: line segment");
    let mut x = LineSegment2D::new(p2(c), p2(d)); x.scale(f);
    s.ck(close2(w(&x.start), [away(c, m)[0], away(c, m)[1]]) && close2(w(&x.end), [away(d, m)[0], away(d, m)[1]]), "scale: 2D line segment");
    // positions
    let n = s.below(5);
    let flat = s.below(4);
    let pts: Vec<V> = (0..n).map(|_| { let mut p = any(s); if flat < 3 { p[flat] = 1.0; } p }).collect();
    let lim = |i: usize| { let mut l = (1e300f64, -1e300f64); for p in pts.iter() { l = (l.0.min(p[i]), l.1.max(p[i])); } l };
    let mid = [(lim(0).0 + lim(0).1) / 2.0, (lim(1).0 + lim(1).1) / 2.0, (lim(2).0 + lim(2).1) / 2.0];
    let ext = |d: usize| n >= 2 && (0..d).all(|i| lim(i).0 < lim(i).1);
    let (mut c3, mut c2, mut o3, mut o2) = (PointCloud3D::new(), PointCloud2D::new(), vec![], vec![]);
    for p in pts.iter() { c3.push(p3(*p)); c2.push(p2(*p)); o3.push(away(*p, mid)); o2.push([away(*p, mid)[0], away(*p, mid)[1]]); }
    let (mut q3, mut q2) = (Polygon3D::from(c3.clone()), Polygon2D::from(c2.clone()));
    let mut mesh = Mesh3D::<Point3D, PointCloud3D<Point3D>, Vec<usize>>::default();
    for p in pts.iter() { mesh.add_vertex(p3(*p)); }
    let mut sm = SearchableMesh::<_, Point3D, Vec<usize>>::new(mesh.clone());
    c3.scale(f); c2.scale(f); q3.scale(f); q2.scale(f); mesh.scale(f); sm.scale(f);
    let same3 = |g: &dyn Fn(usize) -> V| (0..n).all(|i| close(g(i), o3[i]));
    let same2 = |g: &dyn Fn(usize) -> [f64; 2]| (0..n).all(|i| close2(g(i), o2[i]));
    let kept3 = |g: &dyn Fn(usize) -> V| (0..n).all(|i| g(i) == pts[i]);
    let kept2 = |g: &dyn Fn(usize) -> [f64; 2]| (0..n).all(|i| g(i) == [pts[i][0], pts[i][1]]);
    // without an extent in every dimension nothing is moved, see the known findings
    let mut known = false;
    let what = "scale: positions without extent in a dimension are left as they are";
    let g: Vec<(&str, Box<dyn Fn(usize) -> V>)> = vec![
        ("scale: point cloud", Box::new(|i| v(&c3.data[i]))),
        ("scale: polygon", Box::new(|i| v(&q3.vertex(VId(i)).unwrap()))),
        ("scale: mesh", Box::new(|i| v(&mesh.vertex(VId(i)).unwrap()))),
        ("scale: searchable mesh", Box::new(|i| v(&sm.vertex(VId(i)).unwrap()))),
    ];
    s.ck(c3.len() == n && c2.len() == n, "scale: keeps the number of positions");
    for (name, g) in g.iter() {
        if same3(&**g) { continue; }
        if !ext(3) && kept3(&**g) { known = true; } else { s.ck(false, name); }
    }
    let g: Vec<(&str, Box<dyn Fn(usize) -> [f64; 2]>)> = vec![
        ("scale: 2D point cloud", Box::new(|i| w(&c2.data[i]))),
        ("scale: 2D polygon", Box::new(|i| w(&q2.vertex(VId(i)).unwrap()))),
    ];
    for (name, g) in g.iter() {
        if same2(&**g) { continue; }
        if !ext(2) && kept2(&**g) { known = true; } else { s.ck(false, name); }
    }
    s.ck(!known, what);
}
crate::natives! { vectors: 60000, normals: 40000, measures: 40000, scaling: 40000 }

use crate::Src;
use rust_3d::*;

type M3 = [[f64; 3]; 3];
type M4 = [[f64; 4]; 4];

fn x<S: Src>(s: &mut S) -> f64 {
    match s.below(4) {
        0 => s.grid(),
        1 => s.grid() / 4.0,
        2 => [0.0, 1.0, -1.0, 1e-3, 1e3][s.below(5)],
        _ => (s.u32() as f64) / (u32::max_value() as f64) * 20.0 - 10.0,
    }
}
fn angle<S: Src>(s: &mut S) -> f64 {
    match s.below(3) {
        0 => std::f64::consts::PI / 12.0 * (s.below(49) as f64 - 24.0),
        1 => 0.0,
        _ => x(s),
    }
}
/// a nonzero whole number
fn nz<S: Src>(s: &mut S) -> f64 {
    let v = s.below(6) as f64 + 1.0;
    if s.bool() { v } else { -v }
}
fn near(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}
/// near relative to the size of the terms that were added up
fn near_at(a: f64, b: f64, size: f64) -> bool {
    a == b || (a - b).abs() <= 1e-12 * (1.0 + size)
}
macro_rules! mats {
    ($n:expr, $T:ident, $A:ty, $prod:ident, $any:ident, $close:ident, $eq:ident, $unit:ident) => {
        fn $prod(a: &$A, b: &$A) -> ($A, $A) {
            let mut r = [[0.0; $n]; $n];
            let mut size = r;
            for i in 0..$n {
                for j in 0..$n {
                    for t in 0..$n {
                        r[i][j] += a[i][t] * b[t][j];
                        size[i][j] += (a[i][t] * b[t][j]).abs();
                    }
                }
            }
            (r, size)
        }
        fn $any<S: Src>(s: &mut S) -> $T {
            let mut m = $T::zeroes();
            let whole = s.bool();
            for i in 0..$n {
                for j in 0..$n {
                    m.data[i][j] = if whole { s.grid() } else { x(s) };
                }
            }
            m
        }
        fn $close(a: &$A, b: &$A) -> bool {
            (0..$n).all(|i| (0..$n).all(|j| near(a[i][j], b[i][j])))
        }
        fn $eq(a: &$A, b: &$A) -> bool {
            (0..$n).all(|i| (0..$n).all(|j| a[i][j] == b[i][j]))
        }
        fn $unit() -> $A {
            let mut r = [[0.0; $n]; $n];
            for i in 0..$n {
                r[i][i] = 1.0;
            }
            r
        }
    };
}
mats!(3, Matrix3, M3, prod3, any3, close3, eq3, unit3);
mats!(4, Matrix4, M4, prod4, any4, close4, eq4, unit4);

fn translation3(x: f64, y: f64) -> M3 {
    [[1.0, 0.0, x], [0.0, 1.0, y], [0.0, 0.0, 1.0]]
}
fn scale3(x: f64, y: f64) -> M3 {
    [[x, 0.0, 0.0], [0.0, y, 0.0], [0.0, 0.0, 1.0]]
}
fn rotation3(r: f64) -> M3 {
    [[r.cos(), -r.sin(), 0.0], [r.sin(), r.cos(), 0.0], [0.0, 0.0, 1.0]]
}
fn translation4(x: f64, y: f64, z: f64) -> M4 {
    [[1.0, 0.0, 0.0, x], [0.0, 1.0, 0.0, y], [0.0, 0.0, 1.0, z], [0.0, 0.0, 0.0, 1.0]]
}
fn scale4(x: f64, y: f64, z: f64) -> M4 {
    [[x, 0.0, 0.0, 0.0], [0.0, y, 0.0, 0.0], [0.0, 0.0, z, 0.0], [0.0, 0.0, 0.0, 1.0]]
}
/// right handed rotation around a unit vector
fn around(u: [f64; 3], r: f64) -> M4 {
    let (c, s) = (r.cos(), r.sin());
    let mut m = unit4();
    for i in 0..3 {
        for j in 0..3 {
            let k = 3 - i - j.min(3 - i);
            let cr = if i == j { 0.0 } else if (i + 1) % 3 == j { -u[k % 3] } else { u[k % 3] };
            m[i][j] = (if i == j { c } else { 0.0 }) + u[i] * u[j] * (1.0 - c) + cr * s;
        }
    }
    m
}
fn rotation4(x: f64, y: f64, z: f64) -> M4 {
    let t = prod4(&around([1.0, 0.0, 0.0], x), &around([0.0, 1.0, 0.0], y)).0;
    prod4(&t, &around([0.0, 0.0, 1.0], z)).0
}
pub fn layouts<S: Src>(s: &mut S) {
    let (a, b, c) = (s.num(), s.num(), s.num());
    s.ck(eq3(&Matrix3::identity().data, &unit3()) && eq4(&Matrix4::identity().data, &unit4()), "identity");
    s.ck(eq3(&Matrix3::default().data, &unit3()) && eq4(&Matrix4::default().data, &unit4()), "default is the identity");
    s.ck(eq3(&Matrix3::zeroes().data, &[[0.0; 3]; 3]) && eq4(&Matrix4::zeroes().data, &[[0.0; 4]; 4]), "zeroes");
    s.ck(eq3(&Matrix3::translation(a, b).data, &translation3(a, b)), "translation 2D");
    s.ck(eq4(&Matrix4::translation(a, b, c).data, &translation4(a, b, c)), "translation 3D");
    s.ck(eq3(&Matrix3::scale(a, b).data, &scale3(a, b)), "scale 2D");
    s.ck(eq4(&Matrix4::scale(a, b, c).data, &scale4(a, b, c)), "scale 3D");
    let (p, q, r) = (angle(s), angle(s), angle(s));
    s.ck(close3(&Matrix3::rotation(Rad(p)).data, &rotation3(p)), "rotation 2D");
    s.ck(close4(&Matrix4::rotation(Rad(p), Rad(q), Rad(r)).data, &rotation4(p, q, r)), "rotation 3D");
}
pub fn products<S: Src>(s: &mut S) {
    let (a, b) = (any3(s), any3(s));
    let (w, size) = prod3(&a.data, &b.data);
    let ok = |m: &Matrix3| (0..3).all(|i| (0..3).all(|j| near_at(m.data[i][j], w[i][j], size[i][j])));
    s.ck(ok(&(&a * &b)), "Matrix3: &a * &b");
    s.ck(ok(&(a.clone() * &b)), "Matrix3: a * &b");
    s.ck(ok(&(a.clone() * b.clone())), "Matrix3: a * b");
    let f = x(s);
    let (p, q) = (&a * f, a.clone() * f);
    s.ck((0..3).all(|i| (0..3).all(|j| p.data[i][j] == a.data[i][j] * f && q.data[i][j] == a.data[i][j] * f)), "Matrix3: times a number");
    let (a, b) = (any4(s), any4(s));
    let (w, size) = prod4(&a.data, &b.data);
    let ok = |m: &Matrix4| (0..4).all(|i| (0..4).all(|j| near_at(m.data[i][j], w[i][j], size[i][j])));
    s.ck(ok(&(&a * &b)), "Matrix4: &a * &b");
    s.ck(ok(&(a.clone() * &b)), "Matrix4: a * &b");
    s.ck(ok(&(a.clone() * b.clone())), "Matrix4: a * b");
    let (p, q) = (&a * f, a.clone() * f);
    s.ck((0..4).all(|i| (0..4).all(|j| p.data[i][j] == a.data[i][j] * f && q.data[i][j] == a.data[i][j] * f)), "Matrix4: times a number");
}
pub fn pipe_2d<S: Src>(s: &mut S) {
    let mut p = Matrix3Pipe::default();
    let (mut t, mut r, mut c) = (unit3(), unit3(), unit3());
    for _ in 0..s.below(8) {
        let (a, b) = (x(s), x(s));
        match s.below(6) {
            0 => { p.add_translation(a, b); t = translation3(a, b) }
            1 => { p.add_rotation(Rad(a)); r = rotation3(a) }
            2 => { p.add_scale(a, b); c = scale3(a, b) }
            3 => { p.remove_translation(); t = unit3() }
            4 => { p.remove_rotation(); r = unit3() }
            _ => { p.remove_scale(); c = unit3() }
        }
        s.ck(close3(&p.mtranslation.data, &t) && close3(&p.mrotation.data, &r) && close3(&p.mscale.data, &c), "Matrix3Pipe: each operation changes its stage only");
        let w = prod3(&prod3(&t, &r).0, &c).0;
        s.ck(close3(&p.result().data, &w), "Matrix3Pipe: result is translation * rotation * scale");
    }
}
fn unit_vector<S: Src>(s: &mut S) -> Option<Norm3D> {
    match s.below(8) {
        0 => Some(Norm3D::norm_x()),
        1 => Some(Norm3D::norm_y()),
        2 => Some(Norm3D::norm_z()),
        _ => Norm3D::new(Point3D::new(x(s), x(s), x(s))).ok(),
    }
}
pub fn axis<S: Src>(s: &mut S) {
    let u = match unit_vector(s) { Some(u) => u, None => return };
    let a = angle(s);
    let m = Matrix4::rotation_axis(&u, Rad(a));
    s.ck(close4(&m.data, &around([u.x(), u.y(), u.z()], a)), "rotation_axis: the rotation around the axis");
    let p = Point3D::new(u.x(), u.y(), u.z());
    let q = p.multiply_m(&m);
    s.ck(near(p.x, q.x) && near(p.y, q.y) && near(p.z, q.z), "rotation_axis: the axis stays");
}
pub fn pipe_3d<S: Src>(s: &mut S) {
    let mut p = Matrix4Pipe::default();
    // perspective, look at, camera translation, translation, rotation, scale
    let mut st = [unit4(), unit4(), unit4(), unit4(), unit4(), unit4()];
    for _ in 0..s.below(8) {
        let (a, b, c) = (x(s), x(s), x(s));
        match s.below(13) {
            0 => { p.add_translation(a, b, c); st[3] = translation4(a, b, c) }
            1 => { p.add_rotation(Rad(a), Rad(b), Rad(c)); st[4] = rotation4(a, b, c) }
            2 => { p.add_scale(a, b, c); st[5] = scale4(a, b, c) }
            3 => { p.remove_translation(); st[3] = unit4() }
            4 => { p.remove_rotation(); st[4] = unit4() }
            5 => { p.remove_scale(); st[5] = unit4() }
            6 => { p.add_camera_translation(a, b, c); st[2] = translation4(-a, -b, -c) }
            7 => { p.remove_camera_translation(); st[2] = unit4() }
            8 => if let Some(u) = unit_vector(s) { p.add_rotation_axis(&u, Rad(a)); st[4] = around([u.x(), u.y(), u.z()], a) },
            9 => { let (f, n) = (0.5 + s.below(3) as f64 * 0.5, 1.0 + s.below(4) as f64); p.add_perspective(n, n + 9.0, Rad(f)); st[0] = Matrix4::perspective(n, n + 9.0, Rad(f)).data }
            10 => { p.remove_perspective(); st[0] = unit4() }
            11 => if let Some(u) = unit_vector(s) {
                let target = Point3D::new(a, b, c);
                let ok = p.add_look_at(&target, &u).is_ok();
                s.ck(ok == !(a == 0.0 && b == 0.0 && c == 0.0), "add_look_at fails exactly for a target at the origin");
                if ok { st[1] = Matrix4::look_at(&target, &u).unwrap_or(Matrix4::zeroes()).data }
            },
            _ => { p.remove_look_at(); st[1] = unit4() }
        }
        let got = [&p.mperspective, &p.mcamlook, &p.mcamtrans, &p.mtranslation, &p.mrotation, &p.mscale];
        s.ck((0..6).all(|i| close4(&got[i].data, &st[i])), "Matrix4Pipe: each operation changes its stage only");
        let mut w = st[0];
        let mut size = 1.0;
        for i in 0..6 {
            if i > 0 { w = prod4(&w, &st[i]).0 }
            size *= st[i].iter().map(|r| r.iter().map(|v| v.abs()).sum::<f64>()).fold(1.0, f64::max);
        }
        let r = p.result();
        s.ck((0..4).all(|i| (0..4).all(|j| near_at(r.data[i][j], w[i][j], size))), "Matrix4Pipe: result is perspective * look at * camera translation * translation * rotation * scale");
    }
}
pub fn look_at<S: Src>(s: &mut S) {
    let t = Point3D::new(x(s), x(s), x(s));
    let up = match unit_vector(s) { Some(u) => u, None => return };
    let l = (t.x * t.x + t.y * t.y + t.z * t.z).sqrt();
    match Matrix4::look_at(&t, &up) {
        Err(_) => s.ck(l == 0.0, "look_at fails only for a target at the origin"),
        Ok(m) => {
            let d = m.data;
            s.ck(near(d[2][0] * l, t.x) && near(d[2][1] * l, t.y) && near(d[2][2] * l, t.z), "look_at: third row points to the target");
            let dot = |i: usize, j: usize| (0..3).map(|k| d[i][k] * d[j][k]).sum::<f64>();
            s.ck(near_at(dot(0, 1) * 1e-3, 0.0, l * l) && near_at(dot(0, 2) * 1e-3, 0.0, l * l) && near_at(dot(1, 2) * 1e-3, 0.0, l * l), "look_at: rows are perpendicular");
            s.ck((0..3).all(|i| d[i][3] == 0.0 && d[3][i] == 0.0) && d[3][3] == 1.0, "look_at: no translation");
            let c = |a: [f64; 3], b: [f64; 3]| [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
            let (a, b) = ([up.x(), up.y(), up.z()], [t.x, t.y, t.z]);
            let across = c(a, b);
            let over = c(b, across);
            s.ck((0..3).all(|i| near_at(d[0][i], across[i], l) && near_at(d[1][i] * l, over[i], l * l)), "look_at: first row across the view, second row over it");
        }
    }
}
fn map2(m: &M3, p: &Point2D) -> (Point2D, f64) {
    let f = |r: usize| m[r][0] * p.x + m[r][1] * p.y + m[r][2];
    let size = (0..2).map(|r| (m[r][0] * p.x).abs() + (m[r][1] * p.y).abs() + m[r][2].abs()).fold(0.0, f64::max);
    (Point2D::new(f(0), f(1)), size)
}
fn map3(m: &M4, p: &Point3D) -> (Point3D, f64) {
    let f = |r: usize| m[r][0] * p.x + m[r][1] * p.y + m[r][2] * p.z + m[r][3];
    let size = (0..3).map(|r| (m[r][0] * p.x).abs() + (m[r][1] * p.y).abs() + (m[r][2] * p.z).abs() + m[r][3].abs()).fold(0.0, f64::max);
    (Point3D::new(f(0), f(1), f(2)), size)
}
fn is2(m: &M3, p: &Point2D, q: &Point2D) -> bool {
    let (w, size) = map2(m, p);
    near_at(w.x, q.x, size) && near_at(w.y, q.y, size)
}
fn is3(m: &M4, p: &Point3D, q: &Point3D) -> bool {
    let (w, size) = map3(m, p);
    near_at(w.x, q.x, size) && near_at(w.y, q.y, size) && near_at(w.z, q.z, size)
}
fn any_p2<S: Src>(s: &mut S) -> Point2D {
    Point2D::new(x(s), x(s))
}
fn any_p3<S: Src>(s: &mut S) -> Point3D {
    Point3D::new(x(s), x(s), x(s))
}
fn all2(m: &M3, a: &[Point2D], b: &[Point2D]) -> bool {
    a.len() == b.len() && a.iter().zip(b.iter()).all(|(p, q)| is2(m, p, q))
}
fn all3(m: &M4, a: &[Point3D], b: &[Point3D]) -> bool {
    a.len() == b.len() && a.iter().zip(b.iter()).all(|(p, q)| is3(m, p, q))
}
fn size<S: Src>(s: &mut S) -> usize {
    match s.below(40) {
        0 => 40 + s.below(500),
        _ => s.below(7),
    }
}
pub fn transforms_2d<S: Src>(s: &mut S) {
    let m = any3(s);
    let n = size(s);
    let ps: Vec<Point2D> = (0..n).map(|_| any_p2(s)).collect();
    for p in ps.iter().take(3) {
        let mut q = p.clone();
        q.transform(&m);
        s.ck(is2(&m.data, p, &p.multiply_m(&m)) && is2(&m.data, p, &p.transformed(&m)) && is2(&m.data, p, &q), "Point2D");
    }
    if n > 1 {
        let l = LineSegment2D::new(ps[0].clone(), ps[1].clone());
        let t = l.transformed(&m);
        let mut u = l.clone();
        u.transform(&m);
        s.ck(is2(&m.data, &ps[0], &t.start) && is2(&m.data, &ps[1], &t.end) && is2(&m.data, &ps[0], &u.start) && is2(&m.data, &ps[1], &u.end), "LineSegment2D");
    }
    let pc = PointCloud2D { data: ps.clone() };
    let t = pc.transformed(&m);
    let mut u = pc.clone();
    u.transform(&m);
    s.ck(all2(&m.data, &ps, &t.data) && all2(&m.data, &ps, &u.data) && pc.data == ps, "PointCloud2D");
    let pg: Polygon2D<Point2D> = pc.into();
    let t = pg.transformed(&m);
    let mut u = pg.clone();
    u.transform(&m);
    let vs = |p: &Polygon2D<Point2D>| -> Vec<Point2D> { (0..p.num_vertices()).filter_map(|i| p.vertex(VId(i))).collect() };
    s.ck(all2(&m.data, &ps, &vs(&t)) && all2(&m.data, &ps, &vs(&u)) && vs(&pg) == ps, "Polygon2D");
}
type Mesh = Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>>;
fn mesh<S: Src>(s: &mut S, ps: &[Point3D]) -> (Mesh, Vec<Face3>) {
    let mut m = Mesh::default();
    let mut fs = vec![];
    for p in ps {
        m.add_vertex(p.clone());
    }
    if ps.len() > 2 {
        for _ in 0..s.below(6) {
            let (a, b, c) = (s.below(ps.len()), s.below(ps.len()), s.below(ps.len()));
            if m.try_add_connection(VId(a), VId(b), VId(c)).is_ok() {
                fs.push(Face3::new(VId(a), VId(b), VId(c)))
            }
        }
    }
    (m, fs)
}
fn verts(m: &Mesh) -> Vec<Point3D> {
    (0..m.num_vertices()).filter_map(|i| m.vertex(VId(i))).collect()
}
fn faces(m: &Mesh) -> Vec<Face3> {
    (0..m.num_faces()).filter_map(|i| m.face_vertex_ids(FId(i))).collect()
}
pub fn transforms_3d<S: Src>(s: &mut S) {
    let m = any4(s);
    let n = size(s);
    let ps: Vec<Point3D> = (0..n).map(|_| any_p3(s)).collect();
    for p in ps.iter().take(3) {
        let mut q = p.clone();
        q.transform(&m);
        s.ck(is3(&m.data, p, &p.multiply_m(&m)) && is3(&m.data, p, &p.transformed(&m)) && is3(&m.data, p, &q), "Point3D");
    }
    if n > 1 {
        let l = LineSegment3D::new(ps[0].clone(), ps[1].clone());
        let t = l.transformed(&m);
        let mut u = l.clone();
        u.transform(&m);
        s.ck(is3(&m.data, &ps[0], &t.start) && is3(&m.data, &ps[1], &t.end) && is3(&m.data, &ps[0], &u.start) && is3(&m.data, &ps[1], &u.end), "LineSegment3D");
    }
    let pc = PointCloud3D { data: ps.clone() };
    let t = pc.transformed(&m);
    let mut u = pc.clone();
    u.transform(&m);
    s.ck(all3(&m.data, &ps, &t.data) && all3(&m.data, &ps, &u.data) && pc.data == ps, "PointCloud3D");
    let pg: Polygon3D<Point3D> = pc.into();
    let t = pg.transformed(&m);
    let mut u = pg.clone();
    u.transform(&m);
    let vs = |p: &Polygon3D<Point3D>| -> Vec<Point3D> { (0..p.num_vertices()).filter_map(|i| p.vertex(VId(i))).collect() };
    s.ck(all3(&m.data, &ps, &vs(&t)) && all3(&m.data, &ps, &vs(&u)) && vs(&pg) == ps, "Polygon3D");
    let (me, fs) = mesh(s, &ps);
    let t = me.transformed(&m);
    let mut u = me.clone();
    u.transform(&m);
    s.ck(all3(&m.data, &ps, &verts(&t)) && all3(&m.data, &ps, &verts(&u)) && verts(&me) == ps, "Mesh3D: vertices");
    s.ck(faces(&t) == fs && faces(&u) == fs && faces(&me) == fs, "Mesh3D: faces");
}
/// transforming by a product is transforming by its factors, last one first
pub fn composition<S: Src>(s: &mut S) {
    let (mut a, mut b) = (any3(s), any3(s));
    a.data[2] = [0.0, 0.0, 1.0];
    b.data[2] = [0.0, 0.0, 1.0];
    let p = Point2D::new(s.grid(), s.grid());
    let (q, r) = (p.multiply_m(&(&a * &b)), p.multiply_m(&b).multiply_m(&a));
    s.ck(near(q.x, r.x) && near(q.y, r.y), "2D");
    let (mut a, mut b) = (any4(s), any4(s));
    a.data[3] = [0.0, 0.0, 0.0, 1.0];
    b.data[3] = [0.0, 0.0, 0.0, 1.0];
    let p = Point3D::new(s.grid(), s.grid(), s.grid());
    let (q, r) = (p.multiply_m(&(&a * &b)), p.multiply_m(&b).multiply_m(&a));
    let big = 1e6 * a.data.iter().chain(b.data.iter()).map(|r| r.iter().map(|v| v.abs()).sum::<f64>()).fold(1.0, f64::max);
    s.ck(near_at(q.x, r.x, big) && near_at(q.y, r.y, big) && near_at(q.z, r.z, big), "3D");
}
fn bounds(ps: &[Point3D]) -> Option<([f64; 3], [f64; 3])> {
    let mut lo = [f64::INFINITY; 3];
    let mut hi = [-f64::INFINITY; 3];
    for p in ps {
        for (i, v) in [p.x, p.y, p.z].iter().enumerate() {
            lo[i] = lo[i].min(*v);
            hi[i] = hi[i].max(*v);
        }
    }
    if (0..3).all(|i| lo[i] < hi[i]) { Some((lo, hi)) } else { None }
}
pub fn placing<S: Src>(s: &mut S) {
    let n = size(s);
    let ps: Vec<Point3D> = (0..n).map(|_| Point3D::new(s.grid() + nz(s) * 8.0, s.grid() / 2.0 + 3.0, s.grid())).collect();
    let (me, fs) = mesh(s, &ps);
    let mut pc = PointCloud3D { data: ps.clone() };
    let b = bounds(&ps);
    center(&mut pc);
    let sh: Vec<f64> = (0..3).map(|i| b.map_or(0.0, |(lo, hi)| (lo[i] + hi[i]) / 2.0)).collect();
    s.ck(pc.data.len() == n && pc.data.iter().zip(ps.iter()).all(|(q, p)| near(q.x, p.x - sh[0]) && near(q.y, p.y - sh[1]) && near(q.z, p.z - sh[2])), "center moves the middle of the bounding box to the origin");
    let size: Vec<f64> = (0..3).map(|_| 0.5 * (1.0 + s.below(9) as f64)).collect();
    let pos = |v: f64| Positive::new(v).unwrap_or(Positive::one());
    let f: Vec<f64> = (0..3).map(|i| b.map_or(1.0, |(lo, hi)| size[i] / (hi[i] - lo[i]))).collect();
    let scaled = |qs: &[Point3D]| qs.len() == n && qs.iter().zip(ps.iter()).all(|(q, p)| near(q.x, p.x * f[0]) && near(q.y, p.y * f[1]) && near(q.z, p.z * f[2]));
    let mut pc = PointCloud3D { data: ps.clone() };
    set_size(&mut pc, [pos(size[0]), pos(size[1]), pos(size[2])]);
    s.ck(scaled(&pc.data), "set_size of a cloud");
    let mut m2 = me.clone();
    set_size(&mut m2, [pos(size[0]), pos(size[1]), pos(size[2])]);
    s.ck(scaled(&verts(&m2)) && faces(&m2) == fs, "set_size of a mesh");
}
pub fn extruding<S: Src>(s: &mut S) {
    let n = size(s);
    let ps: Vec<Point2D> = (0..n).map(|_| any_p2(s)).collect();
    let d = any_p3(s);
    let (a, b): (PointCloud3D<Point3D>, PointCloud3D<Point3D>) = extrude(&ps, &d);
    s.ck(a.data.len() == n && a.data.iter().zip(ps.iter()).all(|(q, p)| q.x == p.x && q.y == p.y && q.z == 0.0), "extrude: base at z = 0, in order");
    s.ck(b.data.len() == n && b.data.iter().zip(ps.iter()).all(|(q, p)| q.x == p.x + d.x && q.y == p.y + d.y && q.z == d.z), "extrude: top moved by the direction, in order");
    for p in ps.iter() {
        let z = x(s);
        let q: Point3D = p.transform_to_3d(z);
        let r: Point2D = q.transform_to_2d();
        s.ck(q.x == p.x && q.y == p.y && q.z == z && r == *p, "transform_to_3d, transform_to_2d");
    }
    let (p, q) = (any_p3(s), any_p3(s));
    let c = conn(&p, &q);
    s.ck(c.x == q.x - p.x && c.y == q.y - p.y && c.z == q.z - p.z, "conn");
}
crate::natives! { layouts: 40000, products: 40000, pipe_2d: 30000, pipe_3d: 30000, axis: 60000, look_at: 60000, transforms_2d: 30000, transforms_3d: 30000, composition: 60000, placing: 40000, extruding: 40000 }

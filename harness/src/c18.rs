use crate::src::{same, Src};
use rust_3d::io::*;
use rust_3d::*;
use std::io::{BufReader, Cursor};
use std::result::Result;

type M = Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>>;
/// a number and its text
fn number<S: Src>(s: &mut S) -> (f64, String) {
    match s.below(5) {
        0 => {
            let x = s.fin();
            (x, format!("{:e}", x))
        }
        1 => {
            let x = s.below(2000) as f64 - 1000.0;
            (x, format!("{:.3}", x))
        }
        2 => {
            let x = s.grid() / 4.0;
            (x, format!("{}", x))
        }
        _ => {
            let x = s.grid();
            (x, format!("{}", x))
        }
    }
}
macro_rules! ln {
    ($t:expr, $s:expr, $e:expr) => {{
        let l = $e;
        $t.line($s, l)
    }};
}
struct Txt {
    b: Vec<u8>,
    crlf: bool,
    terminated: bool,
}
impl Txt {
    fn new<S: Src>(s: &mut S) -> Self {
        Txt { b: vec![], crlf: s.below(4) == 0, terminated: s.below(4) > 0 }
    }
    fn line<S: Src>(&mut self, s: &mut S, l: impl AsRef<str>) {
        self.b.extend_from_slice(l.as_ref().as_bytes());
        if s.below(8) == 0 {
            self.b.push(b' ');
        }
        if self.crlf {
            self.b.push(b'\r');
        }
        self.b.push(b'\n');
    }
    fn done(mut self) -> Vec<u8> {
        if !self.terminated && self.b.last() == Some(&b'\n') {
            self.b.pop();
        }
        self.b
    }
}
#[derive(Clone, Default, Debug)]
pub struct Want {
    p: Vec<[f64; 3]>,
    f: Vec<[usize; 3]>,
    n: Vec<[f64; 3]>,
}
fn three<S: Src>(s: &mut S) -> ([f64; 3], [String; 3]) {
    let (x, a) = number(s);
    let (y, b) = number(s);
    let (z, c) = number(s);
    ([x, y, z], [a, b, c])
}
fn three32<S: Src>(s: &mut S) -> [f32; 3] {
    let mut r = [0.0; 3];
    for k in 0..3 {
        r[k] = match s.below(4) {
            0 => {
                let x = s.fin() as f32;
                if x.is_finite() {
                    x
                } else {
                    1.5
                }
            }
            _ => s.grid() as f32 / 2.0,
        };
    }
    r
}
fn wide(p: [f32; 3]) -> [f64; 3] {
    [p[0] as f64, p[1] as f64, p[2] as f64]
}
fn sep<S: Src>(s: &mut S) -> &'static str {
    [" ", " ", "  ", "\t", " \t "][s.below(5)]
}
fn face<S: Src>(s: &mut S, n: usize) -> [usize; 3] {
    let a = s.below(n);
    let b = (a + 1 + s.below(n - 2)) % n;
    let mut c = s.below(n);
    while c == a || c == b {
        c = (c + 1) % n;
    }
    [a, b, c]
}
pub const FORMATS: usize = 11;
/// a well-formed file of the format and what it contains
fn file<S: Src>(s: &mut S, format: usize) -> (Vec<u8>, Want) {
    let mut w = Want::default();
    let n = s.below(6);
    let mut t = Txt::new(s);
    match format {
        // xyz
        0 => {
            let d = [" ", ";", ",", "\t"][s.below(4)];
            for _ in 0..n {
                let (p, x) = three(s);
                let tail = if s.below(4) == 0 { format!("{}7", d) } else { String::new() };
                ln!(t, s, &format!("{}{}{}{}{}{}", x[0], d, x[1], d, x[2], tail));
                w.p.push(p);
            }
            (t.done(), w)
        }
        // xy
        1 => {
            let d = [" ", ";", ",", "\t"][s.below(4)];
            for _ in 0..n {
                let (p, x) = three(s);
                ln!(t, s, &format!("{}{}{}", x[0], d, x[1]));
                w.p.push([p[0], p[1], 0.0]);
            }
            (t.done(), w)
        }
        // obj
        2 => {
            let n = s.below(8);
            for _ in 0..n {
                match s.below(if w.p.len() >= 3 { 4 } else { 3 }) {
                    0 => ln!(t, s, ["# note", "vt 0 1 2", "vn 1 0 0", "", "o name", "g v 1 2 3"][s.below(6)]),
                    3 => {
                        let f = face(s, w.p.len());
                        let q = ["", "/1", "//2", "/1/2"][s.below(4)];
                        let l = format!("f {}{}{}{}{}{}{}{}", f[0] + 1, q, sep(s), f[1] + 1, q, sep(s), f[2] + 1, q);
                        ln!(t, s, &l);
                        w.f.push(f);
                    }
                    _ => {
                        let (p, x) = three(s);
                        let l = format!("v {}{}{}{}{}", x[0], sep(s), x[1], sep(s), x[2]);
                        ln!(t, s, &l);
                        w.p.push(p);
                    }
                }
            }
            (t.done(), w)
        }
        // off
        3 => {
            let m = if n >= 3 { s.below(4) } else { 0 };
            let noise = |s: &mut S, t: &mut Txt| {
                if s.below(4) == 0 {
                    ln!(t, s, ["# c", ""][s.below(2)])
                }
            };
            noise(s, &mut t);
            if s.below(4) > 0 {
                ln!(t, s, "OFF");
            }
            noise(s, &mut t);
            let l = format!("{}{}{} 0", n, sep(s), m);
            ln!(t, s, &l);
            for _ in 0..n {
                noise(s, &mut t);
                let (p, x) = three(s);
                let l = format!("{}{}{}{}{}", x[0], sep(s), x[1], sep(s), x[2]);
                ln!(t, s, &l);
                w.p.push(p);
            }
            for _ in 0..m {
                noise(s, &mut t);
                let f = face(s, n);
                let l = format!("3{}{} {} {}", sep(s), f[0], f[1], f[2]);
                ln!(t, s, &l);
                w.f.push(f);
            }
            (t.done(), w)
        }
        // stl ascii
        4 => {
            ln!(t, s, "solid some name");
            for _ in 0..n {
                let (nn, x) = three(s);
                let ind = ["", "  ", "\t"][s.below(3)];
                ln!(t, s, &format!("{}facet normal {} {} {}", ind, x[0], x[1], x[2]));
                ln!(t, s, &format!("{}outer loop", ind));
                for _ in 0..3 {
                    let (p, x) = three(s);
                    let l = format!("{}vertex {}{}{}{}{}", ind, x[0], sep(s), x[1], sep(s), x[2]);
                    ln!(t, s, &l);
                    w.p.push(p);
                }
                ln!(t, s, &format!("{}endloop", ind));
                ln!(t, s, &format!("{}endfacet", ind));
                w.n.push(nn);
            }
            ln!(t, s, "endsolid some name");
            (t.done(), w)
        }
        // stl binary
        5 => {
            let mut b = vec![b'x'; 80];
            if s.below(3) == 0 {
                b[..5].copy_from_slice(b"solid");
            }
            b.extend_from_slice(&(n as u32).to_le_bytes());
            for _ in 0..n {
                let mut q = vec![];
                for _ in 0..4 {
                    let p = three32(s);
                    for k in 0..3 {
                        b.extend_from_slice(&p[k].to_le_bytes());
                    }
                    q.push(wide(p));
                }
                b.extend_from_slice(&[s.u8(), s.u8()]);
                w.n.push(q[0]);
                w.p.extend_from_slice(&q[1..]);
            }
            (b, w)
        }
        // pts
        6 => {
            for _ in 0..1 + s.below(3) {
                let n = s.below(4);
                ln!(t, s, &format!("{}", n));
                for _ in 0..n {
                    if s.below(6) == 0 {
                        ln!(t, s, "");
                    }
                    let (p, x) = three(s);
                    let l = format!("{}{}{}{}{} 10 255 0 0", x[0], sep(s), x[1], sep(s), x[2]);
                    ln!(t, s, &l);
                    w.p.push(p);
                }
            }
            (t.done(), w)
        }
        // ptx
        7 => {
            for _ in 0..1 + s.below(2) {
                let c = s.below(3);
                let r = s.below(3);
                ln!(t, s, &format!("{}", c));
                ln!(t, s, &format!("{}", r));
                for _ in 0..4 {
                    ln!(t, s, "0 0 0");
                }
                let mut m = Matrix4::identity();
                if s.bool() {
                    for i in 0..4 {
                        for j in 0..4 {
                            m.data[i][j] = s.grid();
                        }
                    }
                }
                for i in 0..4 {
                    let d = m.data[i];
                    ln!(t, s, &format!("{} {} {} {}", d[0], d[1], d[2], d[3]));
                }
                for _ in 0..c * r {
                    let (p, x) = three(s);
                    let l = format!("{}{}{} {} 0.5", x[0], sep(s), x[1], x[2]);
                    ln!(t, s, &l);
                    let mut p = Point3D::new(p[0], p[1], p[2]);
                    if m != Matrix4::identity() {
                        p.transform(&m);
                    }
                    w.p.push([p.x, p.y, p.z]);
                }
            }
            (t.done(), w)
        }
        // las
        8 => {
            let mut b = vec![0u8; 375];
            for x in b.iter_mut() {
                *x = s.u8();
            }
            b[24] = 1;
            b[25] = s.below(5) as u8;
            b[104] = s.below(11) as u8;
            let len = 12 + s.below(30);
            let off = 375 + s.below(20);
            b[96..100].copy_from_slice(&(off as u32).to_le_bytes());
            b[105..107].copy_from_slice(&(len as u16).to_le_bytes());
            if s.bool() && n > 0 {
                b[107..111].copy_from_slice(&(n as u32).to_le_bytes());
            } else {
                b[107..111].copy_from_slice(&[0; 4]);
                b[247..255].copy_from_slice(&(n as u64).to_le_bytes());
            }
            let mut sc = [[0.0; 3]; 2];
            for g in 0..2 {
                for k in 0..3 {
                    sc[g][k] = s.grid() / 8.0;
                    let at = 131 + 24 * g + 8 * k;
                    b[at..at + 8].copy_from_slice(&sc[g][k].to_le_bytes());
                }
            }
            while b.len() < off {
                b.push(9);
            }
            for _ in 0..n {
                let mut p = [0.0; 3];
                for k in 0..3 {
                    let v = s.u32() as i32;
                    b.extend_from_slice(&v.to_le_bytes());
                    p[k] = sc[1][k] + v as f64 * sc[0][k];
                }
                for _ in 12..len {
                    b.push(7);
                }
                w.p.push(p);
            }
            (b, w)
        }
        // psl
        9 => {
            let passes = s.below(4);
            let mut b = vec![1u8; 4 + 4 + 128];
            b.extend_from_slice(&(passes as i32).to_le_bytes());
            b.extend_from_slice(&[0; 4 + 368]);
            for _ in 0..passes {
                let lines = s.below(4);
                b.extend_from_slice(&(lines as i32).to_le_bytes());
                b.extend_from_slice(&[3; 60]);
                for _ in 0..lines {
                    let pts = s.below(4);
                    b.extend_from_slice(&(pts as i32).to_le_bytes());
                    b.extend_from_slice(&[4; 60]);
                    for _ in 0..pts {
                        let p = three32(s);
                        for k in 0..3 {
                            b.extend_from_slice(&p[k].to_le_bytes());
                        }
                        w.p.push(wide(p));
                    }
                }
            }
            (b, w)
        }
        // gcode
        _ => {
            let mut at = [0.0; 3];
            let mut rel = false;
            for _ in 0..s.below(9) {
                match s.below(7) {
                    0 => ln!(t, s, ["", "; X1 Y2", "M104 S200", "G28", "G", "T0", "GX1"][s.below(7)]),
                    1 => {
                        rel = s.bool();
                        ln!(t, s, if rel { ["G91", "G91 ; relative"][s.below(2)] } else { ["G90", "G90 ; absolute"][s.below(2)] });
                    }
                    k => {
                        let set = k == 2;
                        let mut l = if set { "G92".to_string() } else { ["G1", "G2", "G3"][s.below(3)].to_string() };
                        let mut any = false;
                        if s.below(4) == 0 {
                            l += " F1500";
                        }
                        for d in 0..3 {
                            if s.below(3) > 0 {
                                let (x, st) = number(s);
                                l += [" ", "  "][s.below(2)];
                                l += ["X", "Y", "Z"][d];
                                l += &st;
                                at[d] = if rel && !set { at[d] + x } else { x };
                                any = true;
                            }
                        }
                        if s.below(4) == 0 {
                            l += " ; X9";
                        }
                        ln!(t, s, &l);
                        if any {
                            w.p.push(at);
                        }
                    }
                }
            }
            (t.done(), w)
        }
    }
}
enum Res {
    Err,
    Ok(Want),
}
fn pts3(v: &[Point3D]) -> Vec<[f64; 3]> {
    v.iter().map(|p| [p.x, p.y, p.z]).collect()
}
fn mesh_want(m: &M) -> Want {
    let mut w = Want::default();
    for i in 0..m.num_vertices() {
        let v = m.vertex(VId(i)).unwrap();
        w.p.push([v.x, v.y, v.z]);
    }
    for i in 0..m.num_faces() {
        let f = m.face_vertex_ids(FId(i)).unwrap();
        w.f.push([f.a.0, f.b.0, f.c.0]);
    }
    w
}
fn res<E>(r: Result<(), E>, w: Want) -> Res {
    match r {
        Ok(()) => Res::Ok(w),
        Err(_) => Res::Err,
    }
}
fn points(r: Result<(), ()>, v: &[Point3D]) -> Res {
    res(r, Want { p: pts3(v), ..Want::default() })
}
const LOADERS: [usize; FORMATS] = [1, 1, 2, 2, 3, 3, 1, 1, 1, 1, 1];
/// loader k of the format
fn load(format: usize, k: usize, cap: usize, b: &[u8]) -> Res {
    let r = BufReader::with_capacity(cap, b);
    let mut v: Vec<Point3D> = vec![];
    let mut m: M = Mesh3D::default();
    let e = |_| ();
    match (format, k) {
        (0, _) => points(load_xyz(r, &mut v).map_err(|_| ()), &v),
        (1, _) => {
            let mut v: Vec<Point2D> = vec![];
            let x = load_xy(r, &mut v);
            res(x, Want { p: v.iter().map(|p| [p.x, p.y, 0.0]).collect(), ..Want::default() })
        }
        (2, 0) => points(load_obj_points(r, &mut v).map_err(|_| ()), &v),
        (2, _) => res(load_obj_mesh(r, &mut m), mesh_want(&m)),
        (3, 0) => points(load_off_points(r, &mut v).map_err(|_| ()), &v),
        (3, _) => res(load_off_mesh(r, &mut m), mesh_want(&m)),
        (4, _) | (5, _) => {
            let f = if format == 4 { StlFormat::Ascii } else { StlFormat::Binary };
            let mut n: Vec<Point3D> = vec![];
            match k {
                0 => {
                    let x = load_stl_triplets(r, f, &mut v, &mut n);
                    res(x, Want { p: pts3(&v), n: pts3(&n), ..Want::default() })
                }
                1 => {
                    let x = load_stl_mesh_duped(r, f, &mut m, &mut n);
                    let mut w = mesh_want(&m);
                    w.n = pts3(&n);
                    res(x, w)
                }
                _ => {
                    let x = load_stl_mesh_unique(r, f, &mut m, &mut n);
                    let mut w = mesh_want(&m);
                    w.n = pts3(&n);
                    res(x, w)
                }
            }
        }
        (6, _) => points(load_pts(r, &mut v).map_err(|_| ()), &v),
        (7, _) => points(load_ptx(r, &mut v).map_err(|_| ()), &v),
        (8, _) => points(load_las(BufReader::with_capacity(cap, Cursor::new(b)), &mut v).map_err(e), &v),
        (9, _) => points(load_psl(r, &mut v).map_err(|_| ()), &v),
        _ => points(load_gcode_points(r, &mut v).map_err(|_| ()), &v),
    }
}
fn eq(a: &[[f64; 3]], b: &[[f64; 3]]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (0..3).all(|k| same(x[k], y[k])))
}
fn eqv(a: [f64; 3], b: [f64; 3]) -> bool {
    (0..3).all(|k| a[k] == b[k])
}
/// a well-formed file yields exactly its content in order
pub fn well_formed<S: Src>(s: &mut S) {
    let f = s.below(FORMATS);
    let (b, w) = file(s, f);
    let k = s.below(LOADERS[f]);
    let cap = 1 + s.below(40);
    let got = match load(f, k, cap, &b) {
        Res::Err => {
            s.ck(false, "a well-formed file is loaded");
            return;
        }
        Res::Ok(g) => g,
    };
    if f == 4 || f == 5 {
        if k < 2 {
            s.ck(eq(&got.p, &w.p), "points of the stl file in order");
            s.ck(eq(&got.n, &w.n), "normals of the stl file in order");
            if k == 1 {
                let want: Vec<[usize; 3]> = (0..w.n.len()).map(|i| [3 * i, 3 * i + 1, 3 * i + 2]).collect();
                s.ck(got.f == want, "faces of the stl file in order");
            }
        } else {
            let mut i = 0;
            for t in 0..w.n.len() {
                let c = [w.p[3 * t], w.p[3 * t + 1], w.p[3 * t + 2]];
                if eqv(c[0], c[1]) || eqv(c[0], c[2]) || eqv(c[1], c[2]) {
                    continue;
                }
                s.ck(i < got.f.len() && (0..3).all(|k| eqv(got.p[got.f[i][k]], c[k])), "triangles of the stl file in order");
                s.ck(eqv(got.n[i], w.n[t]), "normals of the stl file in order");
                i += 1;
            }
            s.ck(i == got.f.len() && got.n.len() == i, "no further triangles");
            for a in 0..got.p.len() {
                s.ck((0..a).all(|b| !eqv(got.p[a], got.p[b])), "every position is stored once");
                s.ck(w.p.iter().any(|p| eqv(*p, got.p[a])), "no invented vertices");
            }
        }
    } else {
        s.ck(eq(&got.p, &w.p), "points of the file in order");
        if k == 1 {
            s.ck(got.f == w.f, "faces of the file in order");
        }
    }
}
const NASTY: [&str; 14] = ["0", "-1", "18446744073709551615", "9223372036854775808", "4294967296", "99999999999999999999999", "nan", "inf", "1e999", "", " ", "\n", "G92", "endsolid"];
fn damage<S: Src>(s: &mut S, b: &mut Vec<u8>) {
    for _ in 0..1 + s.below(3) {
        let n = b.len();
        let i = s.below(n + 1);
        match s.below(8) {
            0 => b.truncate(i),
            1 | 2 => {
                if i < n {
                    b[i] = s.u8()
                }
            }
            3 => {
                if i < n {
                    b.remove(i);
                }
            }
            4 => b.insert(i, [b' ', b'\n', 0, 255, b'f', b'3', b'#'][s.below(7)]),
            5 => {
                // replace a word
                let a = b[..i].iter().rposition(|x| x.is_ascii_whitespace()).map_or(0, |k| k + 1);
                let e = i + b[i..].iter().position(|x| x.is_ascii_whitespace()).unwrap_or(n - i);
                let w = NASTY[s.below(NASTY.len())];
                b.splice(a..e, w.bytes());
            }
            6 => {
                // duplicate a part
                let j = i + s.below(n + 1 - i);
                let part = b[i..j].to_vec();
                b.splice(i..i, part);
            }
            _ => {
                let w = NASTY[s.below(NASTY.len())];
                b.splice(i..i, w.bytes());
            }
        }
    }
}
fn check_any<S: Src>(s: &mut S, got: Res) {
    if let Res::Ok(w) = got {
        s.ck(w.f.iter().all(|f| f.iter().all(|v| *v < w.p.len())), "faces refer to existing vertices");
    }
}
/// no input makes a loader panic
pub fn damaged<S: Src>(s: &mut S) {
    let f = s.below(FORMATS);
    let (mut b, _) = file(s, f);
    damage(s, &mut b);
    let k = s.below(LOADERS[f]);
    let cap = 1 + s.below(40);
    let got = load(f, k, cap, &b);
    check_any(s, got);
}
pub fn any_bytes<S: Src>(s: &mut S) {
    let b: Vec<u8> = (0..s.below(60)).map(|_| match s.below(4) { 0 => s.u8(), 1 => b'\n', 2 => b' ', _ => b'0' + s.below(10) as u8 }).collect();
    let f = s.below(FORMATS);
    let k = s.below(LOADERS[f]);
    let got = load(f, k, 7, &b);
    check_any(s, got);
}
/// every binary count at its extremes
pub fn counts<S: Src>(s: &mut S) {
    let f = [5, 8, 9][s.below(3)];
    let (mut b, _) = file(s, f);
    let at = match f {
        5 => vec![80],
        8 => vec![96, 105, 107, 247],
        _ => vec![136, 512, 576],
    };
    for a in at {
        if s.below(3) > 0 {
            let v = s.u32().to_le_bytes();
            let n = if f == 8 && a == 105 { 2 } else { 4 };
            if a + n <= b.len() {
                b[a..a + n].copy_from_slice(&v[..n]);
            }
            if a == 247 {
                let v = s.u64().to_le_bytes();
                b[247..255].copy_from_slice(&v);
            }
        }
    }
    let k = s.below(LOADERS[f]);
    let got = load(f, k, 16, &b);
    check_any(s, got);
}
struct PlyFile {
    b: Vec<u8>,
    head: usize,
    w: Want,
    mesh: bool,
}
fn ply<S: Src>(s: &mut S) -> PlyFile {
    let form = s.below(3);
    let mesh = s.below(4) > 0;
    let n = s.below(5);
    let m = if n >= 3 { s.below(4) } else { 0 };
    let mut t = Txt::new(s);
    t.crlf = false;
    let other = ["char", "uchar", "short", "ushort", "int", "uint", "float", "double", "int8", "uint8", "int16", "uint16", "int32", "uint32", "float32", "float64"];
    let size = [1, 1, 2, 2, 4, 4, 4, 8, 1, 1, 2, 2, 4, 4, 4, 8];
    ln!(t, s, "ply");
    ln!(t, s, ["format ascii 1.0", "format binary_little_endian 1.0", "format binary_big_endian 1.0"][form]);
    if s.bool() {
        ln!(t, s, "comment some words");
    }
    if s.below(4) == 0 {
        ln!(t, s, "obj_info some words");
    }
    ln!(t, s, &format!("element vertex {}", n));
    let mut order = vec![0usize, 1, 2];
    for i in 0..2 {
        let j = i + s.below(3 - i);
        order.swap(i, j);
    }
    // columns: Some((dimension, wide)) or an ignored one of some type
    let mut cols: Vec<Result<(usize, bool), usize>> = vec![];
    for d in order {
        for _ in 0..s.below(2) {
            cols.push(Err(s.below(16)));
        }
        cols.push(Ok((d, s.bool())));
    }
    for _ in 0..s.below(3) {
        cols.push(Err(s.below(16)));
    }
    for (i, c) in cols.iter().enumerate() {
        match c {
            Ok((d, w)) => ln!(t, s, &format!("property {} {}", if *w { "double" } else { "float" }, ["x", "y", "z"][*d])),
            Err(k) => ln!(t, s, &format!("property {} other{}", other[*k], i)),
        }
    }
    let (mut fb, mut fa, mut tc, mut ti): (Vec<usize>, Vec<usize>, usize, usize) = (vec![], vec![], 0, 0);
    if mesh {
        ln!(t, s, &format!("element face {}", m));
        for _ in 0..s.below(3) {
            fb.push(s.below(16));
        }
        for _ in 0..s.below(3) {
            fa.push(s.below(16));
        }
        for &k in &fb {
            ln!(t, s, &format!("property {} before", other[k]));
        }
        tc = s.below(6);
        ti = s.below(6);
        ln!(t, s, &format!("property list {} {} {}", other[tc], other[ti], ["vertex_indices", "vertex_index"][s.below(2)]));
        for &k in &fa {
            ln!(t, s, &format!("property {} after", other[k]));
        }
    }
    ln!(t, s, "end_header");
    let head = t.b.len();
    let mut w = Want::default();
    let num = |b: &mut Vec<u8>, v: &[u8]| {
        // v is little endian
        if form == 1 {
            b.extend_from_slice(v)
        } else {
            b.extend(v.iter().rev())
        }
    };
    for _ in 0..n {
        let mut p = [0.0; 3];
        let mut l = String::new();
        for c in cols.iter() {
            match c {
                Ok((d, wd)) => {
                    if form == 0 {
                        let (x, st) = number(s);
                        p[*d] = x;
                        l += &st;
                        l += sep(s);
                    } else if *wd {
                        let x = s.fin();
                        p[*d] = x;
                        num(&mut t.b, &x.to_le_bytes());
                    } else {
                        let x = three32(s)[0];
                        p[*d] = x as f64;
                        num(&mut t.b, &x.to_le_bytes());
                    }
                }
                Err(k) => {
                    if form == 0 {
                        l += "8 ";
                    } else {
                        for _ in 0..size[*k] {
                            t.b.push(s.u8());
                        }
                    }
                }
            }
        }
        if form == 0 {
            ln!(t, s, &l);
        }
        w.p.push(p);
    }
    for _ in 0..if mesh { m } else { 0 } {
        let f = face(s, n);
        let mut l = String::new();
        for k in &fb {
            if form == 0 {
                l += "5 ";
            } else {
                for _ in 0..size[*k] {
                    t.b.push(s.u8());
                }
            }
        }
        if form == 0 {
            l += &format!("3 {} {}{}{}", f[0], f[1], sep(s), f[2]);
        } else {
            num(&mut t.b, &3u32.to_le_bytes()[..size[tc]]);
            for v in f {
                num(&mut t.b, &(v as u32).to_le_bytes()[..size[ti]]);
            }
        }
        for k in &fa {
            if form == 0 {
                l += " 6";
            } else {
                for _ in 0..size[*k] {
                    t.b.push(s.u8());
                }
            }
        }
        if form == 0 {
            ln!(t, s, &l);
        }
        w.f.push(f);
    }
    let b = if form == 0 { t.done() } else { t.b };
    PlyFile { b, head, w, mesh }
}
fn load_ply(k: usize, cap: usize, b: &[u8]) -> (Res, bool) {
    let r = BufReader::with_capacity(cap, b);
    let mut v: Vec<Point3D> = vec![];
    let mut m: M = Mesh3D::default();
    match k {
        0 => (points(load_ply_points(r, &mut v).map_err(|_| ()), &v), false),
        1 => (res(load_ply_mesh(r, &mut m), mesh_want(&m)), true),
        _ => match load_ply_either(r, &mut m, &mut v) {
            Err(_) => (Res::Err, false),
            Ok(MeshOrPoints::Mesh) => (Res::Ok(mesh_want(&m)), true),
            Ok(MeshOrPoints::Points) => (Res::Ok(Want { p: pts3(&v), ..Want::default() }), false),
        },
    }
}
pub fn ply_well_formed<S: Src>(s: &mut S) {
    let f = ply(s);
    let k = s.below(3);
    let cap = 1 + s.below(40);
    match load_ply(k, cap, &f.b) {
        (Res::Err, _) => s.ck(k == 1 && !f.mesh, "a well-formed ply file is loaded"),
        (Res::Ok(w), m) => {
            s.ck(k != 2 || m == f.mesh, "ply mesh or points");
            s.ck(eq(&w.p, &f.w.p), "points of the ply file in order");
            if m {
                s.ck(f.mesh && w.f == f.w.f, "faces of the ply file in order");
            }
        }
    }
}
pub fn ply_damaged<S: Src>(s: &mut S) {
    let mut f = ply(s);
    match s.below(3) {
        0 => damage(s, &mut f.b),
        1 => {
            // only the header
            let body = f.b.split_off(f.head.min(f.b.len()));
            damage(s, &mut f.b);
            f.b.extend_from_slice(&body);
        }
        _ => {
            // repeat a header line somewhere
            let t = String::from_utf8_lossy(&f.b[..f.head.min(f.b.len())]).to_string();
            let mut ls: Vec<&str> = t.split_inclusive('\n').collect();
            let l = ls[s.below(ls.len())];
            let at = s.below(ls.len() + 1);
            ls.insert(at, l);
            let mut b: Vec<u8> = ls.concat().into_bytes();
            b.extend_from_slice(&f.b[f.head.min(f.b.len())..]);
            f.b = b;
        }
    }
    let k = s.below(3);
    let cap = 1 + s.below(40);
    let (got, _) = load_ply(k, cap, &f.b);
    check_any(s, got);
}
/// cutting the data of a binary or ascii vertex list is noticed
pub fn ply_truncated<S: Src>(s: &mut S) {
    let mut f = ply(s);
    s.assume(!f.mesh && f.w.p.len() > 0);
    let cut = s.below(f.b.len() - f.head);
    f.b.truncate(f.head + cut);
    let (got, _) = load_ply(0, 8, &f.b);
    if let Res::Ok(w) = got {
        s.ck(w.p.len() == f.w.p.len(), "a ply file with missing vertices is rejected");
    }
}
crate::natives! { well_formed: 20000, damaged: 20000, any_bytes: 10000, counts: 4000, ply_well_formed: 6000, ply_damaged: 10000, ply_truncated: 2000 }

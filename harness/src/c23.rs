use crate::src::same;
use crate::Src;
use rust_3d::io::*;
use rust_3d::*;
use std::io::{Error, ErrorKind as Kind, Result as IoRes, Write};

type M = Mesh3D<Point3D, PointCloud3D<Point3D>, Vec<usize>>;
/// a writer that takes at most `step` bytes at a time and fails after `room` bytes
struct W {
    b: Vec<u8>,
    step: usize,
    room: usize,
}
impl Write for W {
    fn write(&mut self, x: &[u8]) -> IoRes<usize> {
        let n = x.len().min(self.step).min(self.room - self.b.len());
        if n == 0 && !x.is_empty() {
            return Err(Error::new(Kind::Other, "full"));
        }
        self.b.extend_from_slice(&x[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> IoRes<()> {
        Ok(())
    }
}
fn val<S: Src>(s: &mut S) -> f64 {
    match s.below(4) {
        0 => s.grid(),
        1 => s.num(),
        2 => (s.below(2000001) as f64 - 1e6) / 1000.0,
        _ => {
            let x = s.num();
            if x.abs() < 1e60 { x } else { 0.1 }
        }
    }
}
fn small<S: Src>(s: &mut S) -> f64 {
    match s.below(2) {
        0 => s.grid(),
        _ => (s.below(2000001) as f64 - 1e6) / 1000.0,
    }
}
fn fresh<S: Src>(s: &mut S) -> W {
    W { b: vec![], step: 1 + s.below(40), room: usize::MAX }
}
/// saving again into a writer that is full before the end has to fail
fn full<S: Src>(s: &mut S, all: &[u8], f: &dyn Fn(&mut W) -> bool) {
    if !all.is_empty() {
        let room = s.below(all.len());
        let mut w = W { b: vec![], step: 1 + s.below(40), room };
        s.ck(!f(&mut w), "a failing writer is reported");
        s.ck(w.b == all[..room], "what was written before the failure is the start of the file");
    }
}
const SEPS: [&str; 4] = [" ", ";", ",", "\t"];
const OTHER: [&str; 4] = ["", " ; ", "é", ":"];
fn sep<S: Src>(s: &mut S) -> (&'static str, bool) {
    if s.below(4) == 0 { (OTHER[s.below(4)], false) } else { (SEPS[s.below(4)], true) }
}
pub fn xyz<S: Src>(s: &mut S) {
    let n = if s.below(800) == 0 { 6000 + s.below(3000) } else { s.below(7) };
    let v: Vec<[f64; 3]> = (0..n).map(|_| [val(s), val(s), val(s)]).collect();
    let (c, known) = sep(s);
    let nl = s.below(5) > 0;
    let d = if nl { "\n" } else { OTHER[s.below(4)] };
    let mut pc = PointCloud3D::new();
    v.iter().for_each(|p| pc.push(Point3D::new(p[0], p[1], p[2])));
    let mut w = fresh(s);
    let ok = save_xyz(&mut w, &pc, c, d).is_ok();
    s.ck(ok, "xyz file is saved");
    let want: String = v.iter().map(|p| format!("{}{c}{}{c}{}{d}", p[0], p[1], p[2])).collect();
    s.ck(w.b == want.as_bytes(), "xyz file holds the coordinates and delimiters");
    if known && nl {
        let mut back: Vec<Point3D> = vec![];
        s.ck(load_xyz(&w.b[..], &mut back).is_ok(), "saved xyz file is loaded");
        s.ck(back.len() == n && back.iter().zip(&v).all(|(a, b)| same(a.x, b[0]) && same(a.y, b[1]) && same(a.z, b[2])), "saved xyz file is read back");
    }
    full(s, &w.b, &|w| save_xyz(w, &pc, c, d).is_ok());
}
pub fn xy<S: Src>(s: &mut S) {
    let n = if s.below(800) == 0 { 6000 + s.below(3000) } else { s.below(7) };
    let v: Vec<[f64; 2]> = (0..n).map(|_| [val(s), val(s)]).collect();
    let (c, known) = sep(s);
    let nl = s.below(5) > 0;
    let d = if nl { "\n" } else { OTHER[s.below(4)] };
    let mut pc = PointCloud2D::new();
    v.iter().for_each(|p| pc.push(Point2D::new(p[0], p[1])));
    let mut w = fresh(s);
    let ok = save_xy(&mut w, &pc, c, d).is_ok();
    s.ck(ok, "xy file is saved");
    let want: String = v.iter().map(|p| format!("{}{c}{}{d}", p[0], p[1])).collect();
    s.ck(w.b == want.as_bytes(), "xy file holds the coordinates and delimiters");
    if known && nl {
        let mut back: Vec<Point2D> = vec![];
        s.ck(load_xy(&w.b[..], &mut back).is_ok(), "saved xy file is loaded");
        s.ck(back.len() == n && back.iter().zip(&v).all(|(a, b)| same(a.x, b[0]) && same(a.y, b[1])), "saved xy file is read back");
    }
    full(s, &w.b, &|w| save_xy(w, &pc, c, d).is_ok());
}
fn mesh<S: Src>(s: &mut S, few: bool) -> (M, Vec<[f64; 3]>, Vec<[usize; 3]>) {
    let n = match s.below(1500) { 0 => 66000 + s.below(3000), 1..=40 => 300, _ => s.below(12) };
    let v: Vec<[f64; 3]> = (0..n).map(|_| if few { [small(s), small(s), small(s)] } else { [val(s), val(s), val(s)] }).collect();
    let mut m = M::default();
    v.iter().for_each(|p| {
        m.add_vertex(Point3D::new(p[0], p[1], p[2]));
    });
    let mut f = vec![];
    if n > 2 {
        let k = if s.below(300) == 0 { 3000 } else { s.below(12) };
        for _ in 0..k {
            let t = [s.below(n), s.below(n), s.below(n)];
            if m.try_add_connection(VId(t[0]), VId(t[1]), VId(t[2])).is_ok() {
                f.push(t);
            }
        }
        if s.below(8) == 0 {
            // faces naming a vertex more than once
            let mut pc = PointCloud3D::new();
            v.iter().for_each(|p| pc.push(Point3D::new(p[0], p[1], p[2])));
            f.insert(s.below(f.len() + 1), [[0, 1, 1], [1, 1, 0], [2, 1, 2], [2, 2, 2]][s.below(4)]);
            m = (pc, f.iter().flatten().copied().collect::<Vec<usize>>()).into();
        }
    }
    (m, v, f)
}
/// some colors fewer or more than there are vertices
fn colors<S: Src>(s: &mut S, n: usize) -> Vec<Rgb> {
    let k = if s.below(4) > 0 { n } else { s.below(n + 3) };
    (0..k).map(|_| Rgb::new(s.u8(), s.u8(), s.u8())).collect()
}
fn head(form: &str, real: &str, list: &str, n: usize, colored: bool, f: usize) -> String {
    let rgb = if colored { "property uchar red\nproperty uchar green\nproperty uchar blue\n" } else { "" };
    format!("ply\nformat {form} 1.0\ncomment Created by rust-3d\nelement vertex {n}\nproperty {real} x\nproperty {real} y\nproperty {real} z\n{rgb}element face {f}\nproperty list {list} vertex_indices\nend_header\n")
}
pub fn ply<S: Src>(s: &mut S) {
    let (m, v, f) = mesh(s, false);
    let kind = s.below(6);
    let colored = kind % 2 == 1;
    let rgb = colors(s, v.len());
    let prec = if kind / 2 == 1 { Precision::P32 } else { Precision::P64 };
    let save = |w: &mut W| match kind {
        0 => save_ply_ascii(w, &m).is_ok(),
        1 => save_ply_ascii_colored(w, &m, &rgb).is_ok(),
        2 | 4 => save_ply_binary(w, &m, &prec).is_ok(),
        _ => save_ply_binary_colored(w, &m, &prec, &rgb).is_ok(),
    };
    let mut w = fresh(s);
    let ok = save(&mut w);
    if colored && rgb.len() != v.len() {
        s.ck(!ok, "the wrong number of colors is rejected");
        s.ck(w.b.is_empty(), "nothing is written if the number of colors is wrong");
        return;
    }
    s.ck(ok, "ply file is saved");
    let mut want: Vec<u8> = match kind {
        0 | 1 => head("ascii", "float", "uchar uint", v.len(), colored, f.len()),
        2 | 3 => head("binary_big_endian", "float", "uint8 uint32", v.len(), colored, f.len()),
        _ => head("binary_big_endian", "double", "uint8 uint32", v.len(), colored, f.len()),
    }
    .into_bytes();
    for (i, p) in v.iter().enumerate() {
        match kind {
            0 => want.extend(format!("{} {} {}\n", p[0], p[1], p[2]).bytes()),
            1 => want.extend(format!("{} {} {} {} {} {}\n", p[0], p[1], p[2], rgb[i].r, rgb[i].g, rgb[i].b).bytes()),
            2 | 3 => p.iter().for_each(|x| want.extend((*x as f32).to_bits().to_be_bytes())),
            _ => p.iter().for_each(|x| want.extend(x.to_bits().to_be_bytes())),
        }
        if kind == 3 || kind == 5 {
            want.extend([rgb[i].r, rgb[i].g, rgb[i].b]);
        }
    }
    for t in &f {
        if kind < 2 {
            want.extend(format!("3 {} {} {}\n", t[0], t[1], t[2]).bytes());
        } else {
            want.push(3);
            t.iter().for_each(|x| want.extend((*x as u32).to_be_bytes()));
        }
    }
    s.ck(w.b == want, "ply file holds the vertices and faces");
    let back = |x: f64| if kind == 2 || kind == 3 { x as f32 as f64 } else { x };
    let eq = |n: usize, at: &dyn Fn(usize) -> Point3D| n == v.len() && (0..n).all(|i| { let p = at(i); same(p.x, back(v[i][0])) && same(p.y, back(v[i][1])) && same(p.z, back(v[i][2])) });
    if f.is_empty() {
        let mut l: Vec<Point3D> = vec![];
        s.ck(load_ply_points(&w.b[..], &mut l).is_ok(), "saved ply file is loaded as points");
        s.ck(eq(l.len(), &|i| l[i].clone()), "saved ply file is read back as points");
    }
    full(s, &w.b, &|w| save(w));
    if f.iter().any(|t| t[0] == t[1] || t[1] == t[2] || t[2] == t[0]) {
        return; // not a mesh the loader accepts
    }
    let mut g = M::default();
    s.ck(load_ply_mesh(&w.b[..], &mut g).is_ok(), "saved ply file is loaded");
    s.ck(eq(g.num_vertices(), &|i| g.vertex(VId(i)).unwrap()), "saved ply file is read back: vertices");
    s.ck(g.num_faces() == f.len() && f.iter().enumerate().all(|(i, t)| g.face_vertex_ids(FId(i)) == Some(Face3::new(VId(t[0]), VId(t[1]), VId(t[2])))), "saved ply file is read back: faces");
}
pub fn stl<S: Src>(s: &mut S) {
    let (m, v, f) = mesh(s, true);
    let mut w = fresh(s);
    let ok = save_stl_ascii(&mut w, &m).is_ok();
    s.ck(ok, "stl file is saved");
    let (mut l, mut ns): (Vec<Point3D>, Vec<Point3D>) = (vec![], vec![]);
    let format = if s.bool() { StlFormat::Ascii } else { StlFormat::Auto };
    s.ck(load_stl_triplets(&w.b[..], format, &mut l, &mut ns).is_ok(), "saved stl file is loaded");
    s.ck(l.len() == 3 * f.len() && ns.len() == f.len(), "saved stl file has all faces");
    for (i, t) in f.iter().enumerate() {
        for k in 0..3 {
            let (a, b) = (&l[3 * i + k], &v[t[k]]);
            s.ck(same(a.x, b[0]) && same(a.y, b[1]) && same(a.z, b[2]), "saved stl file is read back");
        }
        // the direction of the normal
        let (p, q, r, n) = (&l[3 * i], &l[3 * i + 1], &l[3 * i + 2], &ns[i]);
        let (u, w) = ([q.x - p.x, q.y - p.y, q.z - p.z], [r.x - q.x, r.y - q.y, r.z - q.z]);
        let c = [u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]];
        let len = (c[0] * c[0] + c[1] * c[1] + c[2] * c[2]).sqrt();
        if len > 1e-3 {
            s.ck((n.x - c[0] / len).abs() < 1e-6 && (n.y - c[1] / len).abs() < 1e-6 && (n.z - c[2] / len).abs() < 1e-6, "normal of the face in the stl file");
        }
    }
    if !f.is_empty() {
        let mut want = b"solid ".to_vec();
        want.truncate(w.b.len());
        s.ck(w.b.starts_with(&want), "stl file starts with solid");
    }
    full(s, &w.b, &|w| save_stl_ascii(w, &m).is_ok());
}
/// the textual form of positions
pub fn text<S: Src>(s: &mut S) {
    let p = [val(s), val(s), val(s)];
    s.ck(Point3D::new(p[0], p[1], p[2]).to_str() == format!("{} {} {}", p[0], p[1], p[2]), "text of a position");
    s.ck(Point2D::new(p[0], p[1]).to_str() == format!("{} {}", p[0], p[1]), "text of a 2D position");
}
crate::natives! { xyz: 8000, xy: 8000, ply: 8000, stl: 6000, text: 4000 }

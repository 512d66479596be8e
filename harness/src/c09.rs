use crate::Src;
use rust_3d::*;

#[derive(Clone)]
struct E2(usize, BoundingBox2D);
impl HasBoundingBox2DMaybe for E2 {
    fn bounding_box_maybe(&self) -> Option<BoundingBox2D> {
        Some(self.1.clone())
    }
}
impl HasBoundingBox2D for E2 {
    fn bounding_box(&self) -> BoundingBox2D {
        self.1.clone()
    }
}
#[derive(Clone)]
struct E3(usize, BoundingBox3D);
impl HasBoundingBox3DMaybe for E3 {
    fn bounding_box_maybe(&self) -> Option<BoundingBox3D> {
        Some(self.1.clone())
    }
}
impl HasBoundingBox3D for E3 {
    fn bounding_box(&self) -> BoundingBox3D {
        self.1.clone()
    }
}
impl HasColliders3D for E3 {
    fn has_additional_colliders(&self) -> bool {
        false
    }
    fn with_colliders(&self, _: &mut dyn FnMut(&Collider3D)) {}
}
type L = [[f64; 2]; 3];
fn limits<S: Src>(s: &mut S, wild: bool) -> L {
    let mut r = [[0.0; 2]; 3];
    for i in 0..3 {
        let (a, b) = match if wild { s.below(6) } else { 5 } {
            0 => (s.num(), s.num()),
            1 => (f64::NEG_INFINITY, f64::INFINITY),
            2 => {
                let x = s.grid();
                (x, f64::from_bits((x + 5.0).to_bits() + 1) - 5.0)
            }
            3 => (s.grid(), f64::INFINITY),
            _ => (s.grid(), s.grid()),
        };
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        r[i] = if a < b { [a, b] } else { [0.0, 1.0] };
    }
    r
}
fn b2(l: &L) -> BoundingBox2D {
    BoundingBox2D::new(&Point2D { x: l[0][0], y: l[1][0] }, &Point2D { x: l[0][1], y: l[1][1] }).unwrap()
}
fn b3(l: &L) -> BoundingBox3D {
    BoundingBox3D::new(&Point3D { x: l[0][0], y: l[1][0], z: l[2][0] }, &Point3D { x: l[0][1], y: l[1][1], z: l[2][1] }).unwrap()
}
fn over(a: &L, b: &L, n: usize) -> bool {
    (0..n).all(|i| a[i][0] < b[i][1] && b[i][0] < a[i][1])
}
struct Setup {
    ls: Vec<L>,
    depth: usize,
    bucket: usize,
    q: L,
    v: f64,
}
fn setup<S: Src>(s: &mut S) -> Setup {
    let wild = s.below(3) == 0;
    let n = s.below(9);
    let mut ls: Vec<L> = Vec::new();
    for _ in 0..n {
        let l = if !ls.is_empty() && s.below(5) == 0 { ls[s.below(ls.len())] } else { limits(s, wild) };
        ls.push(l)
    }
    let q = if !ls.is_empty() && s.below(4) == 0 { ls[s.below(ls.len())] } else { limits(s, wild) };
    let v = if wild && s.bool() { s.num() } else if s.bool() { s.grid() } else { s.grid() + 0.5 };
    let (depth, bucket) = (s.below(7), s.below(4));
    Setup { ls, depth, bucket, q, v }
}
fn set(mut v: Vec<usize>) -> Vec<usize> {
    v.sort();
    v.dedup();
    v
}
fn want<F: Fn(&L) -> bool>(x: &Setup, f: F) -> Vec<usize> {
    (0..x.ls.len()).filter(|i| f(&x.ls[*i])).collect()
}
pub fn in_2d<S: Src>(s: &mut S) {
    let x = setup(s);
    let t = AABBTree2D::new(x.ls.iter().enumerate().map(|(i, l)| E2(i, b2(l))).collect(), x.depth, x.bucket);
    let q = b2(&x.q);
    let keep = E2(99, q.clone());
    let w = want(&x, |l| over(l, &x.q, 2));
    let mut r: Vec<&E2> = vec![&keep];
    t.bb_colliding(&q, &mut r);
    s.ck(r[0].0 == 99 && set(r[1..].iter().map(|e| e.0).collect()) == w, "2D: a query with a box finds exactly the elements whose boxes overlap it");
    let mut c = Vec::new();
    t.for_each_collision_candidate(&q, &mut |e| c.push(e.0));
    s.ck(set(c) == w, "2D: the candidates are exactly the elements whose boxes overlap");
    for d in 0..2 {
        let mut r: Vec<&E2> = vec![&keep];
        if d == 0 { t.bb_crossing_x_value(x.v, &mut r) } else { t.bb_crossing_y_value(x.v, &mut r) }
        s.ck(r[0].0 == 99 && set(r[1..].iter().map(|e| e.0).collect()) == want(&x, |l| l[d][0] < x.v && x.v < l[d][1]), "2D: a query with a value finds exactly the elements whose boxes cross it");
    }
    for i in 0..x.ls.len() + 1 {
        s.ck(t.any(&|e| e.0 == i) == (i < x.ls.len()), "2D: any looks at every element");
    }
}
pub fn in_3d<S: Src>(s: &mut S) {
    let x = setup(s);
    let t = AABBTree3D::new(x.ls.iter().enumerate().map(|(i, l)| E3(i, b3(l))).collect(), x.depth, x.bucket);
    let q = b3(&x.q);
    let keep = E3(99, q.clone());
    let w = want(&x, |l| over(l, &x.q, 3));
    let mut r: Vec<&E3> = vec![&keep];
    t.bb_colliding(&q, &mut r);
    s.ck(r[0].0 == 99 && set(r[1..].iter().map(|e| e.0).collect()) == w, "3D: a query with a box finds exactly the elements whose boxes overlap it");
    let mut c = Vec::new();
    t.for_each_collision_candidate(&q, &mut |e| c.push(e.0));
    s.ck(set(c) == w, "3D: the candidates are exactly the elements whose boxes overlap");
    s.ck(t.any_element_collides_with_collider(&keep) == !w.is_empty(), "3D: collision with a collider");
    s.ck(t.any_element_collides_with_bounding(&keep) == !w.is_empty(), "3D: collision with a bounding box");
    for d in 0..3 {
        let mut r: Vec<&E3> = vec![&keep];
        if d == 0 { t.bb_crossing_x_value(x.v, &mut r) } else if d == 1 { t.bb_crossing_y_value(x.v, &mut r) } else { t.bb_crossing_z_value(x.v, &mut r) }
        s.ck(r[0].0 == 99 && set(r[1..].iter().map(|e| e.0).collect()) == want(&x, |l| l[d][0] < x.v && x.v < l[d][1]), "3D: a query with a value finds exactly the elements whose boxes cross it");
    }
    for i in 0..x.ls.len() + 1 {
        s.ck(t.any(&|e| e.0 == i) == (i < x.ls.len()), "3D: any looks at every element");
    }
    // lines straight through the middle of finite boxes
    if !x.ls.is_empty() {
        let i = s.below(x.ls.len());
        let l = x.ls[i];
        if l.iter().all(|k| k[0].abs() < 100.0 && k[1].abs() < 100.0 && k[1] - k[0] > 0.5) {
            let m: Vec<f64> = l.iter().map(|k| (k[0] + k[1]) / 2.0).collect();
            let line = Line3D::new(Point3D { x: m[0] - 3.0, y: m[1] - 3.0, z: m[2] - 3.0 }, Norm3D::new(Point3D { x: 1.0, y: 1.0, z: 1.0 }).unwrap());
            let mut c = Vec::new();
            t.for_each_intersection_candidate(&line, &mut |e| c.push(e.0));
            s.ck(c.contains(&i), "3D: a line through an element's box has it as candidate");
        }
    }
}
crate::natives! { in_2d: 60000, in_3d: 60000 }

use crate::Src;
use rust_3d::*;
use std::collections::{LinkedList, VecDeque};

type V = [f64; 3];
fn add(a: V, b: V) -> V { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
fn sub(a: V, b: V) -> V { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
fn mul(a: V, t: f64) -> V { [a[0] * t, a[1] * t, a[2] * t] }
fn dot(a: V, b: V) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn crs(a: V, b: V) -> V { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn len(a: V) -> f64 { dot(a, a).sqrt() }
fn v<P: Is3D>(p: &P) -> V { [p.x(), p.y(), p.z()] }
fn pt(a: V) -> Point3D { Point3D::new(a[0], a[1], a[2]) }
fn near(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs())) }
fn close(a: V, b: V) -> bool { (0..3).all(|i| near(a[i], b[i])) }

fn gp<S: Src>(s: &mut S) -> V { [s.grid(), s.grid(), s.grid()] }
fn frac<S: Src>(s: &mut S) -> f64 { (s.u32() as f64) / (u32::max_value() as f64) }
fn co<S: Src>(s: &mut S) -> f64 {
    match s.below(3) {
        0 => s.grid(),
        1 => s.grid() / 4.0,
        _ => frac(s) * 10.0 - 5.0,
    }
}
fn any_p<S: Src>(s: &mut S) -> V { [co(s), co(s), co(s)] }
fn any_bb<S: Src>(s: &mut S, whole: bool) -> BoundingBox3D {
    let a = if whole { gp(s) } else { any_p(s) };
    let d: Vec<f64> = (0..3).map(|_| if whole { 1.0 + s.below(4) as f64 } else { 0.01 + frac(s) * 4.0 }).collect();
    BoundingBox3D::new(&pt(a), &pt(add(a, [d[0], d[1], d[2]]))).unwrap()
}
fn any_tri<S: Src>(s: &mut S) -> Option<TriFace3D> { TriFace3D::new(pt(any_p(s)), pt(any_p(s)), pt(any_p(s))).ok() }
/// a direction along an axis, a diagonal, or any
fn any_dir<S: Src>(s: &mut S) -> Norm3D {
    loop {
        let d = match s.below(3) {
            0 => { let k = s.below(3); let mut d = [0.0; 3]; d[k] = if s.bool() { 1.0 } else { -1.0 }; d }
            1 => [s.below(3) as f64 - 1.0, s.below(3) as f64 - 1.0, s.below(3) as f64 - 1.0],
            _ => any_p(s),
        };
        if len(d) > 0.01 { return Norm3D::new(pt(d)).unwrap(); }
        if s.below(2) == 1 { return Norm3D::norm_x(); }
    }
}
fn any_box<S: Src>(s: &mut S) -> BoxUnaligned3D {
    if s.below(3) == 0 { let whole = s.bool(); return BoxUnaligned3D::new_from_bb(&any_bb(s, whole)); }
    let size = [0.1 + frac(s) * 4.0, 0.1 + frac(s) * 4.0, 0.1 + frac(s) * 4.0];
    let mut b = BoxUnaligned3D::new_from_z_rotation(&pt(any_p(s)), sizes(size), frac(s) * 7.0 - 3.5);
    if s.bool() {
        // any orientation: the z direction and a direction at right angles to it
        let z = any_dir(s);
        let y = crs(v(&z), v(&any_dir(s)));
        if len(y) > 0.1 { b.y_dir = Norm3D::new(pt(y)).unwrap(); b.z_dir = z; }
    }
    b
}
fn sizes(x: V) -> [Positive; 3] { [Positive::new(x[0]).unwrap(), Positive::new(x[1]).unwrap(), Positive::new(x[2]).unwrap()] }
/// corners and tried axes of a collider, by their definition
struct Shape { corners: Vec<V>, axes: Vec<V> }
fn of_bb(b: &BoundingBox3D) -> Shape {
    let (lo, hi) = (v(&b.min_p()), v(&b.max_p()));
    let corners = (0..8).map(|k| [if k & 1 == 0 { lo[0] } else { hi[0] }, if k & 2 == 0 { lo[1] } else { hi[1] }, if k & 4 == 0 { lo[2] } else { hi[2] }]).collect();
    Shape { corners, axes: vec![[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]] }
}
fn of_box(b: &BoxUnaligned3D) -> Shape {
    let (y, z) = (v(&b.y_dir), v(&b.z_dir));
    let x = crs(z, y);
    let x = mul(x, 1.0 / len(x));
    let (dx, dy, dz) = (mul(x, *b.size[0] / 2.0), mul(y, *b.size[1] / 2.0), mul(z, *b.size[2] / 2.0));
    let c = v(&b.center);
    let corners = (0..8).map(|k| add(c, add(mul(dx, if k & 1 == 0 { 1.0 } else { -1.0 }), add(mul(dy, if k & 2 == 0 { 1.0 } else { -1.0 }), mul(dz, if k & 4 == 0 { 1.0 } else { -1.0 }))))).collect();
    Shape { corners, axes: vec![x, y, z] }
}
fn of_tri(t: &TriFace3D) -> Shape {
    let (a, b, c) = (v(t.a()), v(t.b()), v(t.c()));
    let n = crs(sub(b, a), sub(c, b));
    let mut axes = vec![n, crs(n, sub(b, a)), crs(n, sub(c, b)), crs(n, sub(a, c))];
    for x in axes.iter_mut() { let l = len(*x); *x = if l > 0.0 { mul(*x, 1.0 / l) } else { [0.0, 0.0, 1.0] }; }
    Shape { corners: vec![a, b, c], axes }
}
fn of(c: &Collider3D) -> Shape {
    match c { Collider3D::AABB(x) => of_bb(x), Collider3D::Box3(x) => of_box(x), Collider3D::Face(x) => of_tri(x) }
}
fn span(s: &Shape, n: V) -> (f64, f64) {
    s.corners.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |r, p| (r.0.min(dot(*p, n)), r.1.max(dot(*p, n))))
}
/// the widest gap along an axis of either of them: positive if apart
fn gap(a: &Shape, b: &Shape) -> f64 {
    a.axes.iter().chain(b.axes.iter()).map(|n| { let (x, y) = (span(a, *n), span(b, *n)); (y.0 - x.1).max(x.0 - y.1) }).fold(f64::NEG_INFINITY, f64::max)
}
fn any_collider<S: Src>(s: &mut S) -> Collider3D {
    match s.below(3) {
        0 => { let whole = s.bool(); Collider3D::AABB(any_bb(s, whole)) }
        1 => Collider3D::Box3(any_box(s)),
        _ => match any_tri(s) { Some(t) => Collider3D::Face(t), None => Collider3D::Box3(any_box(s)) },
    }
}
fn flat(c: &Collider3D) -> bool {
    match c { Collider3D::Face(t) => { let n = crs(sub(v(t.b()), v(t.a())), sub(v(t.c()), v(t.b()))); len(n) < 1e-3 } _ => false }
}
fn sat(a: &Collider3D, b: &Collider3D) -> bool {
    use Collider3D::*;
    match (a, b) {
        (AABB(x), AABB(y)) => SATCollider::collide(x, y), (AABB(x), Box3(y)) => SATCollider::collide(x, y), (AABB(x), Face(y)) => SATCollider::collide(x, y),
        (Box3(x), AABB(y)) => SATCollider::collide(x, y), (Box3(x), Box3(y)) => SATCollider::collide(x, y), (Box3(x), Face(y)) => SATCollider::collide(x, y),
        (Face(x), AABB(y)) => SATCollider::collide(x, y), (Face(x), Box3(y)) => SATCollider::collide(x, y), (Face(x), Face(y)) => SATCollider::collide(x, y),
    }
}
pub fn separating<S: Src>(s: &mut S) {
    let (a, b) = (any_collider(s), any_collider(s));
    if flat(&a) || flat(&b) { return; }
    let g = gap(&of(&a), &of(&b));
    let r = sat(&a, &b);
    if g > 1e-9 { s.ck(!r, "apart along one of the directions: no collision"); }
    if g < -1e-9 { s.ck(r, "not apart along any of the directions: collision"); }
    s.ck(r == sat(&b, &a), "collide does not depend on the order");
    let c = a.collides_with(&b);
    s.ck(c == b.collides_with(&a), "collides_with does not depend on the order");
    if g > 1e-9 { s.ck(!c, "collides_with: apart"); }
    if g < -1e-9 { s.ck(c, "collides_with: not apart"); }
    let o = of(&a);
    let mut axes = vec![]; let mut points = vec![];
    match &a {
        Collider3D::AABB(x) => { x.for_each_axis(&mut |n: &Norm3D| axes.push(v(n))); x.for_each_point(&mut |p: &Point3D| points.push(v(p))); }
        Collider3D::Box3(x) => { x.for_each_axis(&mut |n: &Norm3D| axes.push(v(n))); x.for_each_point(&mut |p: &Point3D| points.push(v(p))); }
        Collider3D::Face(x) => { x.for_each_axis(&mut |n: &Norm3D| axes.push(v(n))); x.for_each_point(&mut |p: &Point3D| points.push(v(p))); }
    }
    s.ck(o.corners.iter().all(|p| points.iter().any(|q| close(*p, *q))) && points.iter().all(|q| o.corners.iter().any(|p| close(*p, *q))), "the corners are those of the shape");
    s.ck(o.axes.iter().all(|p| axes.iter().any(|q| close(*p, *q) || close(mul(*p, -1.0), *q))), "the face directions are tried");
    s.ck(axes.iter().all(|q| near(len(*q), 1.0)), "the directions have length one");
}
/// objects with a common point
pub fn never_missed<S: Src>(s: &mut S) {
    let (a, b) = (any_collider(s), any_collider(s));
    if flat(&a) || flat(&b) { return; }
    let (sa, sb) = (of(&a), of(&b));
    // a point well inside of both: move b accordingly
    let mix = |s: &mut S, o: &Shape| { let w: Vec<f64> = o.corners.iter().map(|_| 0.2 + frac(s)).collect(); let t: f64 = w.iter().sum(); o.corners.iter().zip(w.iter()).fold([0.0; 3], |r, (p, w)| add(r, mul(*p, *w / t))) };
    let d = sub(mix(s, &sa), mix(s, &sb));
    let b = match b {
        Collider3D::AABB(x) => Collider3D::AABB(BoundingBox3D::new(&pt(add(v(&x.min_p()), d)), &pt(add(v(&x.max_p()), d))).unwrap()),
        Collider3D::Box3(mut x) => { x.move_by(d[0], d[1], d[2]); Collider3D::Box3(x) }
        Collider3D::Face(x) => match TriFace3D::new(pt(add(v(x.a()), d)), pt(add(v(x.b()), d)), pt(add(v(x.c()), d))) { Ok(t) => Collider3D::Face(t), Err(_) => return },
    };
    let thin = |o: &Collider3D| match o { Collider3D::Face(_) => true, _ => false };
    if thin(&a) && thin(&b) { return; }
    s.ck(sat(&a, &b) && sat(&b, &a), "shapes with a common point collide");
    s.ck(a.collides_with(&b) && b.collides_with(&a), "colliders with a common point collide");
    // faces that share a corner
    let p = any_p(s);
    if let (Ok(t), Ok(u)) = (TriFace3D::new(pt(p), pt(any_p(s)), pt(any_p(s))), TriFace3D::new(pt(any_p(s)), pt(p), pt(any_p(s)))) {
        s.ck(SATCollider::collide(&t, &u) && SATCollider::collide(&u, &t) && SATCollider::collide(&t, &t), "faces that share a corner collide");
    }
}
pub fn boxes<S: Src>(s: &mut S) {
    let whole = s.bool();
    let bb = any_bb(s, whole);
    let b = BoxUnaligned3D::new_from_bb(&bb);
    let r = b.bounding_box();
    s.ck(close(v(&r.min_p()), v(&bb.min_p())) && close(v(&r.max_p()), v(&bb.max_p())), "new_from_bb keeps the bounding box");
    let (c, z, q) = (any_p(s), frac(s) * 7.0 - 3.5, [0.1 + frac(s) * 4.0, 0.1 + frac(s) * 4.0, 0.1 + frac(s) * 4.0]);
    let b = BoxUnaligned3D::new_from_z_rotation(&pt(c), sizes(q), z);
    let mut points = vec![];
    b.for_each_point(&mut |p: &Point3D| points.push(v(p)));
    let turned = |p: V, z: f64| [p[0] * z.cos() - p[1] * z.sin(), p[0] * z.sin() + p[1] * z.cos(), p[2]];
    let fits = |z: f64| (0..8).all(|k| { let p = [q[0] / 2.0 * if k & 1 == 0 { 1.0 } else { -1.0 }, q[1] / 2.0 * if k & 2 == 0 { 1.0 } else { -1.0 }, q[2] / 2.0 * if k & 4 == 0 { 1.0 } else { -1.0 }]; points.iter().any(|x| close(*x, add(c, turned(p, z)))) });
    s.ck(fits(z) || fits(-z), "new_from_z_rotation: the corners of the rotated box");
    let b = any_box(s);
    let o = of_box(&b);
    let r = b.bounding_box();
    let (lo, hi) = (v(&r.min_p()), v(&r.max_p()));
    let (wlo, whi) = (0..3).fold(([0.0; 3], [0.0; 3]), |(mut l, mut h), i| { l[i] = o.corners.iter().map(|p| p[i]).fold(f64::INFINITY, f64::min); h[i] = o.corners.iter().map(|p| p[i]).fold(f64::NEG_INFINITY, f64::max); (l, h) });
    s.ck(close(lo, wlo) && close(hi, whi), "the bounding box of a rotated box encloses its corners tightly");
    let m = b.bounding_box_maybe();
    s.ck(m.map_or(false, |m| v(&m.min_p()) == lo && v(&m.max_p()) == hi), "bounding_box_maybe");
    let (p, q, r) = (any_p(s), any_p(s), any_p(s));
    let flat = (0..3).any(|i| p[i] == q[i] && q[i] == r[i]);
    match TriFace3D::new(pt(p), pt(q), pt(r)) {
        Err(_) => s.ck(flat, "TriFace3D::new only refuses faces without a volume"),
        Ok(t) => {
            let bb = t.bounding_box();
            s.ck(!flat && (0..3).all(|i| v(&bb.min_p())[i] == p[i].min(q[i]).min(r[i]) && v(&bb.max_p())[i] == p[i].max(q[i]).max(r[i])), "bounding box of a face");
            s.ck(v(t.a()) == p && v(t.b()) == q && v(t.c()) == r, "corners of a face");
        }
    }
}
#[derive(Clone)]
struct Body { bb: BoundingBox3D, parts: Vec<u64>, with: bool }
fn part(k: u64) -> Collider3D {
    // a collider made from a number
    let f = |i: u64| ((k >> (i * 5)) & 31) as f64 / 4.0 - 4.0;
    let a = [f(0), f(1), f(2)];
    match k % 3 {
        0 => Collider3D::AABB(BoundingBox3D::new(&pt(a), &pt(add(a, [f(3) + 4.5, f(4) + 4.5, f(5) + 4.5]))).unwrap()),
        1 => Collider3D::Box3(BoxUnaligned3D::new_from_z_rotation(&pt(a), sizes([f(3) + 4.5, f(4) + 4.5, f(5) + 4.5]), f(6))),
        _ => match TriFace3D::new(pt(a), pt([f(3), f(4), f(5)]), pt([f(6), f(7), f(8)])) { Ok(t) => Collider3D::Face(t), Err(_) => Collider3D::AABB(BoundingBox3D::new(&pt(a), &pt(add(a, [1.0, 1.0, 1.0]))).unwrap()) },
    }
}
impl HasBoundingBox3D for Body { fn bounding_box(&self) -> BoundingBox3D { self.bb.clone() } }
impl HasBoundingBox3DMaybe for Body { fn bounding_box_maybe(&self) -> Option<BoundingBox3D> { Some(self.bb.clone()) } }
impl HasColliders3D for Body {
    fn has_additional_colliders(&self) -> bool { self.with }
    fn with_colliders(&self, f: &mut dyn FnMut(&Collider3D)) { for p in self.parts.iter() { f(&part(*p)) } }
}
fn any_body<S: Src>(s: &mut S) -> Body {
    let parts: Vec<u64> = (0..s.below(4)).map(|_| s.u64()).collect();
    // the bounding box encloses the parts
    let mut ps: Vec<Point3D> = parts.iter().flat_map(|k| { let b = part(*k).bounding_box(); vec![b.min_p(), b.max_p()] }).collect();
    if ps.is_empty() { let b = any_bb(s, true); ps = vec![b.min_p(), b.max_p()]; }
    Body { bb: BoundingBox3D::from_iterator(&ps).unwrap(), with: s.below(4) > 0, parts }
}
fn shapes(b: &Body) -> Vec<Collider3D> { if b.with { b.parts.iter().map(|k| part(*k)).collect() } else { vec![Collider3D::AABB(b.bb.clone())] } }
pub fn bodies<S: Src>(s: &mut S) {
    let o = any_body(s);
    let n = s.below(6);
    let list: Vec<Body> = (0..n).map(|_| any_body(s)).collect();
    let pair = |a: &Body, b: &Body| shapes(a).iter().any(|x| shapes(b).iter().any(|y| x.collides_with(y)));
    for b in list.iter() {
        s.ck(b.collides_with(&o) == pair(b, &o), "bodies collide if two of their colliders do");
        for c in shapes(&o) { s.ck(b.collides_with_collider(&c) == shapes(b).iter().any(|x| x.collides_with(&c)), "a body collides with a collider if one of its colliders does"); }
    }
    let want = list.iter().any(|b| pair(b, &o));
    let bounds = list.iter().any(|b| b.bb.collides_with(&o.bb));
    let (vd, ll): (VecDeque<Body>, LinkedList<Body>) = (list.iter().cloned().collect(), list.iter().cloned().collect());
    s.ck(list.any_element_collides_with_collider(&o) == want && vd.any_element_collides_with_collider(&o) == want && ll.any_element_collides_with_collider(&o) == want, "containers: an element collides");
    s.ck(list.any_element_collides_with_bounding(&o) == bounds && vd.any_element_collides_with_bounding(&o) == bounds && ll.any_element_collides_with_bounding(&o) == bounds, "containers: the bounding box of an element collides");
    let tree = AABBTree3D::new(list.clone(), s.below(5), 1 + s.below(3));
    s.ck(tree.any_element_collides_with_bounding(&o) == bounds, "tree: the bounding box of an element collides");
    let both = list.iter().any(|b| b.bb.collides_with(&o.bb) && pair(b, &o));
    s.ck(tree.any_element_collides_with_collider(&o) == both, "tree: an element collides");
}
/// where a line is in a box, exactly: by whole numbers (everything times `k`)
struct Line { a: [i128; 3], d: [i128; 3] }
type Frac = (i128, i128);
fn less(a: Frac, b: Frac) -> bool { a.0 * b.1 < b.0 * a.1 }
fn hit(l: &Line, lo: [i128; 3], hi: [i128; 3]) -> Option<Frac> {
    let (mut first, mut last): (Frac, Frac) = ((-1 << 60, 1), (1 << 60, 1));
    for i in 0..3 {
        let d = l.d[i];
        if d == 0 { if l.a[i] < lo[i] || l.a[i] > hi[i] { return None; } continue; }
        let (x, y) = if d > 0 { ((lo[i] - l.a[i], d), (hi[i] - l.a[i], d)) } else { ((l.a[i] - hi[i], -d), (l.a[i] - lo[i], -d)) };
        if less(first, x) { first = x; }
        if less(y, last) { last = y; }
    }
    if less(last, first) || last.0 < 0 { None } else { Some(first) }
}
pub fn lines<S: Src>(s: &mut S) {
    let b = any_bb(s, true);
    let (lo, hi) = (v(&b.min_p()), v(&b.max_p()));
    let a = gp(s);
    let simple = s.below(3) > 0;
    let d = if simple { [s.below(3) as f64 - 1.0, s.below(3) as f64 - 1.0, s.below(3) as f64 - 1.0] } else { gp(s) };
    if len(d) == 0.0 { return; }
    let line = Line3D::new(pt(a), Norm3D::new(pt(d)).unwrap());
    let r = intersection(&line, &b);
    let k = 1_000_000_000i128;
    let w = |x: f64| x as i128 * k;
    let l = Line { a: [w(a[0]), w(a[1]), w(a[2])], d: [d[0] as i128, d[1] as i128, d[2] as i128] };
    let grown = |m: i128| hit(&l, [w(lo[0]) - m, w(lo[1]) - m, w(lo[2]) - m], [w(hi[0]) + m, w(hi[1]) + m, w(hi[2]) + m]);
    if simple {
        s.ck(r.is_some() == grown(0).is_some(), "intersection: along an axis or a diagonal, exactly the boxes the ray meets");
    } else {
        if grown(-1).is_some() { s.ck(r.is_some(), "intersection: a box the ray passes through is found"); }
        if grown(1).is_none() { s.ck(r.is_none(), "intersection: a box the ray does not touch is not found"); }
    }
    if let (Some(p), Some(t)) = (&r, grown(0)) {
        let t = t.0 as f64 / t.1 as f64 / k as f64;
        s.ck((0..3).all(|i| near(v(p)[i], a[i] + d[i] * t)), "intersection: where the line enters the box");
    }
    // any size: a point of the box in front of the anchor
    let bb = any_bb(s, false);
    let (lo, hi) = (v(&bb.min_p()), v(&bb.max_p()));
    let q = [lo[0] + (hi[0] - lo[0]) * (0.01 + 0.98 * frac(s)), lo[1] + (hi[1] - lo[1]) * (0.01 + 0.98 * frac(s)), lo[2] + (hi[2] - lo[2]) * (0.01 + 0.98 * frac(s))];
    let n = any_dir(s);
    let t = frac(s) * 20.0;
    let a = sub(q, mul(v(&n), t));
    match intersection(&Line3D::new(pt(a), n.clone()), &bb) {
        None => s.ck(false, "intersection: a box with a point in front of the anchor is found"),
        Some(p) => {
            let p = v(&p);
            s.ck(len(crs(sub(p, a), v(&n))) < 1e-6, "intersection: a point of the line");
            s.ck((0..3).all(|i| lo[i] - 1e-6 <= p[i] && p[i] <= hi[i] + 1e-6) && (0..3).any(|i| (p[i] - lo[i]).abs() < 1e-6 || (p[i] - hi[i]).abs() < 1e-6), "intersection: a point of the sides of the box");
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
struct Item { bb: Option<([i8; 3], [i8; 3])>, id: usize, seen: bool }
impl HasBoundingBox3DMaybe for Item {
    fn bounding_box_maybe(&self) -> Option<BoundingBox3D> {
        self.bb.map(|(a, d)| BoundingBox3D::new(&Point3D::new(a[0] as f64, a[1] as f64, a[2] as f64), &Point3D::new((a[0] + d[0]) as f64, (a[1] + d[1]) as f64, (a[2] + d[2]) as f64)).unwrap())
    }
}
#[derive(Clone)]
struct Sure(Item);
impl HasBoundingBox3D for Sure { fn bounding_box(&self) -> BoundingBox3D { self.0.bounding_box_maybe().unwrap() } }
impl HasBoundingBox3DMaybe for Sure { fn bounding_box_maybe(&self) -> Option<BoundingBox3D> { self.0.bounding_box_maybe() } }
fn any_items<S: Src>(s: &mut S, n: usize) -> Vec<Item> {
    (0..n).map(|id| {
        let bb = if s.below(6) == 0 { None } else { let c = |s: &mut S| s.below(13) as i8 - 6; let d = |s: &mut S| 1 + s.below(4) as i8; Some(([c(s), c(s), c(s)], [d(s), d(s), d(s)])) };
        Item { bb, id, seen: false }
    }).collect()
}
pub fn closest<S: Src>(s: &mut S) {
    let n = s.below(8);
    let mut items = any_items(s, n);
    let a = if s.bool() { gp(s) } else { any_p(s) };
    let ray = Ray3D::new(Line3D::new(pt(a), any_dir(s)));
    let hits: Vec<Option<Point3D>> = items.iter().map(|i| i.bounding_box_maybe().and_then(|b| intersection(&ray.line, &b))).collect();
    let dist = |p: &Point3D| { let d = sub(v(p), a); dot(d, d) };
    let mut best: Option<usize> = None;
    for i in 0..n { if let Some(p) = &hits[i] { if best.map_or(true, |j| dist(p) < dist(hits[j].as_ref().unwrap())) { best = Some(i) } } }
    let same = |p: &Point3D, i: usize| best.map_or(false, |j| near(dist(p), dist(hits[j].as_ref().unwrap())) && hits[i].as_ref().map_or(false, |q| v(q) == v(p)));
    match closest_intersecting(&ray, items.iter()) { None => s.ck(best.is_none(), "closest_intersecting finds one"), Some((p, i)) => s.ck(same(&p, i.id), "closest_intersecting: the closest of all") }
    match index_closest_intersecting(&ray, items.iter()) { None => s.ck(best.is_none(), "index_closest_intersecting finds one"), Some((p, i)) => s.ck(i < n && same(&p, i), "index_closest_intersecting: the closest of all") }
    match closest_intersecting_mut(&ray, items.iter_mut()) { None => s.ck(best.is_none(), "closest_intersecting_mut finds one"), Some((p, i)) => s.ck(same(&p, i.id), "closest_intersecting_mut: the closest of all") }
    let mut seen = vec![];
    for_each_intersecting(&ray, items.iter_mut(), &mut |p, i| { i.seen = true; seen.push((i.id, v(p))) });
    let want: Vec<(usize, V)> = (0..n).filter_map(|i| hits[i].as_ref().map(|p| (i, v(p)))).collect();
    s.ck(seen == want, "for_each_intersecting: all of them, in order");
    s.ck(items.iter().all(|i| i.seen == hits[i.id].is_some()), "for_each_intersecting: the elements themselves");
    // trees
    let data: Vec<Sure> = items.iter().filter(|i| i.bb.is_some()).map(|i| Sure(i.clone())).collect();
    let mut want: Vec<usize> = data.iter().filter(|i| hits[i.0.id].is_some()).map(|i| i.0.id).collect();
    let tree = AABBTree3D::new(data, s.below(6), 1 + s.below(3));
    let mut seen = vec![];
    tree.for_each_intersection_candidate(&ray.line, &mut |i: &Sure| seen.push(i.0.id));
    seen.sort(); seen.dedup(); want.sort();
    s.ck(seen == want, "tree: exactly the elements whose bounding box the line meets");
}
/// six times the signed volume
fn vol(a: [i64; 3], b: [i64; 3], c: [i64; 3]) -> i64 {
    a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])
}
pub fn faces<S: Src>(s: &mut S) {
    let n = s.below(4);
    let ps: Vec<[V; 3]> = (0..n).map(|_| { let z = s.bool(); let mut t = [gp(s), gp(s), gp(s)]; if z { for p in t.iter_mut() { p[2] = t_z(p[2]); } } t }).collect();
    let (o, d) = (gp(s), if s.bool() { gp(s) } else { [[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 1.0, 1.0]][s.below(4)] });
    if len(d) == 0.0 { return; }
    // stretched along an axis: rays nearly parallel to the triangles
    let (k, f) = (s.below(3), [1.0, 1.0, 100.0, 10000.0][s.below(4)]);
    let st = |mut p: V| { p[k] *= f; p };
    let ps: Vec<[V; 3]> = ps.iter().map(|t| [st(t[0]), st(t[1]), st(t[2])]).collect();
    let (o, d) = (st(o), st(d));
    let ray = Ray3D::new(Line3D::new(pt(o), Norm3D::new(pt(d)).unwrap()));
    let w = |p: V| [p[0] as i64, p[1] as i64, p[2] as i64];
    let mut singles = vec![];
    for t in ps.iter() {
        let r = intersection_ray_triangle(&ray, &pt(t[0]), &pt(t[1]), &pt(t[2]));
        let (a, b, c, e) = (w(sub(t[0], o)), w(sub(t[1], o)), w(sub(t[2], o)), w(d));
        let (x, y, z) = (vol(e, a, b), vol(e, b, c), vol(e, c, a));
        let (f, g) = (vol(e, w(sub(t[1], t[0])), w(sub(t[2], t[0]))), vol(a, b, c));
        // the ray meets the plane at g / f times its direction
        let clear = x != 0 && y != 0 && z != 0 && f != 0 && g != 0;
        let inside = (x > 0) == (y > 0) && (y > 0) == (z > 0) && (g > 0) == (f > 0);
        if clear { s.ck(r.is_some() == inside, "ray and triangle: meets the inside in front of the anchor"); }
        if f != 0 && !clear && g != 0 && (g > 0) != (f > 0) { s.ck(r.is_none(), "ray and triangle: behind the anchor"); }
        if let Some(p) = &r {
            if f != 0 { let k = g as f64 / f as f64; s.ck((0..3).all(|i| (v(p)[i] - (o[i] + d[i] * k)).abs() <= 1e-7 * (1.0 + len(o) + len(d) * k.abs())), "ray and triangle: the common point"); }
        }
        if let Some(p) = r { singles.push(v(&p)); }
    }
    let mut m = Mesh3D::<Point3D, PointCloud3D<Point3D>, Vec<usize>>::default();
    for t in ps.iter() { m.add_face(pt(t[0]), pt(t[1]), pt(t[2])); }
    let mut out = vec![Point3D::new(7.0, 7.0, 7.0)];
    collect_intersections_ray_mesh(&ray, &m, &mut out);
    s.ck(out.len() == 1 + singles.len() && v(&out[0]) == [7.0; 3] && out.iter().skip(1).zip(singles.iter()).all(|(p, q)| v(p) == *q), "collect_intersections_ray_mesh: those of all faces, in order, behind what was there");
}
fn t_z(_: f64) -> f64 { 2.0 }
crate::natives! { separating: 60000, never_missed: 40000, boxes: 30000, bodies: 15000, lines: 80000, closest: 30000, faces: 60000 }

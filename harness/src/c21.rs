use crate::src::same;
use crate::Src;
use rust_3d::*;
use std::collections::VecDeque;
use std::fmt::Debug;

fn p3<S: Src>(s: &mut S) -> Point3D {
    Point3D { x: s.num(), y: s.num(), z: s.num() }
}
fn p2<S: Src>(s: &mut S) -> Point2D {
    Point2D { x: s.num(), y: s.num() }
}
/// push, insert, set and index against a plain list
fn full<S: Src, V, C>(s: &mut S, mut c: C, mut vs: Vec<V>, gen: fn(&mut S) -> V)
where
    V: Clone + PartialEq + Debug,
    C: IsRandomInsertible<V> + IsRandomAccessible<V> + IsPushable<V> + IsDataContainer<V>,
{
    let n = s.below(9) + 1;
    for _ in 0..n {
        let v = gen(s);
        match s.below(6) {
            0 => {
                IsPushable::push(&mut c, v.clone());
                vs.push(v)
            }
            1 => {
                c.push_d(v.clone());
                vs.push(v)
            }
            2 => {
                let i = if s.below(3) == 0 { s.usize() } else { s.below(vs.len() + 2) };
                let r = IsRandomInsertible::insert(&mut c, i, v.clone());
                s.ck(r.is_ok() == (i <= vs.len()), "insert succeeds exactly up to the length");
                if i <= vs.len() {
                    vs.insert(i, v)
                }
            }
            3 => {
                if vs.len() > 0 {
                    let i = s.below(vs.len());
                    c.set_d(i, v.clone());
                    vs[i] = v
                }
            }
            4 => {
                if vs.len() > 0 {
                    let i = s.below(vs.len());
                    c[i] = v.clone();
                    vs[i] = v
                }
            }
            _ => {
                c.reserve_d(s.below(20));
                IsPushable::reserve(&mut c, s.below(20))
            }
        }
        s.ck(IsRandomAccessible::len(&c) == vs.len() && c.len_d() == vs.len(), "length");
        for i in 0..vs.len() {
            s.ck(c[i] == vs[i], "element by index");
            s.ck(c.get_d(i).as_ref() == Some(&vs[i]), "get by index");
        }
        let j = s.usize();
        s.ck(c.get_d(j).is_some() == (j < vs.len()) && c.get_d(vs.len()).is_none(), "get beyond the length is None");
    }
}
pub fn point_cloud_2d<S: Src>(s: &mut S) {
    full(s, PointCloud2D::<Point2D>::new(), vec![], p2::<S>)
}
pub fn point_cloud_3d<S: Src>(s: &mut S) {
    full(s, PointCloud3D::<Point3D>::with_capacity(3), vec![], p3::<S>)
}
pub fn vec_list<S: Src>(s: &mut S) {
    full(s, Vec::<Point3D>::new(), vec![], p3::<S>)
}
pub fn vec_deque<S: Src>(s: &mut S) {
    // a wrapped-around ring buffer
    let mut c = VecDeque::new();
    let mut vs = vec![];
    for _ in 0..s.below(4) {
        let v = p3(s);
        c.push_front(v.clone());
        vs.insert(0, v)
    }
    full(s, c, vs, p3::<S>)
}
/// the f32 cloud stores the values lossy but in the same order
pub fn point_cloud_f32<S: Src>(s: &mut S) {
    let mut c = PointCloud3Df32::<Point3D>::new();
    let mut vs: Vec<Point3D> = vec![];
    for _ in 0..s.below(9) {
        let v = p3(s);
        match s.below(4) {
            0 => {
                IsPushable::push(&mut c, v.clone());
                vs.push(v)
            }
            1 => {
                c.push_d(v.clone());
                vs.push(v)
            }
            2 => {
                if vs.len() > 0 {
                    let i = s.below(vs.len());
                    c.set_d(i, v.clone());
                    vs[i] = v
                }
            }
            _ => {
                c.reserve_d(s.below(9));
                IsPushable::reserve(&mut c, s.below(9))
            }
        }
        s.ck(c.len_d() == vs.len(), "length");
        for i in 0..vs.len() {
            let ok = c.get_d(i).map_or(false, |p| same(p.x, vs[i].x as f32 as f64) && same(p.y, vs[i].y as f32 as f64) && same(p.z, vs[i].z as f32 as f64));
            s.ck(ok, "get by index gives the stored precision of the element");
        }
        let j = s.usize();
        s.ck(c.get_d(j).is_some() == (j < vs.len()) && c.get_d(vs.len()).is_none(), "get beyond the length is None");
    }
}
/// appending a collection, building from and dissolving into plain data
pub fn point_cloud_bulk<S: Src>(s: &mut S) {
    let a: Vec<Point3D> = (0..s.below(5)).map(|_| p3(s)).collect();
    let b: Vec<Point3D> = (0..s.below(5)).map(|_| p3(s)).collect();
    let mut c = PointCloud3D { data: a.clone() };
    c.append_ra(&b);
    let want: Vec<Point3D> = a[..].iter().chain(b[..].iter()).cloned().collect();
    s.ck(c.data == want, "append_ra appends all elements in order");
    let a: Vec<Point2D> = (0..s.below(5)).map(|_| p2(s)).collect();
    let b: Vec<Point2D> = (0..s.below(5)).map(|_| p2(s)).collect();
    let mut c = PointCloud2D { data: a.clone() };
    c.append_ra(&b);
    let want: Vec<Point2D> = a[..].iter().chain(b[..].iter()).cloned().collect();
    s.ck(c.data == want, "append_ra appends all elements in order");
    let mut seen = vec![];
    c.for_each_point(|p| seen.push(p.clone()));
    s.ck(seen == want, "for_each_point visits all elements in order");
}
crate::natives! { point_cloud_2d: 60000, point_cloud_3d: 60000, vec_list: 60000, vec_deque: 60000, point_cloud_f32: 40000, point_cloud_bulk: 10000 }

use crate::Src;
use rust_3d::*;
use std::collections::{HashSet, LinkedList, VecDeque};

/// an arbitrary predicate on small numbers, given by its answers
#[derive(Clone)]
struct Tab(u64);
impl IsFilter<u8> for Tab {
    fn is_allowed(&self, x: &u8) -> bool {
        (self.0 >> (*x & 63)) & 1 == 1
    }
}
impl IsFilter<Point2D> for Tab {
    fn is_allowed(&self, x: &Point2D) -> bool {
        (self.0 >> (x.x() as u8 & 63)) & 1 == 1
    }
}
fn tab<S: Src>(s: &mut S) -> Tab {
    match s.below(5) {
        0 => Tab(0),
        1 => Tab(u64::MAX),
        _ => Tab(s.u64()),
    }
}
/// full, or restricted to some of the first n indices (and possibly some beyond)
fn view<S: Src>(s: &mut S, n: usize, beyond: bool) -> View {
    match s.below(4) {
        0 => View::Full,
        k => {
            let mut r = HashSet::new();
            if k > 1 {
                for i in 0..n {
                    if s.bool() {
                        r.insert(i);
                    }
                }
            }
            if beyond && s.below(4) == 0 {
                r.insert(n + s.below(3));
            }
            View::Restricted(r)
        }
    }
}
fn has(v: &View, i: usize) -> bool {
    match v {
        View::Full => true,
        View::Restricted(r) => r.contains(&i),
    }
}
fn list<S: Src>(s: &mut S) -> Vec<u8> {
    let n = s.below(9);
    (0..n).map(|_| s.below(64) as u8).collect()
}
pub fn union<S: Src>(s: &mut S) {
    let (a, b) = (view(s, 8, true), view(s, 8, true));
    let mut c = a.clone();
    c.union(b.clone());
    for i in 0..12 {
        s.ck(has(&c, i) == (has(&a, i) || has(&b, i)), "union");
    }
}
pub fn filter<S: Src>(s: &mut S) {
    let xs = list(s);
    let t = tab(s);
    let before = view(s, xs.len(), true);
    let f = FilterRandomAccessible::new(t.clone());
    let mut after = before.clone();
    f.filter(&xs, &mut after);
    let deque: VecDeque<u8> = xs.iter().cloned().collect();
    let mut after_deque = before.clone();
    FilterRandomAccessible::new(t.clone()).filter(&deque, &mut after_deque);
    let mut cloud = PointCloud2D::<Point2D>::new();
    for x in xs.iter() {
        cloud.push(Point2D::new(*x as f64, 0.0));
    }
    let mut after_cloud = before.clone();
    FilterRandomAccessible::new(t.clone()).filter(&cloud, &mut after_cloud);
    for i in 0..xs.len() {
        let want = has(&before, i) && t.is_allowed(&xs[i]);
        s.ck(has(&after, i) == want, "single filter");
        s.ck(has(&after_deque, i) == want && has(&after_cloud, i) == want, "single filter on other collections");
    }
}
pub fn many<S: Src>(s: &mut S) {
    let xs = list(s);
    let n = s.below(4);
    let parts: Vec<Tab> = (0..n).map(|_| tab(s)).collect();
    let before = view(s, xs.len(), false);
    let mut all = FilterAllRandomAccessible { filters: vec![] };
    let mut any = FilterAnyRandomAccessible { filters: vec![] };
    let mut nested = FilterAllRandomAccessible { filters: vec![] };
    let mut inner = FilterAnyRandomAccessible { filters: vec![] };
    for p in parts.iter() {
        all.filters.push(Box::new(FilterRandomAccessible::new(p.clone())));
        any.filters.push(Box::new(FilterRandomAccessible::new(p.clone())));
        inner.filters.push(Box::new(FilterRandomAccessible::new(p.clone())));
    }
    let outer = tab(s);
    nested.filters.push(Box::new(FilterRandomAccessible::new(outer.clone())));
    nested.filters.push(Box::new(inner));
    let (mut va, mut vo, mut vn) = (before.clone(), before.clone(), before.clone());
    all.filter(&xs, &mut va);
    any.filter(&xs, &mut vo);
    nested.filter(&xs, &mut vn);
    for i in 0..xs.len() {
        let (p, q) = (parts.iter().all(|f| f.is_allowed(&xs[i])), parts.iter().any(|f| f.is_allowed(&xs[i])));
        s.ck(has(&va, i) == (has(&before, i) && p), "all-of");
        s.ck(has(&vo, i) == (has(&before, i) && q), "any-of");
        s.ck(has(&vn, i) == (has(&before, i) && q && outer.is_allowed(&xs[i])), "any-of within all-of");
    }
}
fn applied<S: Src, C: IsViewBuildable + Clone>(s: &mut S, c: &C, n: usize, v: &View, items: &dyn Fn(&C) -> Vec<u8>) {
    let old = items(c);
    let fits = match v {
        View::Full => true,
        View::Restricted(r) => r.iter().all(|i| *i < n),
    };
    let want: Vec<u8> = if fits { (0..n).filter(|i| has(v, *i)).map(|i| old[i]).collect() } else { old.clone() };
    let mut a = c.clone();
    s.ck(a.apply_view(v).is_ok() == fits, "apply_view succeeds exactly if every index exists");
    s.ck(items(&a) == want, "apply_view keeps exactly the viewed elements in order");
    match c.from_view(v) {
        None => s.ck(!fits, "from_view succeeds if every index exists"),
        Some(b) => s.ck(fits && items(&b) == want, "from_view"),
    }
    s.ck(items(c) == old, "from_view leaves the source unchanged");
}
pub fn apply<S: Src>(s: &mut S) {
    let xs = list(s);
    let n = xs.len();
    let v = view(s, n, true);
    applied(s, &xs, n, &v, &|c| c.clone());
    applied(s, &xs.iter().cloned().collect::<VecDeque<u8>>(), n, &v, &|c| c.iter().cloned().collect());
    applied(s, &xs.iter().cloned().collect::<LinkedList<u8>>(), n, &v, &|c| c.iter().cloned().collect());
    let mut p2 = PointCloud2D::<Point2D>::new();
    let mut p3 = PointCloud3D::<Point3D>::new();
    for x in xs.iter() {
        p2.push(Point2D::new(*x as f64, 1.0));
        p3.push(Point3D::new(*x as f64, 1.0, 2.0));
    }
    applied(s, &p2, n, &v, &|c| c.data.iter().map(|p| p.x() as u8).collect());
    applied(s, &p3, n, &v, &|c| c.data.iter().map(|p| p.x() as u8).collect());
}
crate::natives! { union: 2000, filter: 3000, many: 3000, apply: 3000 }

#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::collections::HashMap;
use std::ops::*;
verus! {
//@include float.inc
broadcast use {vstd::seq_lib::group_seq_properties, vstd::std_specs::hash::group_hash_axioms, fl::ax};
//@include base.inc
//@include num.inc
//@include pos.inc
//@include pos2.inc
//@include pos3.inc
//@include point2.inc
//@include point3.inc
//@include flemmas.inc
/// records the calls of a callback
pub trait Visit<T> {
    spec fn seen(&self) -> Seq<T>;
    fn visit(&mut self, x: &T)
        ensures final(self).seen() == old(self).seen().push(*x);
}
/// `x as u16`: 0 for NaN, rounded towards 0 and limited otherwise
pub uninterp spec fn whole16(x: f64) -> u16;
#[verifier::external_body]
pub fn cell_no16(x: f64) -> (r: u16) ensures r == whole16(x) { x as u16 }
/// `x as f64`
pub uninterp spec fn of16(x: u16) -> f64;
#[verifier::external_body]
pub fn count_f(x: u16) -> (r: f64) ensures r == of16(x) { x as f64 }
/// a positive number over a count is not negative (assumed: IEEE division)
pub axiom fn ax_step(size: f64, n: u16) requires 0.0f64.ieee_lt(size) ensures 0.0f64.ieee_le(size.ieee_div(of16(n)));
/// counting steps up from s grows with the position (assumed: IEEE rounding is monotone; 0 / 0 and inf / inf count as 0)
pub axiom fn ax_mono(s: f64, step: f64, a: f64, b: f64)
    requires s.ieee_le(a), a.ieee_le(b), 0.0f64.ieee_le(step)
    ensures whole16(a.ieee_sub(s).ieee_div(step)) <= whole16(b.ieee_sub(s).ieee_div(step));
pub type Key = (u16, u16);
pub axiom fn ax_keys() ensures vstd::std_specs::hash::obeys_key_model::<Key>();
//@ file src/is_mergeable.rs
//@ trait IsMergeable
//@ header pub trait IsMergeable: Sized
//@ ghost
    spec fn merged(a: &Self, b: &Self, r: &Self) -> bool;
    spec fn mergeable(a: &Self, b: &Self) -> bool;
//@ fn combine
//@ ret r
//@ spec
        requires Self::mergeable(self, other),
        ensures Self::merged(self, other, &r),
//@ enditem
//@ file src/bounding_box_3d.rs
//@ struct BoundingBox3D
//@ enditem
impl BoundingBox3D {
    pub open spec fn lo(&self, i: int) -> f64 { self.min.at(i) }
    pub open spec fn hi(&self, i: int) -> f64 { self.max.at(i) }
    pub open spec fn ok(&self) -> bool { self.lo(0).ieee_lt(self.hi(0)) && self.lo(1).ieee_lt(self.hi(1)) && self.lo(2).ieee_lt(self.hi(2)) }
    pub open spec fn is(&self, a: spec_fn(int) -> f64, b: spec_fn(int) -> f64) -> bool { self.lo(0) == a(0) && self.hi(0) == b(0) && self.lo(1) == a(1) && self.hi(1) == b(1) && self.lo(2) == a(2) && self.hi(2) == b(2) }
    /// the position lies in the box, seen from above
    pub open spec fn covers(&self, x: f64, y: f64) -> bool { self.lo(0).ieee_le(x) && x.ieee_le(self.hi(0)) && self.lo(1).ieee_le(y) && y.ieee_le(self.hi(1)) }
}
pub uninterp spec fn f_abs(x: f64) -> f64;
pub assume_specification [f64::abs](x: f64) -> (r: f64) ensures r == f_abs(x), 0.0f64.ieee_lt(x) ==> r == x;
//@ impl BoundingBox3D
//@ fn min_p
//@ ret r
//@ spec
        ensures r == self.min,
//@ fn max_p
//@ ret r
//@ spec
        ensures r == self.max,
//@ fn size_x
//@ ret r
//@ spec
        requires self.ok(),
        ensures r.val == self.max.at(0).ieee_sub(self.min.at(0)), pos(r.val),
//@ start
        proof { diff_pos(self.min.at(0), self.max.at(0)); }
//@ fn size_y
//@ ret r
//@ spec
        requires self.ok(),
        ensures r.val == self.max.at(1).ieee_sub(self.min.at(1)), pos(r.val),
//@ start
        proof { diff_pos(self.min.at(1), self.max.at(1)); }
//@ enditem
//@ impl IsMergeable for BoundingBox3D
//@ ghost
    open spec fn merged(a: &Self, b: &Self, r: &Self) -> bool {
        r.is(|i: int| if b.min.at(i).ieee_lt(a.min.at(i)) { b.min.at(i) } else { a.min.at(i) }, |i: int| if a.max.at(i).ieee_lt(b.max.at(i)) { b.max.at(i) } else { a.max.at(i) })
    }
    open spec fn mergeable(a: &Self, b: &Self) -> bool { a.ok() && b.ok() }
//@ fn combine
//@ enditem
pub proof fn merged_below(a: BoundingBox3D, b: BoundingBox3D, r: BoundingBox3D)
    requires a.ok(), b.ok(), BoundingBox3D::merged(&a, &b, &r),
    ensures r.ok(), forall|i: int| 0 <= i < 2 ==> #[trigger] r.lo(i).ieee_le(a.lo(i)) && r.lo(i).ieee_le(b.lo(i)),
{
    assert forall|i: int| 0 <= i < 3 implies #[trigger] r.lo(i).ieee_le(a.lo(i)) && r.lo(i).ieee_le(b.lo(i)) && r.lo(i).ieee_lt(r.hi(i)) by {
        assert(i == 0 || i == 1 || i == 2);
        let (p, q, s, t) = (a.lo(i), b.lo(i), a.hi(i), b.hi(i));
        lt_facts(p, s); lt_facts(q, t);
        tri(p, q); tri(q, p); tri(s, t); tri(t, s); tri(p, p); tri(q, q); tri(s, s); tri(t, t);
        assert(r.lo(i) == (if q.ieee_lt(p) { q } else { p }) && r.hi(i) == (if s.ieee_lt(t) { t } else { s }));
        lt_le_trans(q, p, s); lt_le_trans(q, t, s); lt_le_trans(p, s, t); lt_le_trans(q, p, t);
    }
    assert(r.lo(0).ieee_le(a.lo(0)) && r.lo(1).ieee_le(a.lo(1)) && r.lo(2).ieee_le(a.lo(2)));
    assert(r.lo(0).ieee_lt(r.hi(0)) && r.lo(1).ieee_lt(r.hi(1)) && r.lo(2).ieee_lt(r.hi(2)));
}
//@ file src/has_bounding_box_3d.rs
//@ trait HasBoundingBox3DMaybe
//@ ghost
    spec fn bbm(&self) -> Option<BoundingBox3D>;
//@ fn bounding_box_maybe
//@ ret r
//@ spec
        ensures r == self.bbm(),
//@ enditem
//@ trait HasBoundingBox3D
//@ ghost
    spec fn bb(&self) -> BoundingBox3D;
//@ fn bounding_box
//@ ret r
//@ spec
        ensures r == self.bb(),
//@ enditem
// ---- cells
/// where cells start and their sizes
pub struct Grid { pub sx: f64, pub sy: f64, pub ix: f64, pub iy: f64 }
impl Grid {
    pub open spec fn cx(self, x: f64) -> u16 { whole16(x.ieee_sub(self.sx).ieee_div(self.ix)) }
    pub open spec fn cy(self, y: f64) -> u16 { whole16(y.ieee_sub(self.sy).ieee_div(self.iy)) }
    pub open spec fn cell(self, x: f64, y: f64) -> Key { (self.cx(x), self.cy(y)) }
    pub open spec fn over(self, b: BoundingBox3D, c: Key) -> bool { self.cx(b.lo(0)) <= c.0 <= self.cx(b.hi(0)) && self.cy(b.lo(1)) <= c.1 <= self.cy(b.hi(1)) }
    /// no box starts below
    pub open spec fn below(self, b: BoundingBox3D) -> bool { self.sx.ieee_le(b.lo(0)) && self.sy.ieee_le(b.lo(1)) && b.ok() }
    pub open spec fn wf(self) -> bool { 0.0f64.ieee_le(self.ix) && 0.0f64.ieee_le(self.iy) }
}
/// the elements over a cell, in order
pub open spec fn hits<HB: HasBoundingBox3D>(g: Grid, data: Seq<HB>, n: int, c: Key) -> Seq<usize> decreases n {
    if n <= 0 { Seq::empty() } else if g.over(data[n - 1].bb(), c) { hits(g, data, n - 1, c).push((n - 1) as usize) } else { hits(g, data, n - 1, c) }
}
pub open spec fn listed(m: Map<Key, Vec<usize>>, c: Key) -> Seq<usize> { if m.dom().contains(c) { m[c]@ } else { Seq::empty() } }
pub proof fn hits_facts<HB: HasBoundingBox3D>(g: Grid, data: Seq<HB>, n: int, c: Key)
    requires 0 <= n <= data.len(), n <= usize::MAX
    ensures forall|k: int| 0 <= k < hits(g, data, n, c).len() ==> (#[trigger] hits(g, data, n, c)[k]) < n && g.over(data[hits(g, data, n, c)[k] as int].bb(), c),
        forall|k: int, l: int| 0 <= k < l < hits(g, data, n, c).len() ==> #[trigger] hits(g, data, n, c)[k] < #[trigger] hits(g, data, n, c)[l],
        forall|i: usize| i < n && g.over(#[trigger] data[i as int].bb(), c) ==> hits(g, data, n, c).contains(i),
    decreases n
{
    if n > 0 {
        hits_facts(g, data, n - 1, c);
        let h = hits(g, data, n - 1, c);
        assert forall|i: usize| i < n && g.over(#[trigger] data[i as int].bb(), c) implies hits(g, data, n, c).contains(i) by {
            if i < n - 1 { let k = choose|k: int| 0 <= k < h.len() && h[k] == i; assert(hits(g, data, n, c)[k] == i); } else { assert(hits(g, data, n, c)[h.len() as int] == i); }
        }
    }
}
/// `map.entry(k).and_modify(|e| e.push(i)).or_insert(vec![i])`
pub fn add_to(map: &mut HashMap<Key, Vec<usize>>, k: Key, i: usize)
    requires vstd::std_specs::hash::obeys_key_model::<Key>(),
    ensures listed(final(map)@, k) == listed(old(map)@, k).push(i), forall|c: Key| c != k ==> #[trigger] listed(final(map)@, c) == listed(old(map)@, c),
{
    let ghost m0 = map@;
    let mut v = match map.remove(&k) { Some(v) => v, None => Vec::new() };
    proof { assert(v@ =~= listed(m0, k)); }
    v.push(i);
    map.insert(k, v);
    proof { assert forall|c: Key| c != k implies #[trigger] listed(map@, c) == listed(m0, c) by { } }
}
//@ file src/cluster.rs
//@ struct Cluster
//@ type `HashMap<(u16, u16), Vec<usize>>` => `HashMap<Key, Vec<usize>>` ; names the same type
//@ enditem
impl<HB: HasBoundingBox3D> Cluster<HB> {
    pub open spec fn grid(&self) -> Grid { Grid { sx: self.start_x, sy: self.start_y, ix: self.incr_x, iy: self.incr_y } }
    pub open spec fn wf(&self) -> bool {
        &&& vstd::std_specs::hash::obeys_key_model::<Key>() && self.grid().wf() && self.data@.len() <= usize::MAX
        &&& forall|i: int| 0 <= i < self.data@.len() ==> self.grid().below((#[trigger] self.data@[i]).bb())
        &&& forall|c: Key| #[trigger] listed(self.map@, c) == hits(self.grid(), self.data@, self.data@.len() as int, c)
    }
    /// the elements visited for a position
    pub open spec fn visited(&self, x: f64, y: f64) -> Seq<HB> { hits(self.grid(), self.data@, self.data@.len() as int, self.grid().cell(x, y)).map(|k: int, i: usize| self.data@[i as int]) }
}
/// every element whose box covers a position is visited for it, and no element twice
pub proof fn covering_are_visited<HB: HasBoundingBox3D>(c: Cluster<HB>, x: f64, y: f64)
    requires c.wf()
    ensures ({ let h = hits(c.grid(), c.data@, c.data@.len() as int, c.grid().cell(x, y));
        &&& forall|i: usize| i < c.data@.len() && (#[trigger] c.data@[i as int]).bb().covers(x, y) ==> h.contains(i)
        &&& forall|k: int, l: int| 0 <= k < l < h.len() ==> #[trigger] h[k] < #[trigger] h[l]
        &&& forall|k: int| 0 <= k < h.len() ==> (#[trigger] h[k]) < c.data@.len() }),
{
    let g = c.grid(); let n = c.data@.len() as int; let h = hits(g, c.data@, n, g.cell(x, y));
    hits_facts(g, c.data@, n, g.cell(x, y));
    assert forall|i: usize| i < n && (#[trigger] c.data@[i as int]).bb().covers(x, y) implies h.contains(i) by {
        let b = c.data@[i as int].bb();
        assert(g.below(b));
        le_trans(g.sx, b.lo(0), x); le_trans(g.sy, b.lo(1), y);
        ax_mono(g.sx, g.ix, b.lo(0), x); ax_mono(g.sx, g.ix, x, b.hi(0));
        ax_mono(g.sy, g.iy, b.lo(1), y); ax_mono(g.sy, g.iy, y, b.hi(1));
        assert(g.over(b, g.cell(x, y)));
    }
}
//@ impl Cluster
//@ fn new
//@ replace `let mut map: HashMap<(u16, u16), Vec<usize>> = HashMap::new();` => `let mut map: HashMap<Key, Vec<usize>> = HashMap::new();` ; names the same type
//@ replace `&&bb` => `&bb` ; the reference is dereferenced by the call
//@ replace `count_x as f64` => `count_f(count_x)` ; Verus has no cast to floats
//@ replace `count_y as f64` => `count_f(count_y)` ; Verus has no cast to floats
//@ replace `($1) as u16` => `cell_no16($1)` ; Verus has no float to integer cast
//@ replace `map.entry($1).and_modify(|e| e.push($2)).or_insert(vec![$2]);` => `add_to(&mut map, $1, $2);` ; Verus has no entry API
//@ ret r
//@ spec
        requires forall|i: int| 0 <= i < data@.len() ==> (#[trigger] data@[i]).bb().ok(),
        ensures r.is_ok() == (data@.len() > 0), r.is_ok() ==> r->Ok_0.wf() && r->Ok_0.data@ == data@,
//@ loop 0 iter it
//@ loop 0 inv
            invariant it.seq().len() == data@.len(), forall|i: int| 0 <= i < data@.len() ==> *(#[trigger] it.seq()[i]) == data@[i],
                forall|i: int| 0 <= i < data@.len() ==> (#[trigger] data@[i]).bb().ok(), bb_all.is_ok() == (it.index@ > 0),
                bb_all.is_ok() ==> bb_all->Ok_0.ok() && forall|i: int| 0 <= i < it.index@ ==> bb_all->Ok_0.lo(0).ieee_le((#[trigger] data@[i]).bb().lo(0)) && bb_all->Ok_0.lo(1).ieee_le(data@[i].bb().lo(1)),
//@ loop 0 start
            let ghost all0 = bb_all;
//@ loop 0 end
            proof {
                let b = x.bb(); let r = bb_all->Ok_0;
                if all0.is_ok() {
                    let a = all0->Ok_0;
                    merged_below(a, b, r);
                    assert forall|i: int| 0 <= i < it.index@ + 1 implies r.lo(0).ieee_le((#[trigger] data@[i]).bb().lo(0)) && r.lo(1).ieee_le(data@[i].bb().lo(1)) by {
                        if i < it.index@ { le_trans(r.lo(0), a.lo(0), data@[i].bb().lo(0)); le_trans(r.lo(1), a.lo(1), data@[i].bb().lo(1)); }
                    }
                } else { lt_facts(b.lo(0), b.hi(0)); lt_facts(b.lo(1), b.hi(1)); tri(b.lo(0), b.lo(0)); tri(b.lo(1), b.lo(1)); }
            }
//@ before `for (i, x)`
        let ghost g = Grid { sx: start_x, sy: start_y, ix: incr_x, iy: incr_y };
        proof { ax_keys(); ax_step(size_x, count_x); ax_step(size_y, count_y); assert(data.len() == data@.len()); assert forall|i: int| 0 <= i < data@.len() implies g.below((#[trigger] data@[i]).bb()) by { } }
//@ loop 1 iter it
//@ loop 1 inv
            invariant it.seq().len() == data@.len(), forall|i: int| 0 <= i < data@.len() ==> *(#[trigger] it.seq()[i]) == data@[i],
                enum__1 == it.index@, data@.len() <= usize::MAX, g.wf(), forall|i: int| 0 <= i < data@.len() ==> g.below((#[trigger] data@[i]).bb()), g == (Grid { sx: start_x, sy: start_y, ix: incr_x, iy: incr_y }), vstd::std_specs::hash::obeys_key_model::<Key>(),
                forall|c: Key| #[trigger] listed(map@, c) == hits(g, data@, it.index@ as int, c),
//@ loop 1 start
            let ghost m0 = map@; let ghost n = it.index@ as int;
//@ loop 1 end
            proof { assert forall|c: Key| #[trigger] listed(map@, c) == hits(g, data@, n + 1, c) by { assert(listed(m0, c) == hits(g, data@, n, c)); } }
//@ before `for cx`
                proof {
                    let b = x.bb();
                    assert(g.below(data@[n].bb()));
                    lt_facts(b.lo(0), b.hi(0)); lt_facts(b.lo(1), b.hi(1));
                    ax_mono(g.sx, g.ix, b.lo(0), b.hi(0)); ax_mono(g.sy, g.iy, b.lo(1), b.hi(1));
                }
//@ loop 2 iter ix
//@ loop 2 inv
                invariant c_min_x <= c_max_x, c_min_y <= c_max_y, vstd::std_specs::hash::obeys_key_model::<Key>(), forall|c: Key| #[trigger] listed(map@, c) == if c_min_x <= c.0 < c_min_x + ix.index@ && c.0 <= c_max_x && c_min_y <= c.1 <= c_max_y { listed(m0, c).push(i) } else { listed(m0, c) },
//@ loop 2 start
                let ghost px = ix.index@;
//@ loop 3 iter iy
//@ loop 3 inv
                    invariant c_min_y <= c_max_y, vstd::std_specs::hash::obeys_key_model::<Key>(), cx == c_min_x + px, cx <= c_max_x,
                        forall|c: Key| #[trigger] listed(map@, c) == if c_min_x <= c.0 < cx && c_min_y <= c.1 <= c_max_y || c.0 == cx && c_min_y <= c.1 < c_min_y + iy.index@ && c.1 <= c_max_y { listed(m0, c).push(i) } else { listed(m0, c) },
//@ fn for_each_candidate
//@ sigreplace `&mut dyn FnMut(&HB)` => `&mut impl Visit<HB>` ; the callback is any visitor that records its calls
//@ replace `($1) as u16` => `cell_no16($1)` ; Verus has no float to integer cast
//@ replace `f($1);` => `f.visit($1);` ; calling the visitor
//@ spec
        requires self.wf(),
        ensures final(f).seen() == old(f).seen() + self.visited(x, y),
//@ start
        let ghost s0 = f.seen();
        let ghost c = self.grid().cell(x, y);
        let ghost h = hits(self.grid(), self.data@, self.data@.len() as int, c);
        proof { assert(listed(self.map@, c) == h); if h.len() == 0 { assert(s0 =~= s0 + self.visited(x, y)); } hits_facts(self.grid(), self.data@, self.data@.len() as int, c); }
//@ loop 0 iter it
//@ loop 0 inv
                invariant it.seq().len() == h.len(), forall|k: int| 0 <= k < h.len() ==> *(#[trigger] it.seq()[k]) == h[k], forall|k: int| 0 <= k < h.len() ==> (#[trigger] h[k]) < self.data@.len(),
                    f.seen() == s0 + h.take(it.index@ as int).map(|k: int, i: usize| self.data@[i as int]),
//@ loop 0 end
                proof { assert(f.seen() =~= s0 + h.take(it.index@ + 1).map(|k: int, i: usize| self.data@[i as int])); }
//@ loop 0 after
            proof { assert(h.take(h.len() as int) =~= h); assert(f.seen() =~= s0 + self.visited(x, y)); }
//@ enditem
} // verus!
fn main() {}

#!/usr/bin/env python3
"""Writes contracts/c_measure.vc: lengths and centers of gravity, in two and three dimensions."""
import os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..', 'contracts')
s = '''#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::ops::*;
use std::marker::PhantomData;
verus! {
//@include float.inc
broadcast use {vstd::seq_lib::group_seq_properties, fl::ax};
//@include base.inc
//@include num.inc
//@include pos.inc
//@include pos2.inc
//@include pos3.inc
//@include point2.inc
//@include point3.inc
//@include flemmas.inc
//@include dist3.inc
//@include ic_trait.inc
//@include dc_trait.inc
//@include mesh_trait.inc
//@ file src/distances_2d.rs
//@ freefn dist_2d
//@ ret r
//@ spec
    ensures r == f_sqrt(sqr_dist2(p, q)),
//@ enditem
//@ freefn sqr_dist_2d
//@ ret r
//@ spec
    ensures r == sqr_dist2(p, q),
//@ enditem
/// the sum of the squared coordinate differences
pub open spec fn sqr_dist2<P: Is2D, Q: Is2D>(p: &P, q: &Q) -> f64 { sq(p.at(0).ieee_sub(q.at(0))).ieee_add(sq(p.at(1).ieee_sub(q.at(1)))) }
/// the number of positions as a float (assumed: std's cast)
pub uninterp spec fn u2f(x: usize) -> f64;
#[verifier::external_body]
pub fn as_f64(x: usize) -> (r: f64) ensures r == u2f(x) { x as f64 }
/// halfway from p to q in a dimension
pub open spec fn halfway(p: f64, q: f64) -> f64 { p.ieee_add(q.ieee_sub(p).ieee_div(2.0f64)) }
//@ file src/functions.rs
//@ freefn center_2d
//@ ret r
//@ spec
    ensures r.at(0) == halfway(p1.at(0), p2.at(0)), r.at(1) == halfway(p1.at(1), p2.at(1)),
//@ enditem
//@ freefn center_3d
//@ ret r
//@ spec
    ensures r.at(0) == halfway(p1.at(0), p2.at(0)), r.at(1) == halfway(p1.at(1), p2.at(1)), r.at(2) == halfway(p1.at(2), p2.at(2)),
//@ enditem
//@ file src/has_length.rs
//@ trait HasLength
//@ ghost
    spec fn len_of(&self) -> f64;
//@ fn length
//@ ret r
//@ spec
        ensures r == self.len_of(),
//@ enditem
'''
for d in (2, 3):
    s += f'''/// the distances from position to position, up to the n-th
pub open spec fn path{d}<P: Is{d}D>(s: Seq<P>, n: int) -> f64 decreases n {{ if n <= 1 {{ 0.0f64 }} else {{ path{d}(s, n - 1).ieee_add(f_sqrt(sqr_dist{d}(&s[n - 1], &s[n - 2]))) }} }}
/// the sum of the first n coordinates of a dimension
pub open spec fn total{d}<P: Is{d}D>(s: Seq<P>, i: int, n: int) -> f64 decreases n {{ if n <= 0 {{ 0.0f64 }} else {{ total{d}(s, i, n - 1).ieee_add(s[n - 1].at(i)) }} }}
/// r is the mean of the coordinates
pub open spec fn mean{d}<P: Is{d}D>(s: Seq<P>, r: Point{d}D) -> bool {{ forall|i: int| 0 <= i < {d} ==> #[trigger] r.at(i) == total{d}(s, i, s.len() as int).ieee_div(u2f(s.len() as usize)) }}
//@ file src/has_center_of_gravity_{d}d.rs
//@ trait HasCenterOfGravity{d}D
//@ ghost
    /// r is the center of gravity
    spec fn center{d}(&self, r: Option<Point{d}D>) -> bool;
//@ fn center_of_gravity
//@ ret r
//@ spec
        ensures self.center{d}(r),
//@ enditem
//@ file src/point_cloud_{d}d.rs
//@ struct PointCloud{d}D
//@ enditem
'''
    axes = 'xyz'[:d]
    s += f'''//@ impl HasCenterOfGravity{d}D for PointCloud{d}D
//@ ghost
    open spec fn center{d}(&self, r: Option<Point{d}D>) -> bool {{ match r {{ Some(c) => self.data@.len() > 0 && mean{d}(self.data@, c), None => self.data@.len() == 0 }} }}
//@ floatassign
//@ fn center_of_gravity
//@ replace `self.len()` => `self.data.len()` ; the body of len
//@ replace `size as f64` => `as_f64(size)` ; Verus has no cast to floats
//@ loop 0 iter it
//@ loop 0 inv
            invariant it.seq().len() == self.data@.len(), forall|j: int| 0 <= j < it.seq().len() ==> *(#[trigger] it.seq()[j]) == self.data@[j],
                {', '.join(f'sum{a} == total{d}(self.data@, {i}, it.index@)' for i, a in enumerate(axes))},
//@ enditem
//@ impl HasLength for PointCloud{d}D
//@ ghost
    open spec fn len_of(&self) -> f64 {{ path{d}(self.data@, self.data@.len() as int) }}
//@ floatassign
//@ fn length
//@ loop 0 inv
            invariant length == path{d}(self.data@, i as int),
//@ enditem
//@ file src/polygon_{d}d.rs
//@ struct Polygon{d}D
//@ enditem
//@ impl HasCenterOfGravity{d}D for Polygon{d}D
//@ ghost
    open spec fn center{d}(&self, r: Option<Point{d}D>) -> bool {{ self.pc.center{d}(r) }}
//@ fn center_of_gravity
//@ enditem
//@ impl HasLength for Polygon{d}D
//@ ghost
    /// the way around: back to the first position
    open spec fn len_of(&self) -> f64 {{ let s = self.pc.data@; if s.len() == 0 {{ 0.0f64 }} else {{ path{d}(s, s.len() as int).ieee_add(f_sqrt(sqr_dist{d}(&s[s.len() - 1], &s[0]))) }} }}
//@ floatassign
//@ fn length
//@ enditem
//@ file src/line_segment_{d}d.rs
//@ struct LineSegment{d}D
//@ enditem
//@ impl HasLength for LineSegment{d}D
//@ ghost
    open spec fn len_of(&self) -> f64 {{ f_sqrt(sqr_dist{d}(&self.start, &self.end)) }}
//@ fn length
//@ enditem
//@ impl HasCenterOfGravity{d}D for LineSegment{d}D
//@ ghost
    open spec fn center{d}(&self, r: Option<Point{d}D>) -> bool {{ r.is_some() && forall|i: int| 0 <= i < {d} ==> #[trigger] r->Some_0.at(i) == halfway(self.start.at(i), self.end.at(i)) }}
//@ fn center_of_gravity
//@ enditem
'''
s += '''//@ file src/mesh_3d.rs
//@ struct Mesh3D
//@ enditem
//@ impl HasCenterOfGravity3D for Mesh3D
//@ ghost
    open spec fn center3(&self, r: Option<Point3D>) -> bool { self.pc.center3(r) }
//@ fn center_of_gravity
//@ enditem
//@ file src/half_edge.rs
//@ struct HalfEdge
//@ enditem
//@ file src/searchable_mesh.rs
//@ struct SearchableMesh
//@ enditem
//@ impl HasCenterOfGravity3D for SearchableMesh
//@ ghost
    open spec fn center3(&self, r: Option<Point3D>) -> bool { self.mesh.center3(r) }
//@ fn center_of_gravity
//@ enditem
/// a line segment measures what the cloud of its ends measures
pub proof fn segment_is_path(a: LineSegment3D) ensures path3(seq![a.end, a.start], 2) == 0.0f64.ieee_add(a.len_of()) { reveal_with_fuel(path3, 3); }
} fn main() {}
'''
open(os.path.join(OUT, 'c_measure.vc'), 'w').write(s)

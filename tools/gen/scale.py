#!/usr/bin/env python3
"""Writes contracts/c_scale.vc: scaling of the shapes. The bounding boxes of clouds are those of c_bounds.vc."""
import os, re
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..', 'contracts')
src = open(os.path.join(OUT, 'c_bounds.vc')).read().split('\n')

def block(start, end, drop=()):
    """the lines from the one starting with `start` to the next one starting with `end`; without the functions `drop`"""
    a = next(i for i, l in enumerate(src) if l.startswith(start))
    b = next(i for i in range(a, len(src)) if src[i].startswith(end))
    out, skip = [], False
    for l in src[a:b + 1]:
        if l.startswith('//@ fn '):
            skip = l[7:].strip() in drop
        elif l.startswith('//@ enditem'):
            skip = False
        if not skip:
            out.append(l)
    return '\n'.join(out) + '\n'

s = block('#![allow(warnings)]', '//@include listing.inc')
s += block('pub proof fn same_limits', 'pub assume_specification [f64::abs]')
for d in (2, 3):
    BB = f'BoundingBox{d}D'
    s += f'//@ file src/bounding_box_{d}d.rs\n'
    s += block(f'//@ struct {BB}', f'pub open spec fn col{d}r')
    s += block(f'//@ impl {BB}', '//@ enditem', ('from_into_iterator', 'min_p', 'max_p', 'sizes', 'corners'))
s += '''impl vstd::std_specs::ops::MulAssignSpecImpl<Positive> for Positive {
    open spec fn obeys_mul_assign_spec() -> bool { true }
    open spec fn mul_assign_req(&self, o: Positive) -> bool { true }
    open spec fn mul_assign_spec(&self, o: Positive) -> &Positive { &Positive { val: self.val.ieee_mul(o.val) } }
}
//@ file src/positive.rs
//@ impl MulAssign for Positive
//@ floatassign
//@ fn mul_assign
//@ start
        proof { fl::at(self.val, other.val); }
//@ enditem
//@ file src/is_scalable.rs
//@ trait IsScalable
//@ header pub trait IsScalable: Sized
//@ ghost
    spec fn scalable(&self) -> bool;
    /// b is a, scaled by f
    spec fn scaled(a: &Self, b: &Self, f: f64) -> bool;
//@ fn scale
//@ spec
        requires old(self).scalable(),
        ensures Self::scaled(old(self), final(self), factor.val),
//@ enditem
/// halfway from p to q in a dimension
pub open spec fn halfway(p: f64, q: f64) -> f64 { p.ieee_add(q.ieee_sub(p).ieee_div(2.0f64)) }
/// the coordinate x, f times as far from c
pub open spec fn away(c: f64, x: f64, f: f64) -> f64 { c.ieee_add(f.ieee_mul(x.ieee_sub(c))) }
//@ file src/functions.rs
'''
for d in (2, 3):
    s += f'''//@ freefn center_{d}d
//@ ret r
//@ spec
    ensures {', '.join(f'r.at({i}) == halfway(p1.at({i}), p2.at({i}))' for i in range(d))},
//@ enditem
'''

def scalable(ty, body, file=None, struct=None, scalable='true', start='', header=''):
    o = f'//@ file src/{file}.rs\n' if file else ''
    if struct:
        o += f'//@ struct {struct}\n//@ enditem\n'
    return o + f'''//@ impl IsScalable for {ty}
{header}//@ ghost
    open spec fn scalable(&self) -> bool {{ {scalable} }}
    open spec fn scaled(a: &Self, b: &Self, f: f64) -> bool {{ {body} }}
//@ fn scale
{start}//@ enditem
'''

for d in (2, 3):
    BB, P = f'BoundingBox{d}D', f'Point{d}D'
    ax = 'xyz'[:d]
    mid = 'halfway(a.lo(%d), a.hi(%d))'
    half = '0.5f64.ieee_mul(f).ieee_mul(a.hi(%d).ieee_sub(a.lo(%d)))'
    s += scalable(BB, ' && '.join(f'b.lo({i}) == {mid % (i, i)}.ieee_sub({half % (i, i)}) && b.hi({i}) == {mid % (i, i)}.ieee_add({half % (i, i)})' for i in range(d)), f'bounding_box_{d}d', scalable='self.ok()')
    box, ball = (f'Box{d}D', 'Circle' if d == 2 else 'Sphere')
    s += scalable(box, 'b.center == a.center && ' + ' && '.join(f'b.size_{a}.val == a.size_{a}.val.ieee_mul(f)' for a in ax), f'box_{d}d', box)
    s += scalable(ball, 'b.center == a.center && b.radius.val == a.radius.val.ieee_mul(f)', ball.lower(), ball)
    s += scalable(f'FilterBox{d}D', f'{box}::scaled(&a.box_{d}d, &b.box_{d}d, f)', f'filter_box_{d}d', f'FilterBox{d}D')
    s += scalable(f'Filter{ball}', f'{ball}::scaled(&a.{ball.lower()}, &b.{ball.lower()}, f)', f'filter_{ball.lower()}', f'Filter{ball}')
    s += scalable(f'LineSegment{d}D', f'forall|i: int| 0 <= i < {d} ==> #[trigger] b.start.at(i) == away(halfway(a.start.at(i), a.end.at(i)), a.start.at(i), f) && #[trigger] b.end.at(i) == away(halfway(a.start.at(i), a.end.at(i)), a.end.at(i), f)', f'line_segment_{d}d', f'LineSegment{d}D')
    s += f'//@ file src/has_bounding_box_{d}d.rs\n' + block(f'//@ trait HasBoundingBox{d}DMaybe', '//@ enditem')
    s += f'//@ file src/point_cloud_{d}d.rs\n' + block(f'//@ struct PointCloud{d}D', '//@ enditem') + block(f'//@ impl HasBoundingBox{d}DMaybe for PointCloud{d}D', '//@ enditem')
    s += f'''/// the position q is p, f times as far from the middle of lo and hi
pub open spec fn moved_away{d}<P: Is{d}D>(c: PointCloud{d}D<P>, p: P, q: P, f: f64) -> bool {{ q.rest() == p.rest() && forall|i: int| 0 <= i < {d} ==> #[trigger] q.at(i) == away(halfway(c.bb_lo(i), c.bb_hi(i)), p.at(i), f) }}
'''
    s += scalable(f'PointCloud{d}D', f'b.data@.len() == a.data@.len() && (a.has_bb() ==> forall|j: int| 0 <= j < a.data@.len() ==> moved_away{d}(*a, a.data@[j], #[trigger] b.data@[j], f))', start=f'''//@ loop 0 iter it
//@ loop 0 inv
                invariant old(self).has_bb(), {', '.join(f'c.at({i}) == halfway(old(self).bb_lo({i}), old(self).bb_hi({i}))' for i in range(d))},
                    forall|j: int| 0 <= j < it.index@ ==> moved_away{d}(*old(self), old(self).data@[j], #[trigger] final(self).data@[j], factor.val),
''')
    s += scalable(f'Polygon{d}D', f'PointCloud{d}D::scaled(&a.pc, &b.pc, f)', f'polygon_{d}d', f'Polygon{d}D')
s += '''//@ file src/mesh_3d.rs
//@ struct Mesh3D
//@ replace `ID: IsDataContainer<P>,` => `` ; not needed to scale the vertices
//@ replace `IC: IsIndexContainer,` => `` ; as above
//@ enditem
''' + scalable('Mesh3D', 'ID::scaled(&a.pc, &b.pc, f) && b.topology == a.topology', scalable='self.pc.scalable()', header='//@ header impl<P: IsEditable3D, ID: IsScalable, IC> IsScalable for Mesh3D<P, ID, IC>\n')
s += '''//@ file src/searchable_mesh.rs
//@ struct SearchableMesh
//@ replace `M: IsMesh<T, Face3>,` => `` ; not needed to scale the mesh
//@ replace `IC: IsIndexContainer,` => `` ; as above
//@ replace `HalfEdge<IC>` => `IC` ; as above
//@ enditem
''' + scalable('SearchableMesh', 'M::scaled(&a.mesh, &b.mesh, f) && b.he == a.he', scalable='self.mesh.scalable()', header='//@ header impl<M: IsScalable, T, IC> IsScalable for SearchableMesh<M, T, IC>\n')
s += '''//@ file src/filter_outlier_3d.rs
//@ struct FilterOutlier3D
//@ replace `S: IsSphereSearchable<P>,` => `` ; not needed to scale the filter
//@ replace `RefCell<Vec<P>>` => `Vec<P>` ; as above
//@ enditem
''' + scalable('FilterOutlier3D', 'b.search_distance.val == a.search_distance.val.ieee_mul(f) && b.min_neighbours == a.min_neighbours && b.searchable == a.searchable', header='//@ header impl<S, P: Is3D> IsScalable for FilterOutlier3D<S, P>\n')
s += '} fn main() {}\n'
open(os.path.join(OUT, 'c_scale.vc'), 'w').write(s)

#!/usr/bin/env python3
# writes contracts/c_matrix.vc (2D and 3D differ in their dimension only)
import os
D = {
 2: dict(n=3, X='xy', pt='Point2D', is_='is_2d', Is='Is2D', bld='is_buildable_2d', Bld='IsBuildable2D'),
 3: dict(n=4, X='xyz', pt='Point3D', is_='is_3d', Is='Is3D', bld='is_buildable_3d', Bld='IsBuildable3D'),
}
o = []
w = o.append
w('''#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::marker::PhantomData;
use std::ops::*;
verus! {
//@include float.inc
//@include whole.inc
broadcast use {vstd::seq_lib::group_seq_properties, fl::ax, wh::ax};
//@include base.inc
#[derive(Clone, Copy)]
pub struct Rad(pub f64);
pub uninterp spec fn f_sin(x: f64) -> f64;
pub assume_specification [f64::tan](x: f64) -> (r: f64);
pub uninterp spec fn f_cos(x: f64) -> f64;
pub assume_specification [f64::sin](x: f64) -> (r: f64) ensures r == f_sin(x);
pub assume_specification [f64::cos](x: f64) -> (r: f64) ensures r == f_cos(x);
/// `clone` of this type yields an equal value
pub open spec fn clone_ok<P: Clone>() -> bool { forall|a: P, b: P| #[trigger] cloned(a, b) ==> a == b }
/// ghost only: the coordinates of a position
pub trait Coords { spec fn at(&self, i: int) -> f64; }''')
def tot(ts): return ' + '.join(ts)
for d, k in D.items():
    n = k['n']; M = f'Matrix{n}'; R = range(n); xs = k['X']
    term = lambda a, b, i, j, t: f'{a}({i}, {t}) * {b}({t}, {j})'
    w(f'''// ---- {M}
//@ file src/matrix{n}.rs
//@ struct {M}
//@ enditem
/// the entries as integers
pub open spec fn z{n}(m: {M}) -> Z {{ |i: int, j: int| val(m.data[i][j]) }}
/// all entries are whole numbers
pub open spec fn whole{n}(m: {M}) -> bool {{ forall|i: int, j: int| 0 <= i < {n} && 0 <= j < {n} ==> whole(#[trigger] m.data[i][j]) }}
/// all entries are whole numbers of at most b
pub open spec fn upto{n}(m: {M}, b: int) -> bool {{ forall|i: int, j: int| 0 <= i < {n} && 0 <= j < {n} ==> whole(#[trigger] m.data[i][j]) && -b <= val(m.data[i][j]) <= b }}
/// m holds exactly these integers
pub open spec fn is{n}(m: {M}, a: Z) -> bool {{ forall|i: int, j: int| 0 <= i < {n} && 0 <= j < {n} ==> is(#[trigger] m.data[i][j], a(i, j)) }}
/// the product of integer matrices
pub open spec fn mul{n}(a: Z, b: Z) -> Z {{ |i: int, j: int| {tot(term('a', 'b', 'i', 'j', t) for t in R)} }}
/// the sum of the magnitudes added up for entry i, j of the product
pub open spec fn mag{n}(a: Z, b: Z, i: int, j: int) -> int {{ {tot('abs(' + term('a', 'b', 'i', 'j', t) + ')' for t in R)} }}
/// entry i, j of the product a * b
pub open spec fn entry{n}(a: {M}, b: {M}, i: int, j: int, x: f64) -> bool {{ whole{n}(a) && whole{n}(b) && mag{n}(z{n}(a), z{n}(b), i, j) <= lim() ==> is(x, mul{n}(z{n}(a), z{n}(b))(i, j)) }}
/// r is the product of a and b (for whole numbers small enough to be exact)
pub open spec fn product{n}(a: {M}, b: {M}, r: {M}) -> bool {{ forall|i: int, j: int| 0 <= i < {n} && 0 <= j < {n} ==> entry{n}(a, b, i, j, #[trigger] r.data[i][j]) }}
/// products of matrices with small entries are exact
pub proof fn product_upto{n}(a: {M}, b: {M}, r: {M}, p: int, q: int)
    requires product{n}(a, b, r), upto{n}(a, p), upto{n}(b, q), 0 <= p, 0 <= q, {n} * (p * q) <= lim()
    ensures upto{n}(r, {n} * (p * q)), is{n}(r, mul{n}(z{n}(a), z{n}(b)))
{{
    assert forall|i: int, j: int| 0 <= i < {n} && 0 <= j < {n} implies whole(#[trigger] r.data[i][j]) && -({n} * (p * q)) <= val(r.data[i][j]) <= {n} * (p * q) && val(r.data[i][j]) == mul{n}(z{n}(a), z{n}(b))(i, j) by {{''')
    for t in R:
        w(f'        assert(whole(a.data[i][{t}]) && whole(b.data[{t}][j])); bounded(val(a.data[i][{t}]), val(b.data[{t}][j]), p, q);')
    w(f'''        assert(whole{n}(a) && whole{n}(b));
        assert(entry{n}(a, b, i, j, r.data[i][j]));
    }}
}}
/// three factors
pub proof fn triple{n}(a: {M}, b: {M}, c: {M}, t: {M}, r: {M}, za: Z, zb: Z, zc: Z)
    requires is{n}(a, za), is{n}(b, zb), is{n}(c, zc), is{n}(t, mul{n}(z{n}(a), z{n}(b))), is{n}(r, mul{n}(z{n}(t), z{n}(c)))
    ensures is{n}(r, mul{n}(mul{n}(za, zb), zc))
{{
    assert forall|i: int, j: int| 0 <= i < {n} && 0 <= j < {n} implies val(#[trigger] r.data[i][j]) == mul{n}(mul{n}(za, zb), zc)(i, j) by {{
        let ab = mul{n}(za, zb);
        {' '.join(f'assert(val(t.data[i][{u}]) == ab(i, {u})) by {{ assert(is(t.data[i][{u}], mul{n}(z{n}(a), z{n}(b))(i, {u}))); ' + ' '.join(f'assert(is(a.data[i][{v}], za(i, {v})) && is(b.data[{v}][{u}], zb({v}, {u})));' for v in R) + ' }' for u in R)}
        {' '.join(f'assert(is(c.data[{u}][j], zc({u}, j)));' for u in R)}
        assert(is(r.data[i][j], mul{n}(z{n}(t), z{n}(c))(i, j)));
    }}
}}
''')
    gen = f'forall|i: int, j: int| 0 <= i < {n} && 0 <= j < {n} ==> '
    args = ', '.join(f'{x}: f64' for x in xs)
    trans = f"{gen}#[trigger] r.data[i][j] == (if j < {d} {{ if i == j {{ 1.0f64 }} else {{ 0.0f64 }} }} {' '.join(f'else if i == {t} {{ {x} }}' for t, x in enumerate(xs))} else {{ 1.0f64 }})"
    scal = f"{gen}#[trigger] r.data[i][j] == (if i != j {{ 0.0f64 }} {' '.join(f'else if i == {t} {{ {x} }}' for t, x in enumerate(xs))} else {{ 1.0f64 }})"
    if d == 2:
        ra = 'rad: Rad'
        rotd = 'forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] r.data[i][j] == (if i == 2 || j == 2 { if i == j { 1.0f64 } else { 0.0f64 } } else if i == j { f_cos(rad.0) } else if i == 0 { f_sin(rad.0).ieee_neg() } else { f_sin(rad.0) })'
    else:
        ra = 'x: Rad, y: Rad, z: Rad'
        rotd = 'few(f_sin(x.0)) && few(f_cos(x.0)) && few(f_sin(y.0)) && few(f_cos(y.0)) && few(f_sin(z.0)) && few(f_cos(z.0)) ==> is4(r, mul4(mul4(rot(0, x.0), rot(1, y.0)), rot(2, z.0)))'
    if d == 3: o.append('@ROT@')
    w(f'''/// the matrix that moves by the given distances
pub open spec fn translates{n}(r: {M}, {args}) -> bool {{ {trans} }}
/// the matrix that scales by the given factors
pub open spec fn scales{n}(r: {M}, {args}) -> bool {{ {scal} }}
/// the matrix that rotates
pub open spec fn rotates{n}(r: {M}, {ra}) -> bool {{ {rotd} }}
//@ file src/matrix{n}.rs
//@ impl {M}''')
    w(f'''//@ fn identity
//@ ret r
//@ spec
        ensures {gen}#[trigger] r.data[i][j] == (if i == j {{ 1.0f64 }} else {{ 0.0f64 }}),
//@ fn zeroes
//@ ret r
//@ spec
        ensures {gen}#[trigger] r.data[i][j] == 0.0f64,
//@ fn translation
//@ ret r
//@ spec
        ensures translates{n}(r, {', '.join(xs)}),
//@ fn scale
//@ ret r
//@ spec
        ensures scales{n}(r, {', '.join(xs)}),
//@ fn rotation''')
    if d == 2:
        w('''//@ negate
//@ ret r
//@ spec
        ensures rotates3(r, rad),''')
    else:
        w('''//@ negate
//@ ret r
//@ spec
        ensures rotates4(r, x, y, z),
//@ tail
        proof {
            lits();
            if few(f_sin(x.0)) && few(f_cos(x.0)) && few(f_sin(y.0)) && few(f_cos(y.0)) && few(f_sin(z.0)) && few(f_cos(z.0)) {
                turns(mx, my, mz, x.0, y.0, z.0);
            }
        }''')
    if d == 3:
        w('''//@ fn rotation_axis
//@ ret ret
//@ spec
        ensures spins(ret, *axis, r.0),
//@ start
        proof { lits(); if few(f_sin(r.0)) && few(f_cos(r.0)) && few(axis.at(0)) && few(axis.at(1)) && few(axis.at(2)) { small(*axis, val(f_sin(r.0)), val(f_cos(r.0))); } }
//@ fn perspective
//@ negate
//@ start
        proof { fl::at(fov.0, 2.0f64); }''')
    w('//@ enditem')
    w(f'''//@ impl Default for {M}
//@ fn default
//@ ret r
//@ spec
        ensures {gen}#[trigger] r.data[i][j] == (if i == j {{ 1.0f64 }} else {{ 0.0f64 }}),
//@ enditem''')
    for kind, sel, typ, ref in (('M', 'Mul for ' + M, M, M), ('MR', f'Mul<&{M}> for {M}', M, f"&'a {M}"), ('R', f'Mul for &{M}', f"&'a {M}", f"&'a {M}")):
        lt = "<'a>" if "'a" in typ + ref else ''
        s = 'self' if not typ.startswith('&') else '*self'; ot = 'other' if not ref.startswith('&') else '*other'
        w(f'''impl{lt} vstd::std_specs::ops::MulSpecImpl<{ref}> for {typ} {{
    open spec fn obeys_mul_spec() -> bool {{ false }}
    open spec fn mul_req(self, other: {ref}) -> bool {{ true }}
    open spec fn mul_spec(self, other: {ref}) -> {M} {{ arbitrary() }}
}}
//@ impl {sel}
//@ type Output
//@ fn mul
//@ ret r
//@ spec
        ensures product{n}({s}, {ot}, r),
//@ loop 0 inv
            invariant forall|a: int, b: int| 0 <= a < i && 0 <= b < {n} ==> entry{n}({s}, {ot}, a, b, #[trigger] result.data[a][b]),
//@ loop 1 inv
                invariant 0 <= i < {n}, forall|a: int, b: int| 0 <= b < {n} && (0 <= a < i || a == i && b < j) ==> entry{n}({s}, {ot}, a, b, #[trigger] result.data[a][b]),
//@ enditem''')
    for typ, me in ((M, 'self'), (f"&'a {M}", '(*self)')):
        lt = "<'a>" if "'a" in typ else ''
        w(f'''impl{lt} vstd::std_specs::ops::MulSpecImpl<f64> for {typ} {{
    open spec fn obeys_mul_spec() -> bool {{ false }}
    open spec fn mul_req(self, other: f64) -> bool {{ true }}
    open spec fn mul_spec(self, other: f64) -> {M} {{ arbitrary() }}
}}
//@ impl Mul<f64> for {typ.replace("'a ", '')}
//@ type Output
//@ fn mul
//@ ret r
//@ spec
        ensures forall|i: int, j: int| 0 <= i < {n} && 0 <= j < {n} ==> #[trigger] r.data[i][j] == other.ieee_mul({me}.data[i][j]),
//@ loop 0 inv
            invariant forall|a: int, b: int| 0 <= a < i && 0 <= b < {n} ==> #[trigger] result.data[a][b] == other.ieee_mul({me}.data[a][b]),
//@ loop 1 inv
                invariant 0 <= i < {n}, forall|a: int, b: int| 0 <= b < {n} && (0 <= a < i || a == i && b < j) ==> #[trigger] result.data[a][b] == other.ieee_mul({me}.data[a][b]),
//@ enditem''')
    # ---- the pipe
    stages = ['mtranslation', 'mrotation', 'mscale'] if d == 2 else ['mperspective', 'mcamlook', 'mcamtrans', 'mtranslation', 'mrotation', 'mscale']
    zs = [f'z{n}(self.{x})' for x in stages]
    prod = zs[0]
    for x in zs[1:]: prod = f'mul{n}({prod}, {x})'
    rad = 'rad: Rad' 
    def frame(but): return ', '.join(f'final(self).{x} == old(self).{x}' for x in stages if x != but)
    ident = lambda f: f'unit{n}(final(self).{f})'
    w(f'''/// the identity
pub open spec fn unit{n}(m: {M}) -> bool {{ forall|i: int, j: int| 0 <= i < {n} && 0 <= j < {n} ==> #[trigger] m.data[i][j] == (if i == j {{ 1.0f64 }} else {{ 0.0f64 }}) }}
//@ file src/matrix{n}_pipe.rs
//@ struct {M}Pipe
//@ enditem
//@ impl {M}Pipe
//@ fn result
//@ ret r
//@ spec
        ensures {' && '.join(f'upto{n}(self.{x}, 64)' for x in stages)} ==> is{n}(r, {prod}),
//@ start
        proof {{ if {' && '.join(f'upto{n}(self.{x}, 64)' for x in stages)} {{ chain{n}(*self); }} }}
//@ fn add_translation
//@ spec
        ensures translates{n}(final(self).mtranslation, {', '.join(xs)}), {frame('mtranslation')},
//@ fn remove_translation
//@ spec
        ensures {ident('mtranslation')}, {frame('mtranslation')},
//@ fn add_rotation
//@ spec
        ensures rotates{n}(final(self).mrotation, {'rad' if d == 2 else 'x, y, z'}), {frame('mrotation')},
//@ fn remove_rotation
//@ spec
        ensures {ident('mrotation')}, {frame('mrotation')},
//@ fn add_scale
//@ spec
        ensures scales{n}(final(self).mscale, {', '.join(xs)}), {frame('mscale')},
//@ fn remove_scale
//@ spec
        ensures {ident('mscale')}, {frame('mscale')},''')
    if d == 3:
        w(f'''//@ fn add_perspective
//@ spec
        ensures {frame('mperspective')},
//@ fn remove_perspective
//@ spec
        ensures {ident('mperspective')}, {frame('mperspective')},
//@ fn add_camera_translation
//@ negate
//@ spec
        ensures translates4(final(self).mcamtrans, x.ieee_neg(), y.ieee_neg(), z.ieee_neg()), {frame('mcamtrans')},
//@ fn add_rotation_axis
//@ spec
        ensures spins(final(self).mrotation, *axis, rad.0), {frame('mrotation')},
//@ fn remove_camera_translation
//@ spec
        ensures {ident('mcamtrans')}, {frame('mcamtrans')},
//@ fn remove_look_at
//@ spec
        ensures {ident('mcamlook')}, {frame('mcamlook')},''')
    w('//@ enditem')
    # proof that the chain of products is exact
    k = len(stages)
    ts = [f't{i}' for i in range(1, k)]
    conds = [f'product{n}(p.{stages[0]}, p.{stages[1]}, t1)'] + [f'product{n}(t{i-1}, p.{stages[i]}, t{i})' for i in range(2, k)]
    pz = [f'z{n}(p.{x})' for x in stages]
    acc = pz[0]; body = ''; b = 64
    for i in range(1, k):
        a = f'p.{stages[0]}' if i == 1 else f't{i-1}'
        body += f'        assert(product{n}({a}, p.{stages[i]}, t{i})); product_upto{n}({a}, p.{stages[i]}, t{i}, {b}int, 64int);\n'
        if i > 1: body += f'        same_product{n}(t{i-1}, p.{stages[i]}, t{i}, {acc});\n'
        acc = f'mul{n}({acc}, {pz[i]})'
        b = n * b * 64
    pacc = acc
    w(f'''/// the product with a matrix known as integers
pub proof fn same_product{n}(t: {M}, b: {M}, r: {M}, za: Z)
    requires is{n}(t, za), is{n}(r, mul{n}(z{n}(t), z{n}(b)))
    ensures is{n}(r, mul{n}(za, z{n}(b)))
{{
    assert forall|i: int, j: int| 0 <= i < {n} && 0 <= j < {n} implies val(#[trigger] r.data[i][j]) == mul{n}(za, z{n}(b))(i, j) by {{
        {' '.join(f'assert(is(t.data[i][{u}], za(i, {u})));' for u in R)}
        assert(is(r.data[i][j], mul{n}(z{n}(t), z{n}(b))(i, j)));
    }}
}}
pub proof fn chain{n}(p: {M}Pipe)
    requires {', '.join(f'upto{n}(p.{x}, 64)' for x in stages)}
    ensures forall|{', '.join(t + ': ' + M for t in ts)}| {' && '.join('#[trigger] ' + c for c in conds)} ==> is{n}(t{k-1}, {pacc})
{{
    assert forall|{', '.join(t + ': ' + M for t in ts)}| {' && '.join('#[trigger] ' + c for c in conds)} implies is{n}(t{k-1}, {pacc}) by {{
{body}    }}
}}''')
# ---- positions and collections of them
w('''//@ file src/is_normalized_3d.rs
//@ trait IsNormalized3D
//@ header pub trait IsNormalized3D: Is3D
//@ enditem''')
for d, k in D.items():
    n = k['n']; M = f'Matrix{n}'; xs = k['X']; pt = k['pt']; Is = k['Is']; Bld = k['Bld']
    T = f'IsMatrix{n}Transformable'
    w(f'''// ---- positions in {d}D
//@ file src/{k['is_']}.rs
//@ trait {Is}
//@ header pub trait {Is}: Coords''')
    for i, x in enumerate(xs):
        w(f'''//@ fn {x}
//@ ret r
//@ spec
        ensures r == self.at({i}),''')
    row = lambda r: ' + '.join(f'z{n}(m)({r}, {i}) * val(p.at({i}))' for i in range(d)) + f' + z{n}(m)({r}, {d})'
    rowm = lambda r: ' + '.join(f'abs(z{n}(m)({r}, {i}) * val(p.at({i})))' for i in range(d)) + f' + abs(z{n}(m)({r}, {d}))'
    w(f'''//@ enditem
/// r is the coordinate of p mapped by m in the given row (for whole numbers small enough to be exact)
pub open spec fn image{d}<P: {Is}>(m: {M}, row: int, p: P, r: f64) -> bool {{
    whole{n}(m) && {' && '.join(f'whole(p.at({i}))' for i in range(d))} && {rowm('row')} <= lim() ==> is(r, {row('row')})
}}
/// r is p mapped by m
pub open spec fn mapped{d}<P: {Is}>(m: {M}, p: P, r: P) -> bool {{ {' && '.join(f'image{d}(m, {i}, p, r.at({i}))' for i in range(d))} }}
//@ file src/{k['bld']}.rs
//@ trait {Bld}
//@ header pub trait {Bld}: Sized + {Is}
//@ fn new
//@ ret r
//@ spec
        ensures {', '.join(f'r.at({i}) == {x}' for i, x in enumerate(xs))},
//@ fn multiply_m default
//@ ret r
//@ spec
        ensures mapped{d}(*m, *self, r),
//@ enditem
//@ file src/is_matrix{n}_transformable.rs
//@ trait {T}
//@ header pub trait {T}: Sized
//@ ghost
    spec fn mapped(m: {M}, a: Self, b: Self) -> bool;
    /// clones of its parts are equal to them
    spec fn copies() -> bool;
//@ fn transformed
//@ ret r
//@ spec
        requires Self::copies(),
        ensures Self::mapped(*m, *self, r),
//@ fn transform
//@ spec
        ensures Self::mapped(*m, *old(self), *final(self)),
//@ enditem
//@ file src/{k['pt'].lower().replace('point', 'point_')}.rs
//@ struct {pt}
//@ attrs
#[derive(PartialEq)]
//@ enditem
/// derived
impl Clone for {pt} {{ fn clone(&self) -> (r: Self) ensures r == *self {{ {pt} {{ {', '.join(f'{x}: self.{x}' for x in xs)} }} }} }}
impl Coords for {pt} {{ open spec fn at(&self, i: int) -> f64 {{ {' else '.join(f'if i == {i} {{ self.{x} }}' for i, x in enumerate(xs[:-1]))} else {{ self.{xs[-1]} }} }} }}
//@ impl {Is} for {pt}
{chr(10).join('//@ fn ' + x for x in xs)}
//@ enditem
//@ impl {Bld} for {pt}
//@ fn new
//@ enditem
//@ impl {T} for {pt}
//@ ghost
    open spec fn mapped(m: {M}, a: Self, b: Self) -> bool {{ mapped{d}(m, a, b) }}
    open spec fn copies() -> bool {{ true }}
//@ fn transformed
//@ fn transform
//@ enditem
//@ file src/line_segment_{d}d.rs
//@ struct LineSegment{d}D
//@ enditem
/// derived
impl Clone for LineSegment{d}D {{ fn clone(&self) -> (r: Self) ensures r == *self {{ LineSegment{d}D {{ start: self.start.clone(), end: self.end.clone() }} }} }}
//@ impl {T} for LineSegment{d}D
//@ ghost
    open spec fn mapped(m: {M}, a: Self, b: Self) -> bool {{ mapped{d}(m, a.start, b.start) && mapped{d}(m, a.end, b.end) }}
    open spec fn copies() -> bool {{ true }}
//@ fn transformed
//@ fn transform
//@ enditem
//@ file src/point_cloud_{d}d.rs
//@ struct PointCloud{d}D
//@ enditem
/// derived
impl<P: {Is} + Clone> Clone for PointCloud{d}D<P> {{ fn clone(&self) -> (r: Self) ensures r.data@.len() == self.data@.len(), forall|i: int| 0 <= i < self.data@.len() ==> cloned(#[trigger] self.data@[i], r.data@[i]) {{ PointCloud{d}D {{ data: self.data.clone() }} }} }}
//@ impl {T} for PointCloud{d}D
//@ ghost
    open spec fn mapped(m: {M}, a: Self, b: Self) -> bool {{ b.data@.len() == a.data@.len() && forall|i: int| 0 <= i < a.data@.len() ==> P::mapped(m, #[trigger] a.data@[i], b.data@[i]) }}
    open spec fn copies() -> bool {{ clone_ok::<P>() }}
//@ fn transformed
//@ fn transform
//@ loop 0 iter it
//@ loop 0 inv
            invariant forall|i: int| 0 <= i < it.index@ ==> P::mapped(*m, #[trigger] old(self).data@[i], final(self).data@[i]),
//@ enditem
//@ file src/polygon_{d}d.rs
//@ struct Polygon{d}D
//@ enditem
/// derived
impl<P: {Bld} + Clone> Clone for Polygon{d}D<P> {{ fn clone(&self) -> (r: Self) ensures call_ensures(PointCloud{d}D::<P>::clone, (&self.pc,), r.pc) {{ Polygon{d}D {{ pc: self.pc.clone() }} }} }}
//@ impl {T} for Polygon{d}D
//@ ghost
    open spec fn mapped(m: {M}, a: Self, b: Self) -> bool {{ PointCloud{d}D::<P>::mapped(m, a.pc, b.pc) }}
    open spec fn copies() -> bool {{ clone_ok::<P>() }}
//@ fn transformed
//@ fn transform
//@ enditem''')
w('''//@ file src/mesh_3d.rs
//@ struct Mesh3D
//@ replace `ID: IsDataContainer<P>,` => `` ; not needed to map the vertices
//@ replace `IC: IsIndexContainer,` => `` ; as above
//@ enditem
/// derived
impl<P: Is3D, ID: Clone, IC: Clone> Clone for Mesh3D<P, ID, IC> { fn clone(&self) -> (r: Self) ensures cloned(self.pc, r.pc), cloned(self.topology, r.topology) { Mesh3D { pc: self.pc.clone(), topology: self.topology.clone(), _phantom: PhantomData } } }
//@ impl IsMatrix4Transformable for Mesh3D
//@ header impl<P: Is3D + Clone, ID: IsMatrix4Transformable + Clone, IC: Clone> IsMatrix4Transformable for Mesh3D<P, ID, IC>
//@ ghost
    /// the faces stay the same
    open spec fn mapped(m: Matrix4, a: Self, b: Self) -> bool { ID::mapped(m, a.pc, b.pc) && b.topology == a.topology }
    open spec fn copies() -> bool { clone_ok::<ID>() && clone_ok::<IC>() }
//@ fn transformed
//@ fn transform
//@ enditem
} fn main() {}''')
rot = '''/// component of the cross product with the axis u, times s
pub open spec fn turn<N: Is3D>(u: N, s: int, i: int, j: int) -> int {
    if i == j { 0int } else if (i + 1) % 3 == j { -(val(u.at(3 - i - j)) * s) } else { val(u.at(3 - i - j)) * s }
}
/// the products that occur, in any order
pub proof fn small<N: Is3D>(u: N, s: int, c: int)
    requires few(u.at(0)), few(u.at(1)), few(u.at(2)), -64 <= s <= 64, -64 <= c <= 64
    ensures forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> -0x1000 <= #[trigger] (val(u.at(i)) * val(u.at(j))) <= 0x1000 && val(u.at(i)) * val(u.at(j)) == val(u.at(j)) * val(u.at(i)),
        forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> -0x50000 <= #[trigger] (val(u.at(i)) * val(u.at(j)) * (1 - c)) <= 0x50000 && val(u.at(i)) * val(u.at(j)) * (1 - c) == val(u.at(j)) * val(u.at(i)) * (1 - c),
        forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] ((1 - c) * (val(u.at(i)) * val(u.at(j)))) == val(u.at(i)) * val(u.at(j)) * (1 - c),
        forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] ((1 - c) * val(u.at(i)) * val(u.at(j))) == val(u.at(i)) * val(u.at(j)) * (1 - c),
        forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] (val(u.at(i)) * (1 - c) * val(u.at(j))) == val(u.at(i)) * val(u.at(j)) * (1 - c),
        forall|i: int| 0 <= i < 3 ==> -0x2000 <= #[trigger] ((1 - c) * val(u.at(i))) <= 0x2000,
        forall|i: int| 0 <= i < 3 ==> -0x2000 <= #[trigger] (val(u.at(i)) * (1 - c)) <= 0x2000,
        forall|i: int| 0 <= i < 3 ==> -0x1000 <= #[trigger] (val(u.at(i)) * s) <= 0x1000,
        forall|i: int| 0 <= i < 3 ==> #[trigger] (s * val(u.at(i))) == val(u.at(i)) * s,
{
    assert forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 implies -0x1000 <= #[trigger] (val(u.at(i)) * val(u.at(j))) <= 0x1000 && val(u.at(i)) * val(u.at(j)) == val(u.at(j)) * val(u.at(i)) by {
        bounded(val(u.at(i)), val(u.at(j)), 64, 64); assert(val(u.at(i)) * val(u.at(j)) == val(u.at(j)) * val(u.at(i))) by(nonlinear_arith);
    }
    assert forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 implies -0x50000 <= #[trigger] (val(u.at(i)) * val(u.at(j)) * (1 - c)) <= 0x50000 && val(u.at(i)) * val(u.at(j)) * (1 - c) == val(u.at(j)) * val(u.at(i)) * (1 - c) by {
        bounded(val(u.at(i)), val(u.at(j)), 64, 64); bounded(val(u.at(i)) * val(u.at(j)), 1 - c, 0x1000, 0x50);
        assert(val(u.at(i)) * val(u.at(j)) == val(u.at(j)) * val(u.at(i))) by(nonlinear_arith);
    }
    let t = 1 - c;
    assert forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 implies #[trigger] ((1 - c) * (val(u.at(i)) * val(u.at(j)))) == val(u.at(i)) * val(u.at(j)) * (1 - c) by { rot3(val(u.at(i)), val(u.at(j)), t); }
    assert forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 implies #[trigger] ((1 - c) * val(u.at(i)) * val(u.at(j))) == val(u.at(i)) * val(u.at(j)) * (1 - c) by { rot3(val(u.at(i)), val(u.at(j)), t); }
    assert forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 implies #[trigger] (val(u.at(i)) * (1 - c) * val(u.at(j))) == val(u.at(i)) * val(u.at(j)) * (1 - c) by { rot3(val(u.at(i)), val(u.at(j)), t); }
    assert forall|i: int| 0 <= i < 3 implies -0x2000 <= #[trigger] ((1 - c) * val(u.at(i))) <= 0x2000 by { bounded(1 - c, val(u.at(i)), 65, 64); }
    assert forall|i: int| 0 <= i < 3 implies -0x2000 <= #[trigger] (val(u.at(i)) * (1 - c)) <= 0x2000 by { bounded(val(u.at(i)), 1 - c, 64, 65); }
    assert forall|i: int| 0 <= i < 3 implies -0x1000 <= #[trigger] (val(u.at(i)) * s) <= 0x1000 by { bounded(val(u.at(i)), s, 64, 64); }
    assert forall|i: int| 0 <= i < 3 implies #[trigger] (s * val(u.at(i))) == val(u.at(i)) * s by { rot3(s, val(u.at(i)), 1); }
}
pub proof fn rot3(a: int, b: int, t: int)
    ensures t * (a * b) == a * b * t, t * a * b == a * b * t, a * t * b == a * b * t, a * b == b * a
{
    assert(t * (a * b) == a * b * t && t * a * b == a * b * t && a * t * b == a * b * t && a * b == b * a) by(nonlinear_arith);
}
/// m is the rotation by rad around the axis u
pub open spec fn spins<N: Is3D>(m: Matrix4, u: N, rad: f64) -> bool {
    few(f_sin(rad)) && few(f_cos(rad)) && few(u.at(0)) && few(u.at(1)) && few(u.at(2)) ==> is4(m, |i: int, j: int|
        if i == 3 || j == 3 { if i == j { 1 } else { 0int } }
        else { (if i == j { val(f_cos(rad)) } else { 0int }) + val(u.at(i)) * val(u.at(j)) * (1 - val(f_cos(rad))) + turn(u, val(f_sin(rad)), i, j) })
}
/// a whole number of at most 64
pub open spec fn few(x: f64) -> bool { whole(x) && -64 <= val(x) <= 64 }
/// the rotation around an axis (0: x, 1: y, 2: z)
pub open spec fn rot(axis: int, rad: f64) -> Z { |i: int, j: int|
    if i == axis || j == axis || i == 3 || j == 3 { if i == j { 1 } else { 0int } }
    else if i == j { val(f_cos(rad)) }
    else if (j - i + 3) % 3 == 1 { -val(f_sin(rad)) }
    else { val(f_sin(rad)) }
}
pub proof fn turns(mx: Matrix4, my: Matrix4, mz: Matrix4, x: f64, y: f64, z: f64)
    requires is4(mx, rot(0, x)), is4(my, rot(1, y)), is4(mz, rot(2, z)), few(f_sin(x)), few(f_cos(x)), few(f_sin(y)), few(f_cos(y)), few(f_sin(z)), few(f_cos(z))
    ensures forall|t: Matrix4, r: Matrix4| #[trigger] product4(mx, my, t) && #[trigger] product4(t, mz, r) ==> is4(r, mul4(mul4(rot(0, x), rot(1, y)), rot(2, z)))
{
    assert(upto4(mx, 64) && upto4(my, 64) && upto4(mz, 64));
    assert forall|t: Matrix4, r: Matrix4| #[trigger] product4(mx, my, t) && #[trigger] product4(t, mz, r) implies is4(r, mul4(mul4(rot(0, x), rot(1, y)), rot(2, z))) by {
        product_upto4(mx, my, t, 64, 64);
        product_upto4(t, mz, r, 0x4000int, 64);
        triple4(mx, my, mz, t, r, rot(0, x), rot(1, y), rot(2, z));
    }
}
'''
s = '\n'.join(o).replace('@ROT@', rot)
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '../../contracts/c_matrix.vc'), 'w').write(s + '\n')

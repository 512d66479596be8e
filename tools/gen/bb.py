V='/verif/contracts/'
def w(f,t): open(V+f,'w').write(t)
w('flemmas.inc','''// facts about IEEE comparison and subtraction, proved at bit level
pub open spec fn nan(x: f64) -> bool { !x.ieee_eq(x) }
pub proof fn diff_pos(x: f64, y: f64) requires x.ieee_lt(y) ensures 0.0f64.ieee_lt(y.ieee_sub(x)), x.ieee_sub(y).ieee_lt(0.0f64) {
    assert(x.ieee_lt(y) ==> 0.0f64.ieee_lt(y.ieee_sub(x)) && x.ieee_sub(y).ieee_lt(0.0f64)) by(bit_vector);
}
pub proof fn tri(x: f64, y: f64) requires !nan(x), !nan(y) ensures x.ieee_lt(y) || x.ieee_eq(y) || y.ieee_lt(x), x.ieee_le(y) == (x.ieee_lt(y) || x.ieee_eq(y)), x.ieee_le(y) == !y.ieee_lt(x) {
    assert(x.ieee_eq(x) && y.ieee_eq(y) ==> (x.ieee_lt(y) || x.ieee_eq(y) || y.ieee_lt(x)) && x.ieee_le(y) == (x.ieee_lt(y) || x.ieee_eq(y)) && x.ieee_le(y) == !y.ieee_lt(x)) by(bit_vector);
}
pub proof fn le_trans(x: f64, y: f64, z: f64) requires x.ieee_le(y), y.ieee_le(z) ensures x.ieee_le(z) {
    assert(x.ieee_le(y) && y.ieee_le(z) ==> x.ieee_le(z)) by(bit_vector);
}
pub proof fn lt_le_trans(x: f64, y: f64, z: f64) ensures x.ieee_lt(y) && y.ieee_le(z) ==> x.ieee_lt(z), x.ieee_le(y) && y.ieee_lt(z) ==> x.ieee_lt(z) {
    assert(x.ieee_lt(y) && y.ieee_le(z) ==> x.ieee_lt(z)) by(bit_vector);
    assert(x.ieee_le(y) && y.ieee_lt(z) ==> x.ieee_lt(z)) by(bit_vector);
}
pub proof fn lt_facts(x: f64, y: f64) requires x.ieee_lt(y) ensures !nan(x), !nan(y), !y.ieee_lt(x), !x.ieee_eq(y), !y.ieee_eq(x), x.ieee_le(y), !y.ieee_le(x) {
    assert(x.ieee_lt(y) ==> x.ieee_eq(x) && y.ieee_eq(y) && !y.ieee_lt(x) && !x.ieee_eq(y) && !y.ieee_eq(x) && x.ieee_le(y) && !y.ieee_le(x)) by(bit_vector);
}
''')
w('order.inc','''// smallest / largest of the first n values of a sequence, as the code computes them, and what that means
pub open spec fn lo(f: spec_fn(int) -> f64, n: int) -> f64 decreases n {
    if n <= 1 { f(0) } else { let m = lo(f, n - 1); if f(n - 1).ieee_lt(m) { f(n - 1) } else { m } }
}
pub open spec fn hi(f: spec_fn(int) -> f64, n: int) -> f64 decreases n {
    if n <= 1 { f(0) } else { let m = hi(f, n - 1); if m.ieee_lt(f(n - 1)) { f(n - 1) } else { m } }
}
/// without NaN the limits are values of the sequence and bound all of it
pub proof fn limits_are_tight(f: spec_fn(int) -> f64, n: int)
    requires 1 <= n, forall|j: int| 0 <= j < n ==> !nan(#[trigger] f(j)),
    ensures
        exists|j: int| 0 <= j < n && #[trigger] f(j) == lo(f, n), exists|j: int| 0 <= j < n && #[trigger] f(j) == hi(f, n),
        forall|j: int| 0 <= j < n ==> lo(f, n).ieee_le(#[trigger] f(j)) && f(j).ieee_le(hi(f, n)),
    decreases n
{
    if n == 1 { tri(f(0), f(0)); }
    else {
        limits_are_tight(f, n - 1);
        let (a, b, x) = (lo(f, n - 1), hi(f, n - 1), f(n - 1));
        assert(!nan(a) && !nan(b));
        tri(x, a); tri(a, x); tri(x, b); tri(b, x); tri(x, x);
        assert forall|j: int| 0 <= j < n implies lo(f, n).ieee_le(#[trigger] f(j)) && f(j).ieee_le(hi(f, n)) by {
            if j < n - 1 {
                if x.ieee_lt(a) { lt_facts(x, a); le_trans(x, a, f(j)); }
                if b.ieee_lt(x) { lt_facts(b, x); le_trans(f(j), b, x); }
            }
        }
        let j = choose|j: int| 0 <= j < n - 1 && #[trigger] f(j) == a;
        let k = choose|k: int| 0 <= k < n - 1 && #[trigger] f(k) == b;
        assert(f(n - 1) == x && f(j) == a && f(k) == b);
    }
}
''')
w('listing.inc','''// the elements a source yields (assumed to be the same list every time it is consumed)
pub uninterp spec fn elems<I: IntoIterator>(i: I) -> Seq<I::Item>;
#[verifier::prophetic]
pub open spec fn listing<I: IntoIterator>(source: I) -> bool {
    forall|it: I::IntoIter| #[trigger] call_ensures(I::into_iter, (source,), it) ==> it.obeys_prophetic_iter_laws() && it.remaining() == elems(source) && it.will_return_none()
}
''')
C='xyz'
def strict(a,n,op='ieee_lt'): return ' && '.join(f'{a}.min.at({i}).{op}({a}.max.at({i}))' for i in range(n))
def bbbase(n):
    BB=f'BoundingBox{n}D'; P=f'Point{n}D'
    return f'''//@ file src/bounding_box_{n}d.rs
//@ struct {BB}
//@ enditem
impl Clone for {BB} {{ fn clone(&self) -> (r: Self) ensures r == *self {{ {BB} {{ min: self.min.clone(), max: self.max.clone() }} }} }}
impl {BB} {{
    pub open spec fn lo(&self, i: int) -> f64 {{ self.min.at(i) }}
    pub open spec fn hi(&self, i: int) -> f64 {{ self.max.at(i) }}
    /// the minimum is strictly below the maximum in every dimension
    pub open spec fn ok(&self) -> bool {{ {' && '.join(f'self.lo({i}).ieee_lt(self.hi({i}))' for i in range(n))} }}
    pub open spec fn is(&self, a: spec_fn(int) -> f64, b: spec_fn(int) -> f64) -> bool {{ {' && '.join(f'self.lo({i}) == a({i}) && self.hi({i}) == b({i})' for i in range(n))} }}
}}
'''
def lims(n): # while invariants
    o=[]
    for i in range(n): o.append(f'k > 0 ==> min{C[i]} == lo(col{n}(elems(source), {i}), k) && max{C[i]} == hi(col{n}(elems(source), {i}), k)')
    return o
def fromit(n, ref):
    col=f'col{n}r' if ref else f'col{n}'
    fn='from_iterator' if ref else 'from_into_iterator'
    BB=f'BoundingBox{n}D'
    inv=[f'k > 0 ==> min{C[i]} == lo({col}(elems(source), {i}), k) && max{C[i]} == hi({col}(elems(source), {i}), k)' for i in range(n)]
    return f'''//@ fn {fn}
//@ fattrs
#[verifier::exec_allows_no_decreases_clause]
//@ ret r
//@ spec
        requires listing(source), elems(source).len() <= usize::MAX,
        ensures r.is_ok() == (elems(source).len() >= 2 && {' && '.join(f'lo({col}(elems(source), {i}), elems(source).len() as int).ieee_lt(hi({col}(elems(source), {i}), elems(source).len() as int))' for i in range(n))}),
            r.is_ok() ==> r->Ok_0.is(|i: int| lo({col}(elems(source), i), elems(source).len() as int), |i: int| hi({col}(elems(source), i), elems(source).len() as int)),
//@ start
        let ghost mut k: int = 0;
//@ loop 0 gen
//@ loop 0 inv
            invariant_except_break 0 <= k <= elems(source).len(), it__0.remaining() == elems(source).skip(k), it__0.obeys_prophetic_iter_laws(), it__0.will_return_none(),
                count == k, elems(source).len() <= usize::MAX, {', '.join(inv)},
            ensures k == elems(source).len(), {', '.join(inv)}, count == k
//@ loop 0 start
                proof {{ k = k + 1; }}
'''
def bounds(n):
    BB=f'BoundingBox{n}D'; P=f'Point{n}D'; ax=C[:n]
    o=bbbase(n)
    o+=f'''pub open spec fn col{n}<P: Is{n}D>(s: Seq<P>, i: int) -> spec_fn(int) -> f64 {{ |j: int| s[j].at(i) }}
pub open spec fn col{n}r<P: Is{n}D>(s: Seq<&P>, i: int) -> spec_fn(int) -> f64 {{ |j: int| s[j].at(i) }}
//@ file src/is_mergeable.rs
'''.replace('//@ file src/is_mergeable.rs\n','')
    o+=f'''//@ impl {BB}
//@ fn new
//@ ret r
//@ spec
        ensures r.is_ok() == ({' && '.join(f'min.at({i}).ieee_lt(max.at({i}))' for i in range(n))}),
            r.is_ok() ==> r->Ok_0.is(|i: int| min.at(i), |i: int| max.at(i)),
//@ start
        proof {{ {' '.join(f'if min.at({i}).ieee_lt(max.at({i})) {{ lt_facts(min.at({i}), max.at({i})); }}' for i in range(n))} }}
'''
    o+=fromit(n,True)+fromit(n,False)
    o+=f'''//@ fn min_p
//@ ret r
//@ spec
        ensures r == self.min,
//@ fn max_p
//@ ret r
//@ spec
        ensures r == self.max,
'''
    for i,c in enumerate(ax):
        o+=f'''//@ fn size_{c}
//@ ret r
//@ spec
        requires self.ok(),
        ensures r.val == self.max.at({i}).ieee_sub(self.min.at({i})), pos(r.val),
//@ start
        proof {{ diff_pos(self.min.at({i}), self.max.at({i})); }}
'''
    o+=f'''//@ fn sizes
//@ ret r
//@ spec
        requires self.ok(),
        ensures {', '.join(f'r@[{i}].val == self.max.at({i}).ieee_sub(self.min.at({i}))' for i in range(n))},
//@ fn center_bb
//@ ret r
//@ spec
        ensures {', '.join(f'r.at({i}) == self.min.at({i}).ieee_add(self.max.at({i}).ieee_sub(self.min.at({i})).ieee_div(2.0f64))' for i in range(n))},
//@ fn corners
//@ ret r
//@ spec
        ensures {', '.join(f"r@[{k}].at({i}) == self.{'max' if (k>>(n-1-i))&1 else 'min'}.at({i})" for k in range(2**n) for i in range(n))},
//@ enditem
//@ impl IsMergeable for {BB}
//@ ghost
    open spec fn merged(a: &Self, b: &Self, r: &Self) -> bool {{
        r.is(|i: int| if b.min.at(i).ieee_lt(a.min.at(i)) {{ b.min.at(i) }} else {{ a.min.at(i) }}, |i: int| if a.max.at(i).ieee_lt(b.max.at(i)) {{ b.max.at(i) }} else {{ a.max.at(i) }})
    }}
    open spec fn mergeable(a: &Self, b: &Self) -> bool {{ a.ok() && b.ok() }}
//@ fn consume
//@ fn combine
//@ enditem
/// the merged box is a valid box, has both inside (not strictly), and is the smallest such box
pub proof fn merged_is_smallest_{n}(a: {BB}, b: {BB}, r: {BB})
    requires a.ok(), b.ok(), {BB}::merged(&a, &b, &r),
    ensures r.ok(), forall|i: int| 0 <= i < {n} ==> #[trigger] r.lo(i).ieee_le(a.lo(i)) && r.lo(i).ieee_le(b.lo(i)) && a.hi(i).ieee_le(r.hi(i)) && b.hi(i).ieee_le(r.hi(i))
        && (r.lo(i) == a.lo(i) || r.lo(i) == b.lo(i)) && (r.hi(i) == a.hi(i) || r.hi(i) == b.hi(i)),
{{
    assert forall|i: int| 0 <= i < {n} implies #[trigger] r.lo(i).ieee_le(a.lo(i)) && r.lo(i).ieee_le(b.lo(i)) && a.hi(i).ieee_le(r.hi(i)) && b.hi(i).ieee_le(r.hi(i))
        && (r.lo(i) == a.lo(i) || r.lo(i) == b.lo(i)) && (r.hi(i) == a.hi(i) || r.hi(i) == b.hi(i)) && r.lo(i).ieee_lt(r.hi(i)) by {{
        assert(i == 0 || i == 1 || i == 2);
        let (p, q, s, t) = (a.lo(i), b.lo(i), a.hi(i), b.hi(i));
        lt_facts(p, s); lt_facts(q, t);
        tri(p, q); tri(q, p); tri(s, t); tri(t, s); tri(p, p); tri(q, q); tri(s, s); tri(t, t);
        assert(r.lo(i) == (if q.ieee_lt(p) {{ q }} else {{ p }}) && r.hi(i) == (if s.ieee_lt(t) {{ t }} else {{ s }}));
        lt_le_trans(q, p, s); lt_le_trans(q, t, s); lt_le_trans(p, s, t); lt_le_trans(q, p, t);
    }}
    assert({' && '.join(f'r.lo({i}).ieee_le(a.lo({i}))' for i in range(n))});
    assert({' && '.join(f'r.lo({i}).ieee_lt(r.hi({i}))' for i in range(n))});
}}
/// a box of NaN-free positions has the smallest and largest coordinates as limits
pub proof fn tight_{n}<P: Is{n}D>(s: Seq<P>, b: {BB})
    requires s.len() >= 2, b.is(|i: int| lo(col{n}(s, i), s.len() as int), |i: int| hi(col{n}(s, i), s.len() as int)),
        forall|i: int, j: int| 0 <= i < {n} && 0 <= j < s.len() ==> !nan(#[trigger] s[j].at(i)),
    ensures forall|i: int, j: int| 0 <= i < {n} && 0 <= j < s.len() ==> b.lo(i).ieee_le(#[trigger] s[j].at(i)) && s[j].at(i).ieee_le(b.hi(i)),
        {', '.join(f'(exists|j: int| 0 <= j < s.len() && #[trigger] s[j].at({i}) == b.lo({i})) && (exists|j: int| 0 <= j < s.len() && #[trigger] s[j].at({i}) == b.hi({i}))' for i in range(n))},
{{
    {' '.join(f"""{{ let f = col{n}(s, {i}); assert(forall|j: int| f(j) == s[j].at({i})); limits_are_tight(f, s.len() as int);
        let j = choose|j: int| 0 <= j < s.len() && #[trigger] f(j) == lo(f, s.len() as int); assert(s[j].at({i}) == b.lo({i}));
        let k = choose|k: int| 0 <= k < s.len() && #[trigger] f(k) == hi(f, s.len() as int); assert(s[k].at({i}) == b.hi({i})); }}""" for i in range(n))}
}}
'''
    return o
merge='''//@ file src/is_mergeable.rs
//@ trait IsMergeable
//@ header pub trait IsMergeable: Sized
//@ ghost
    spec fn merged(a: &Self, b: &Self, r: &Self) -> bool;
    spec fn mergeable(a: &Self, b: &Self) -> bool;
//@ fn consume
//@ spec
        requires Self::mergeable(old(self), &other),
        ensures Self::merged(old(self), &other, final(self)),
//@ fn combine
//@ ret r
//@ spec
        requires Self::mergeable(self, other),
        ensures Self::merged(self, other, &r),
//@ enditem
'''
HEAD='''#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::ops::*;
verus! {
//@include float.inc
broadcast use {vstd::seq_lib::group_seq_properties, fl::ax};
//@include base.inc
//@include num.inc
//@include pos.inc
//@include pos2.inc
//@include pos3.inc
//@include point2.inc
//@include point3.inc
//@include flemmas.inc
'''
ABS='''pub uninterp spec fn f_abs(x: f64) -> f64;
pub assume_specification [f64::abs](x: f64) -> (r: f64) ensures r == f_abs(x), 0.0f64.ieee_lt(x) ==> r == x;
'''
w('c_bounds.vc', HEAD+'//@include order.inc\n//@include listing.inc\n'+ABS+merge+bounds(2)+bounds(3)+'fn main() {}\n}\n')
def hasbb(n):
    BB=f'BoundingBox{n}D'; P=f'Point{n}D'; S={2:'Circle',3:'Sphere'}[n]; s=S.lower(); ax=C[:n]
    T=f'HasBoundingBox{n}DMaybe'; H=f'HasBoundingBox{n}D'
    def im(ty, file, has, lo, hi, req, struct=True, exact=True, hdr=None, extra='', always=True, sreps='', start=''):
        o=f'//@ file src/{file}.rs\n'
        if struct: o+=f'//@ struct {ty}\n{sreps}//@ enditem\n'
        o+=extra
        if always:
            o+=f'//@ impl {H} for {ty}\n' + (f'//@ header {hdr[0]}\n' if hdr else '') + '//@ fn bounding_box\n'+start+'//@ enditem\n'
        o+=f'//@ impl {T} for {ty}\n' + (f'//@ header {hdr[-1]}\n' if hdr else '')
        o+=f'''//@ ghost
    open spec fn bb_req(&self) -> bool {{ {req} }}
    open spec fn has_bb(&self) -> bool {{ {has} }}
    open spec fn bb_lo(&self, i: int) -> f64 {{ {lo} }}
    open spec fn bb_hi(&self, i: int) -> f64 {{ {hi} }}
//@ fn bounding_box_maybe
//@ enditem
'''
        return o
    o=f'''//@ file src/has_bounding_box_{n}d.rs
//@ trait {H}
//@ fn bounding_box
//@ ret r
//@ spec
        requires self.bb_req(), self.has_bb(),
        ensures r.is(|i: int| self.bb_lo(i), |i: int| self.bb_hi(i)), r.ok(),
//@ enditem
//@ trait {T}
//@ ghost
    /// the limits can be represented (shapes whose size vanishes next to their position have none)
    spec fn bb_req(&self) -> bool;
    spec fn has_bb(&self) -> bool;
    spec fn bb_lo(&self, i: int) -> f64;
    spec fn bb_hi(&self, i: int) -> f64;
//@ fn bounding_box_maybe
//@ ret r
//@ spec
        requires self.bb_req(),
        ensures r.is_some() == self.has_bb(), r.is_some() ==> r->Some_0.is(|i: int| self.bb_lo(i), |i: int| self.bb_hi(i)) && r->Some_0.ok(),
//@ enditem
//@ struct {H}Converted
//@ enditem
impl<T: {T}> {H}Converted<T> {{ pub open spec fn inner(&self) -> T {{ self.data }} }}
//@ impl {H}Converted
//@ fn new
//@ ret r
//@ spec
        requires data.bb_req(),
        ensures r.is_some() == data.has_bb(), r.is_some() ==> r->Some_0.inner() == data,
//@ fn get
//@ ret r
//@ spec
        ensures *r == self.inner(),
//@ enditem
//@ impl {T} for {H}Converted
//@ ghost
    open spec fn bb_req(&self) -> bool {{ self.data.bb_req() }}
    open spec fn has_bb(&self) -> bool {{ self.data.has_bb() }}
    open spec fn bb_lo(&self, i: int) -> f64 {{ self.data.bb_lo(i) }}
    open spec fn bb_hi(&self, i: int) -> f64 {{ self.data.bb_hi(i) }}
//@ fn bounding_box_maybe
//@ enditem
//@ impl {H} for {H}Converted
//@ fn bounding_box
//@ enditem
'''
    allax=lambda f: ' && '.join(f(i) for i in range(n))
    o+=im(BB,f'bounding_box_{n}d','true','self.lo(i)','self.hi(i)','self.ok()',struct=False)
    sz=lambda i: f'self.size_{C[i]}.val.ieee_div(2.0f64)'
    B=f'Box{n}D'
    half=' else '.join([f'if i == {i} {{ {sz(i)} }}' for i in range(n-1)]+[f'{{ {sz(n-1)} }}'])
    strict='&& '.join(f'self.bb_lo({i}).ieee_lt(self.bb_hi({i})) ' for i in range(n))
    o+=im(B,f'box_{n}d','true','self.center.at(i).ieee_sub(self.half(i))','self.center.at(i).ieee_add(self.half(i))',strict,extra=f'impl {B} {{ pub open spec fn half(&self, i: int) -> f64 {{ {half} }} }}\n')
    o+=im(S,s,'true','self.center.at(i).ieee_sub(self.radius.val)','self.center.at(i).ieee_add(self.radius.val)',strict)
    o+=im(f'FilterBox{n}D',f'filter_box_{n}d','true',f'self.box_{n}d.bb_lo(i)',f'self.box_{n}d.bb_hi(i)',f'self.box_{n}d.bb_req()')
    o+=im(f'Filter{S}',f'filter_{s}','true',f'self.{s}.bb_lo(i)',f'self.{s}.bb_hi(i)',f'self.{s}.bb_req()')
    PC=f'PointCloud{n}D'
    o+=im(PC,f'point_cloud_{n}d','self.data@.len() >= 2 && '+strict,f'lo(col{n}(self.data@, i), self.data@.len() as int)',f'hi(col{n}(self.data@, i), self.data@.len() as int)','true',always=False).replace('//@ fn bounding_box_maybe\n',f'''//@ fn bounding_box_maybe
//@ start
        proof {{ vec_listing(&self.data); {' '.join(f'same_limits(col{n}r(elems(&self.data), {i}), col{n}(self.data@, {i}), self.data@.len() as int);' for i in range(n))} }}
''')
    o+=im(f'Polygon{n}D',f'polygon_{n}d','self.pc.has_bb()','self.pc.bb_lo(i)','self.pc.bb_hi(i)','self.pc.bb_req()',always=False)
    if n==3:
        o+=im('Mesh3D','mesh_3d','self.pc.has_bb()','self.pc.bb_lo(i)','self.pc.bb_hi(i)','self.pc.bb_req()',always=False,sreps='//@ replace `ID: IsDataContainer<P>,` => `` ; not needed for the bounding box\n//@ replace `IC: IsIndexContainer,` => `` ; as above\n',hdr=['impl<P: Is3D, ID: HasBoundingBox3DMaybe, IC> HasBoundingBox3DMaybe for Mesh3D<P, ID, IC>'])
    return o
LEM='''pub proof fn same_limits(f: spec_fn(int) -> f64, g: spec_fn(int) -> f64, n: int)
    requires 1 <= n ==> forall|j: int| 0 <= j < n ==> #[trigger] f(j) == g(j),
    ensures 1 <= n ==> lo(f, n) == lo(g, n) && hi(f, n) == hi(g, n),
    decreases n
{ if n > 1 { same_limits(f, g, n - 1); assert(f(n - 1) == g(n - 1)); } else if n == 1 { assert(f(0) == g(0)); } }
/// a vector consumed by reference yields references to its elements in order (assumed: std's slice iterator)
#[verifier::external_body]
pub proof fn vec_listing<T>(v: &Vec<T>)
    ensures listing(v), v@.len() <= usize::MAX, elems(v).len() == v@.len(), forall|j: int| 0 <= j < v@.len() ==> *(#[trigger] elems(v)[j]) == v@[j],
{ }
'''
w('c_bounds.vc', HEAD.replace('use std::ops::*;','use std::ops::*;\nuse std::marker::PhantomData;')+'//@include order.inc\n//@include listing.inc\n'+LEM+ABS+merge+bounds(2)+bounds(3)+hasbb(2)+hasbb(3)+'fn main() {}\n}\n')
F32='''pub open spec fn lo32(f: spec_fn(int) -> f32, n: int) -> f32 decreases n {
    if n <= 1 { f(0) } else { let m = lo32(f, n - 1); if f(n - 1).ieee_lt(m) { f(n - 1) } else { m } }
}
pub open spec fn hi32(f: spec_fn(int) -> f32, n: int) -> f32 decreases n {
    if n <= 1 { f(0) } else { let m = hi32(f, n - 1); if m.ieee_lt(f(n - 1)) { f(n - 1) } else { m } }
}
/// widening the smallest / largest stored coordinate gives the smallest / largest widened coordinate
pub proof fn widened_limits(f: spec_fn(int) -> f32, g: spec_fn(int) -> f64, n: int)
    requires 1 <= n, forall|j: int| 0 <= j < n ==> #[trigger] g(j) == fl32::up(f(j)),
    ensures lo(g, n) == fl32::up(lo32(f, n)), hi(g, n) == fl32::up(hi32(f, n)),
    decreases n
{
    if n > 1 {
        widened_limits(f, g, n - 1);
        assert(g(n - 1) == fl32::up(f(n - 1)));
        fl32::up_keeps_order(f(n - 1), lo32(f, n - 1));
        fl32::up_keeps_order(hi32(f, n - 1), f(n - 1));
    } else { assert(g(0) == fl32::up(f(0))); }
}
//@ file src/point_cloud_3d_f32.rs
//@ struct PointCloud3Df32
//@ enditem
pub open spec fn col32(s: Seq<f32>, i: int) -> spec_fn(int) -> f32 { |j: int| s[3 * j + i] }
pub open spec fn col64(s: Seq<f32>, i: int) -> spec_fn(int) -> f64 { |j: int| fl32::up(s[3 * j + i]) }
//@ impl HasBoundingBox3DMaybe for PointCloud3Df32
//@ ghost
    open spec fn bb_req(&self) -> bool { true }
    open spec fn has_bb(&self) -> bool { self.data@.len() / 3 >= 2 && self.bb_lo(0).ieee_lt(self.bb_hi(0)) && self.bb_lo(1).ieee_lt(self.bb_hi(1)) && self.bb_lo(2).ieee_lt(self.bb_hi(2)) }
    open spec fn bb_lo(&self, i: int) -> f64 { lo(col64(self.data@, i), self.data@.len() as int / 3) }
    open spec fn bb_hi(&self, i: int) -> f64 { hi(col64(self.data@, i), self.data@.len() as int / 3) }
//@ fn bounding_box_maybe
//@ replace `let [x, y, z] = [d[3 * i + 0], d[3 * i + 1], d[3 * i + 2]];` => `let x = d[3 * i + 0]; let y = d[3 * i + 1]; let z = d[3 * i + 2];` ; array pattern written out
//@ loop 0 inv
            invariant d == &self.data, self.data@.len() <= usize::MAX, n_p == self.data@.len() / 3, n_p >= 2,
                minx == lo32(col32(self.data@, 0), i as int), maxx == hi32(col32(self.data@, 0), i as int),
                miny == lo32(col32(self.data@, 1), i as int), maxy == hi32(col32(self.data@, 1), i as int),
                minz == lo32(col32(self.data@, 2), i as int), maxz == hi32(col32(self.data@, 2), i as int),
//@ loop 0 after
        proof { widened_limits(col32(self.data@, 0), col64(self.data@, 0), n_p as int); widened_limits(col32(self.data@, 1), col64(self.data@, 1), n_p as int); widened_limits(col32(self.data@, 2), col64(self.data@, 2), n_p as int); }
//@ enditem
'''
HB=HEAD.replace('use std::ops::*;','use std::ops::*;\nuse std::marker::PhantomData;').replace('//@include float.inc\n','//@include float.inc\n//@include float32.inc\n').replace('fl::ax}','fl::ax, fl32::ax}')
w('c_bounds.vc', HB+'//@include order.inc\n//@include listing.inc\n'+LEM+ABS+merge+bounds(2)+bounds(3)+hasbb(2)+hasbb(3)+F32+'fn main() {}\n}\n')

src=open('/tmp/gen/bb.py').read()
exec(src.split("w('flemmas.inc'")[0])
i=src.index("C='xyz'"); j=src.index("def lims(n)"); exec(src[i:j])
i=src.index("HEAD='''"); j=src.index("w('c_bounds.vc', HEAD+"); exec(src[i:j])
def filt(n):
    ax=C[:n]; B=f'Box{n}D'; S={2:'Circle',3:'Sphere'}[n]; s=S.lower(); BB=f'BoundingBox{n}D'
    A=lambda f: ' && '.join(f(i) for i in range(n))
    sm=lambda f: ('sq(%s).ieee_add(sq(%s))' % (f(0),f(1))) + (f'.ieee_add(sq({f(2)}))' if n==3 else '')
    acc='\n'.join(f'//@ fn {c}' for c in ax)
    def isnd(ty,inner):
        return f'''//@ impl IsND for {ty}
//@ ghost
    open spec fn nd() -> nat {{ {n} }}
    open spec fn at(&self, i: int) -> f64 {{ self.{inner}.at(i) }}
    open spec fn rest(&self) -> Seq<f64> {{ Seq::empty() }}
//@ fn n_dimensions
//@ fn position_nd
//@ enditem
//@ impl Is{n}D for {ty}
{acc}
//@ enditem
'''
    o=f'''//@ file src/distances_{n}d.rs
//@ freefn dist_{n}d
//@ ret r
//@ spec
    ensures r == f_sqrt(sqr_dist{n}(p, q)),
//@ enditem
//@ freefn sqr_dist_{n}d
//@ ret r
//@ spec
    ensures r == sqr_dist{n}(p, q),
//@ enditem
/// the sum of the squared coordinate differences
pub open spec fn sqr_dist{n}<P: Is{n}D, Q: Is{n}D>(p: &P, q: &Q) -> f64 {{ {sm(lambda i: f'p.at({i}).ieee_sub(q.at({i}))')} }}
'''
    o+=bbbase(n)+f'''//@ impl {BB}
'''
    for i,c in enumerate(ax):
        o+=f'''//@ fn size_{c}
//@ ret r
//@ spec
        requires self.ok(),
        ensures r.val == self.hi({i}).ieee_sub(self.lo({i})), pos(r.val),
//@ start
        proof {{ diff_pos(self.lo({i}), self.hi({i})); }}
'''
    o+=f'''//@ fn center_bb
//@ ret r
//@ spec
        ensures {', '.join(f'r.at({i}) == self.lo({i}).ieee_add(self.hi({i}).ieee_sub(self.lo({i})).ieee_div(2.0f64))' for i in range(n))},
//@ enditem
//@ file src/box_{n}d.rs
//@ struct {B}
//@ enditem
impl {B} {{
    pub open spec fn size(&self, i: int) -> f64 {{ {' else '.join([f'if i == {i} {{ self.size_{ax[i]}.val }}' for i in range(n-1)]+['{ self.size_%s.val }' % ax[-1]])} }}
    /// between center minus and center plus half the size in every dimension, borders included
    pub open spec fn covers(&self, p: spec_fn(int) -> f64) -> bool {{ {A(lambda i: f'self.center.at({i}).ieee_sub(self.size({i}).ieee_div(2.0f64)).ieee_le(p({i})) && p({i}).ieee_le(self.center.at({i}).ieee_add(self.size({i}).ieee_div(2.0f64)))')} }}
    pub open spec fn of_bb(&self, b: {BB}) -> bool {{ {A(lambda i: f'self.size({i}) == b.hi({i}).ieee_sub(b.lo({i})) && self.center.at({i}) == b.lo({i}).ieee_add(b.hi({i}).ieee_sub(b.lo({i})).ieee_div(2.0f64))')} }}
}}
//@ impl {B}
//@ fn min_p
//@ ret r
//@ spec
        ensures {', '.join(f'r.at({i}) == self.center.at({i}).ieee_sub(0.5f64.ieee_mul(self.size({i})))' for i in range(n))},
//@ fn max_p
//@ ret r
//@ spec
        ensures {', '.join(f'r.at({i}) == self.center.at({i}).ieee_add(0.5f64.ieee_mul(self.size({i})))' for i in range(n))},
//@ fn sizes
//@ ret r
//@ spec
        ensures {', '.join(f'r@[{i}].val == self.size({i})' for i in range(n))},
//@ enditem
'''
    o+=isnd(B,'center')
    o+=f'''//@ impl From<{BB}> for {B}
//@ header impl {B}
//@ fn from
//@ rename from_bb
//@ ret r
//@ spec
        requires x.ok(),
        ensures r.of_bb(x),
//@ enditem
//@ file src/filter_box_{n}d.rs
//@ struct FilterBox{n}D
//@ enditem
//@ impl FilterBox{n}D
//@ fn new
//@ ret r
//@ spec
        ensures r.box_{n}d == box_{n}d,
//@ enditem
//@ impl From<{BB}> for FilterBox{n}D
//@ header impl FilterBox{n}D
//@ fn from
//@ rename from_bb
//@ ret r
//@ spec
        requires x.ok(),
        ensures r.box_{n}d.of_bb(x),
//@ enditem
//@ impl IsFilter for FilterBox{n}D
//@ ghost
    open spec fn allows(&self, x: &T) -> bool {{ self.box_{n}d.covers(|i: int| x.at(i)) }}
//@ fn is_allowed
//@ enditem
//@ file src/{s}.rs
//@ struct {S}
//@ enditem
'''
    o+=isnd(S,'center')
    o+=f'''//@ file src/filter_{s}.rs
//@ struct Filter{S}
//@ enditem
//@ impl Filter{S}
//@ fn new
//@ ret r
//@ spec
        ensures r.{s} == {s},
//@ enditem
//@ impl IsFilter for Filter{S}
//@ ghost
    open spec fn allows(&self, x: &T) -> bool {{ f_sqrt(sqr_dist{n}(x, &self.{s}.center)).ieee_le(self.{s}.radius.val) }}
//@ fn is_allowed
//@ enditem
'''
    return o
FI='''//@ file src/is_filter.rs
//@ trait IsFilter
//@ ghost
    spec fn allows(&self, x: &T) -> bool;
//@ fn is_allowed
//@ ret r
//@ spec
        ensures r == self.allows(x),
//@ enditem
'''
w('filter.inc',FI)
X='''pub open spec fn sq(x: f64) -> f64 { x.ieee_mul(x) }
pub uninterp spec fn f_powi(x: f64, n: i32) -> f64;
/// the square is the product (assumed: std)
pub assume_specification [f64::powi](x: f64, n: i32) -> (r: f64) ensures r == f_powi(x, n), n == 2 ==> r == sq(x);
'''
ND='''pub open spec fn sum_sq<P: IsND, Q: IsND>(p: &P, q: &Q, n: int) -> f64 decreases n {
    if n <= 0 { 0.0f64 } else { sum_sq(p, q, n - 1).ieee_add(sq(p.at(n - 1).ieee_sub(q.at(n - 1)))) }
}
//@ file src/distances_nd.rs
//@ freefn dist_nd
//@ ret r
//@ spec
    ensures r.is_ok() == (P::nd() == U::nd()), r.is_ok() ==> r->Ok_0 == f_sqrt(sum_sq(p1, p2, P::nd() as int)),
//@ replace `sqr_dist_nd(p1, p2).map(|x| x.sqrt())` => `sqr_dist_nd(p1, p2).map(|x: f64| -> (y: f64) ensures y == f_sqrt(x) { x.sqrt() })` ; contract on the closure
//@ enditem
//@ freefn sqr_dist_nd
//@ ret r
//@ spec
    ensures r.is_ok() == (P::nd() == U::nd()), r.is_ok() ==> r->Ok_0 == sum_sq(p1, p2, P::nd() as int),
//@ floatassign
//@ loop 0 inv
        invariant P::nd() == U::nd(), result == sum_sq(p1, p2, i as int),
//@ enditem
'''
w('c_filters.vc', HEAD+'//@include filter.inc\n'+ABS+X+ND+filt(2)+filt(3)+'fn main() {}\n}\n')

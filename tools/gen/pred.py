exec(open('/tmp/gen/bb.py').read().split("w('flemmas.inc'")[0])
src=open('/tmp/gen/bb.py').read()
i=src.index("C='xyz'"); j=src.index("def lims(n)"); exec(src[i:j])
i=src.index("HEAD='''"); j=src.index("ABS='''"); exec(src[i:j])
DIST='''//@ file src/has_distance_to.rs
//@ trait HasDistanceTo
//@ ghost
    /// the distance is a number (no NaN from infinite coordinates)
    spec fn dist_req(&self, other: &T) -> bool;
    spec fn sqr_dist(&self, other: &T) -> f64;
//@ fn sqr_distance
//@ ret r
//@ spec
        requires self.dist_req(other),
        ensures r.val == self.sqr_dist(other), nneg(r.val),
//@ fn distance default
//@ ret r
//@ spec
        requires self.dist_req(other),
        ensures r.val == f_sqrt(self.sqr_dist(other)),
//@ enditem
'''
LEM='''// the gap between an interval and a value / another interval
pub open spec fn gap(l: f64, h: f64, x: f64) -> f64 { if x.ieee_lt(l) { l.ieee_sub(x) } else if h.ieee_lt(x) { x.ieee_sub(h) } else { 0.0f64 } }
pub open spec fn gap2(l: f64, h: f64, l2: f64, h2: f64) -> f64 { if h2.ieee_lt(l) { l.ieee_sub(h2) } else if h.ieee_lt(l2) { l2.ieee_sub(h) } else { 0.0f64 } }
pub open spec fn sq(x: f64) -> f64 { x.ieee_mul(x) }
pub proof fn sq_nneg(x: f64) requires !nan(x) ensures nneg(sq(x)) { assert(x.ieee_eq(x) ==> 0.0f64.ieee_le(x.ieee_mul(x))) by(bit_vector); }
pub proof fn add_nneg(x: f64, y: f64) requires nneg(x), nneg(y) ensures nneg(x.ieee_add(y)) { assert(0.0f64.ieee_le(x) && 0.0f64.ieee_le(y) ==> 0.0f64.ieee_le(x.ieee_add(y))) by(bit_vector); }
pub proof fn sq_zero(x: f64) requires x.ieee_eq(0.0f64) ensures sq(x) == sq(0.0f64) { assert(x.ieee_eq(0.0f64) ==> x.ieee_mul(x) == 0.0f64.ieee_mul(0.0f64)) by(bit_vector); }
/// x - y and y - x differ in their sign only (assumed: IEEE subtraction with round to nearest; out of the bit_vector back end's reach)
#[verifier::external_body]
pub proof fn sub_anti(x: f64, y: f64) requires !nan(x.ieee_sub(y))
    ensures !nan(y.ieee_sub(x)), y.ieee_sub(x) == x.ieee_sub(y).ieee_neg() || (y.ieee_sub(x).ieee_eq(0.0f64) && x.ieee_sub(y).ieee_eq(0.0f64)) { }
/// a difference may be taken in either order
pub proof fn sq_sym(x: f64, y: f64) requires !nan(x.ieee_sub(y)) ensures sq(x.ieee_sub(y)) == sq(y.ieee_sub(x)), !nan(y.ieee_sub(x)) {
    let (a, b) = (x.ieee_sub(y), y.ieee_sub(x));
    sub_anti(x, y);
    assert(a.ieee_eq(a) ==> a.ieee_mul(a) == a.ieee_neg().ieee_mul(a.ieee_neg())) by(bit_vector);
    if a.ieee_eq(0.0f64) && b.ieee_eq(0.0f64) { sq_zero(a); sq_zero(b); }
}
pub proof fn eq_diff(x: f64, y: f64) requires x.ieee_eq(y), !nan(x.ieee_sub(y)) ensures x.ieee_sub(y).ieee_eq(0.0f64) { assert(x.ieee_eq(y) && x.ieee_sub(y).ieee_eq(x.ieee_sub(y)) ==> x.ieee_sub(y).ieee_eq(0.0f64)) by(bit_vector); }
pub proof fn lt_diff(x: f64, y: f64) ensures x.ieee_lt(y) ==> x.ieee_sub(y).ieee_lt(0.0f64) && 0.0f64.ieee_lt(y.ieee_sub(x)) { assert(x.ieee_lt(y) ==> x.ieee_sub(y).ieee_lt(0.0f64) && 0.0f64.ieee_lt(y.ieee_sub(x))) by(bit_vector); }
/// the largest of l - x, 0 and x - h is the gap (up to the sign of a zero)
pub proof fn gap_is_max(l: f64, h: f64, x: f64)
    requires l.ieee_lt(h), !nan(l.ieee_sub(x)), !nan(x.ieee_sub(h)),
    ensures sq(max3(l.ieee_sub(x), 0.0f64, x.ieee_sub(h))) == sq(gap(l, h, x)), !nan(gap(l, h, x)), !nan(max3(l.ieee_sub(x), 0.0f64, x.ieee_sub(h))),
{
    let (a, b, z) = (l.ieee_sub(x), x.ieee_sub(h), 0.0f64);
    assert(l.ieee_sub(x).ieee_eq(l.ieee_sub(x)) ==> x.ieee_eq(x)) by(bit_vector);
    assert(0.0f64.ieee_eq(0.0f64)) by(bit_vector);
    lt_facts(l, h); tri(x, l); tri(x, h); tri(l, x); tri(h, x); tri(a, b); tri(a, z); tri(b, z); tri(z, a); tri(z, b); tri(z, z); tri(a, a); tri(b, b);
    lt_le_trans(x, l, h); lt_le_trans(l, h, x); lt_diff(x, l); lt_diff(l, x); lt_diff(x, h); lt_diff(h, x);
    assert(0.0f64.ieee_eq(0.0f64)) by(bit_vector);
    if x.ieee_lt(l) { lt_facts(z, a); lt_facts(x, h); lt_le_trans(b, z, a); lt_facts(b, z); lt_le_trans(x, l, h); }
    else if h.ieee_lt(x) { lt_facts(l, x); lt_facts(z, b); lt_facts(a, z); }
    else {
        if x.ieee_eq(l) { assert(x.ieee_eq(l) ==> l.ieee_eq(x)) by(bit_vector); eq_diff(l, x); sq_zero(a); }
        if x.ieee_eq(h) { eq_diff(x, h); sq_zero(b); }
        sq_zero(max3(a, z, b));
    }
}
pub open spec fn max2(a: f64, b: f64) -> f64 { if b.ieee_lt(a) { a } else { b } }
pub open spec fn max3(a: f64, b: f64, c: f64) -> f64 { max2(max2(a, b), c) }
//@ file src/utils.rs
//@ freefn max_f64
//@ ret r
//@ spec
    ensures r == max2(a, b),
//@ enditem
//@ freefn max_f64_3
//@ ret r
//@ spec
    ensures r == max3(a, b, c),
//@ enditem
//@ file src/non_negative.rs
//@ impl NonNegative
//@ fn sqrt
//@ ret r
//@ spec
        ensures r.val == f_sqrt(self.val),
//@ enditem
'''
def pred(n):
    BB=f'BoundingBox{n}D'; ax=C[:n]
    A=lambda f: ' && '.join(f(i) for i in range(n))
    sm=lambda f: ('sq(%s).ieee_add(sq(%s))' % (f(0),f(1))) + (f'.ieee_add(sq({f(2)}))' if n==3 else '')
    g=lambda i: f'gap(self.lo({i}), self.hi({i}), other.at({i}))'
    o=bbbase(n)
    o+=f'''impl {BB} {{
    /// a position strictly between the limits in every dimension
    pub open spec fn strictly_in(&self, p: spec_fn(int) -> f64) -> bool {{ {A(lambda i: f'self.lo({i}).ieee_lt(p({i})) && p({i}).ieee_lt(self.hi({i}))')} }}
    /// both limits of `a` strictly between those of `self`
    pub open spec fn around(&self, a: {BB}) -> bool {{ {A(lambda i: f'self.lo({i}).ieee_lt(a.lo({i})) && a.hi({i}).ieee_lt(self.hi({i}))')} }}
    /// the open extents overlap in every dimension
    pub open spec fn overlaps(&self, a: {BB}) -> bool {{ {A(lambda i: f'self.lo({i}).ieee_lt(a.hi({i})) && a.lo({i}).ieee_lt(self.hi({i}))')} }}
    pub open spec fn at_d(&self, p: spec_fn(int) -> f64) -> bool {{ {A(lambda i: f'!nan(self.lo({i}).ieee_sub(p({i}))) && !nan(p({i}).ieee_sub(self.hi({i})))')} }}
    pub open spec fn sqr_gaps(&self, p: spec_fn(int) -> f64) -> f64 {{ {sm(lambda i: f'gap(self.lo({i}), self.hi({i}), p({i}))')} }}
}}
//@ impl {BB}
//@ fn min_p
//@ ret r
//@ spec
        ensures r == self.min,
//@ fn max_p
//@ ret r
//@ spec
        ensures r == self.max,
//@ fn is_inside
//@ ret r
//@ spec
        ensures r == other.around(*self),
//@ fn contains
//@ ret r
//@ spec
        ensures r == self.strictly_in(|i: int| other.at(i)),
//@ fn has_inside
//@ ret r
//@ spec
        ensures r == self.around(*other),
//@ fn collides_with
//@ ret r
//@ spec
        requires self.ok(), other.ok(),
        ensures r == self.overlaps(*other),
'''
    for i,c in enumerate(ax):
        o+=f'''//@ fn crossing_{c}_value
//@ ret r
//@ spec
        ensures r == (self.lo({i}).ieee_lt({c}) && {c}.ieee_lt(self.hi({i}))),
'''
    o+=f'''//@ fn distance
//@ ret r
//@ spec
        requires self.ok(), self.at_d(|i: int| other.at(i)),
        ensures r.val == f_sqrt(self.sqr_gaps(|i: int| other.at(i))), nneg(r.val),
//@ start
        proof {{ f_sqrt_nneg(self.sqr_gaps(|i: int| other.at(i))); }}
//@ fn sqr_distance
//@ ret r
//@ spec
        requires self.ok(), self.at_d(|i: int| other.at(i)),
        ensures r.val == self.sqr_gaps(|i: int| other.at(i)), nneg(r.val),
//@ start
        proof {{
            {' '.join(f'gap_is_max(self.lo({i}), self.hi({i}), other.at({i})); sq_nneg(gap(self.lo({i}), self.hi({i}), other.at({i})));' for i in range(n))}
            add_nneg(sq({g(0)}), sq({g(1)}));
            {f'add_nneg(sq({g(0)}).ieee_add(sq({g(1)})), sq({g(2)}));' if n==3 else ''}
        }}
//@ enditem
//@ impl HasDistanceTo<{BB}> for {BB}
//@ ghost
    open spec fn dist_req(&self, other: &{BB}) -> bool {{ self.ok() && other.ok() && {A(lambda i: f'!nan(self.lo({i}).ieee_sub(other.hi({i}))) && !nan(other.lo({i}).ieee_sub(self.hi({i})))')} }}
    open spec fn sqr_dist(&self, other: &{BB}) -> f64 {{ {sm(lambda i: f'gap2(self.lo({i}), self.hi({i}), other.lo({i}), other.hi({i}))')} }}
//@ fn sqr_distance
//@ start
        proof {{
            {' '.join(f'sq_sym(self.lo({i}), other.hi({i})); sq_sym(other.lo({i}), self.hi({i})); sq_nneg(self.lo({i}).ieee_sub(other.hi({i}))); sq_nneg(other.lo({i}).ieee_sub(self.hi({i})));' for i in range(n))}
            assert(!nan(0.0f64)) by {{ assert(0.0f64.ieee_eq(0.0f64)) by(bit_vector); }}
            sq_nneg(0.0f64);
            add_nneg(sq(gap2(self.lo(0), self.hi(0), other.lo(0), other.hi(0))), sq(gap2(self.lo(1), self.hi(1), other.lo(1), other.hi(1))));
            {'add_nneg(sq(gap2(self.lo(0), self.hi(0), other.lo(0), other.hi(0))).ieee_add(sq(gap2(self.lo(1), self.hi(1), other.lo(1), other.hi(1)))), sq(gap2(self.lo(2), self.hi(2), other.lo(2), other.hi(2))));' if n==3 else ''}
        }}
//@ enditem
pub proof fn relations_{n}(a: {BB}, b: {BB})
    requires a.ok(), b.ok(),
    ensures a.overlaps(b) == b.overlaps(a), a.overlaps(a), a.around(b) ==> !b.around(a) && a.overlaps(b),
        a.dist_req(&b) == b.dist_req(&a) && (a.dist_req(&b) ==> a.sqr_dist(&b) == b.sqr_dist(&a)),
        // no gap if and only if the closed boxes meet
        a.dist_req(&b) && a.overlaps(b) ==> a.sqr_dist(&b).ieee_eq(0.0f64),
{{
    {' '.join(f'lt_facts(a.lo({i}), a.hi({i})); lt_facts(b.lo({i}), b.hi({i})); each_dim(a.lo({i}), a.hi({i}), b.lo({i}), b.hi({i}));' for i in range(n))}
    zero_sums();
}}
/// inside or on the box: no distance
pub proof fn zero_distance_{n}(a: {BB}, p: spec_fn(int) -> f64)
    requires a.ok(), {', '.join(f'a.lo({i}).ieee_le(p({i})), p({i}).ieee_le(a.hi({i}))' for i in range(n))},
    ensures a.sqr_gaps(p).ieee_eq(0.0f64),
{{
    {' '.join(f'le_facts(a.lo({i}), p({i})); le_facts(p({i}), a.hi({i}));' for i in range(n))}
    zero_sums();
}}
'''
    return o
LEM2='''pub proof fn zero_sums() ensures sq(0.0f64).ieee_add(sq(0.0f64)).ieee_eq(0.0f64), sq(0.0f64).ieee_add(sq(0.0f64)).ieee_add(sq(0.0f64)).ieee_eq(0.0f64) {
    assert(0.0f64.ieee_mul(0.0f64).ieee_add(0.0f64.ieee_mul(0.0f64)).ieee_eq(0.0f64)) by(bit_vector);
    assert(0.0f64.ieee_mul(0.0f64).ieee_add(0.0f64.ieee_mul(0.0f64)).ieee_add(0.0f64.ieee_mul(0.0f64)).ieee_eq(0.0f64)) by(bit_vector);
}
pub proof fn le_facts(x: f64, y: f64) requires x.ieee_le(y) ensures !nan(x), !nan(y), !y.ieee_lt(x) {
    assert(x.ieee_le(y) ==> x.ieee_eq(x) && y.ieee_eq(y) && !y.ieee_lt(x)) by(bit_vector);
}
pub proof fn each_dim(l: f64, h: f64, l2: f64, h2: f64) requires l.ieee_lt(h), l2.ieee_lt(h2)
    ensures gap2(l, h, l2, h2) == gap2(l2, h2, l, h), l.ieee_lt(h2) && l2.ieee_lt(h) ==> gap2(l, h, l2, h2) == 0.0f64,
        l.ieee_lt(l2) && h2.ieee_lt(h) ==> !(l2.ieee_lt(l) && h.ieee_lt(h2)) && l.ieee_lt(h2) && l2.ieee_lt(h),
{
    lt_facts(l, h); lt_facts(l2, h2); tri(l, h2); tri(l2, h); tri(l, l2); tri(h, h2); tri(h2, l); tri(h, l2); tri(l2, l); tri(h2, h);
    lt_le_trans(h2, l, h); lt_le_trans(l2, h2, h); lt_le_trans(l, l2, h2); lt_le_trans(h, l2, h2); lt_le_trans(l2, h2, l); lt_le_trans(h, h, l2); lt_le_trans(h2, l, l); lt_le_trans(l, h, l2);
    lt_le_trans(l2, l, h); lt_le_trans(l, h, h2); lt_le_trans(h, l2, l); lt_le_trans(h2, h, l2);
    if h2.ieee_lt(l) && h.ieee_lt(l2) { lt_facts(h2, l); lt_facts(h, l2); lt_le_trans(l2, l, h); le_trans(h2, l, h); le_trans(l, h, l2); lt_le_trans(h2, l, l2); lt_facts(h2, l2); }
}
/// the square root of a non-negative number is non-negative (assumed: IEEE sqrt)
#[verifier::external_body]
pub proof fn f_sqrt_nneg(x: f64) ensures nneg(x) ==> nneg(f_sqrt(x)) { }
'''
w('c_bbpred.vc', HEAD+LEM+LEM2+DIST.replace('//@ fn distance default\n//@ ret r\n','//@ fn distance default\n//@ ret r\n')+pred(2)+pred(3)+'fn main() {}\n}\n')

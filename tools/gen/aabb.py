# generates contracts/c_aabb.vc (AABBTree2D/3D)
V='/verif/contracts/'
C='xyz'
def conj(n,f,sep=' && '): return sep.join(f(i) for i in range(n))
out='''#![allow(warnings)]
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use std::ops::*;
use std::marker::PhantomData;
verus! {
//@include float.inc
broadcast use {vstd::seq_lib::group_seq_properties, fl::ax};
//@include base.inc
//@include num.inc
//@include pos.inc
//@include pos2.inc
//@include pos3.inc
//@include point2.inc
//@include point3.inc
//@include flemmas.inc
//@ file src/is_mergeable.rs
//@ trait IsMergeable
//@ header pub trait IsMergeable: Sized
//@ ghost
    spec fn merged(a: &Self, b: &Self, r: &Self) -> bool;
    spec fn mergeable(a: &Self, b: &Self) -> bool;
//@ fn consume
//@ spec
        requires Self::mergeable(old(self), &other),
        ensures Self::merged(old(self), &other, final(self)),
//@ enditem
/// the query appended to `a`, giving `b`, exactly the elements with p (in some order, possibly repeated)
pub open spec fn added<T>(a: Seq<&T>, b: Seq<&T>, p: spec_fn(T) -> bool) -> bool {
    &&& a.len() <= b.len()
    &&& b.take(a.len() as int) == a
    &&& forall|j: int| a.len() <= j < b.len() ==> p(*(#[trigger] b[j]))
    &&& forall|x: T| #[trigger] p(x) ==> exists|j: int| a.len() <= j < b.len() && *(#[trigger] b[j]) == x
}
pub proof fn added_none<T>(a: Seq<&T>, p: spec_fn(T) -> bool)
    requires forall|x: T| !#[trigger] p(x)
    ensures added(a, a, p)
{ assert(a.take(a.len() as int) =~= a); }
pub proof fn added_both<T>(a: Seq<&T>, b: Seq<&T>, c: Seq<&T>, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool, r: spec_fn(T) -> bool)
    requires added(a, b, p), added(b, c, q), forall|x: T| #[trigger] r(x) == (p(x) || q(x)),
    ensures added(a, c, r)
{
    assert(c.take(a.len() as int) =~= c.take(b.len() as int).take(a.len() as int));
    assert forall|j: int| a.len() <= j < c.len() implies r(*(#[trigger] c[j])) by {
        if j < b.len() { assert(c[j] == c.take(b.len() as int)[j]); assert(p(*b[j])); } else { assert(q(*c[j])); }
    }
    assert forall|x: T| #[trigger] r(x) implies exists|j: int| a.len() <= j < c.len() && *(#[trigger] c[j]) == x by {
        if p(x) { let j = choose|j: int| a.len() <= j < b.len() && *(#[trigger] b[j]) == x; assert(c[j] == c.take(b.len() as int)[j]); }
        else { assert(q(x)); let j = choose|j: int| b.len() <= j < c.len() && *(#[trigger] c[j]) == x; }
    }
}
/// filtering a list element by element
pub proof fn added_scan<T>(a: Seq<&T>, b: Seq<&T>, s: Seq<T>, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool)
    requires added(a, b, p), forall|x: T| #[trigger] p(x) == (s.contains(x) && q(x)),
    ensures added(a, b, p)
{ }
/// records the calls of a callback
pub trait Visit<T> {
    spec fn seen(&self) -> Seq<T>;
    fn visit(&mut self, x: &T)
        ensures final(self).seen() == old(self).seen().push(*x);
}
pub open spec fn addedv<T>(a: Seq<T>, b: Seq<T>, p: spec_fn(T) -> bool) -> bool {
    &&& a.len() <= b.len()
    &&& b.take(a.len() as int) == a
    &&& forall|j: int| a.len() <= j < b.len() ==> p(#[trigger] b[j])
    &&& forall|x: T| #[trigger] p(x) ==> exists|j: int| a.len() <= j < b.len() && #[trigger] b[j] == x
}
pub proof fn addedv_none<T>(a: Seq<T>, p: spec_fn(T) -> bool)
    requires forall|x: T| !#[trigger] p(x)
    ensures addedv(a, a, p)
{ assert(a.take(a.len() as int) =~= a); }
pub proof fn addedv_both<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool, r: spec_fn(T) -> bool)
    requires addedv(a, b, p), addedv(b, c, q), forall|x: T| #[trigger] r(x) == (p(x) || q(x)),
    ensures addedv(a, c, r)
{
    assert(c.take(a.len() as int) =~= c.take(b.len() as int).take(a.len() as int));
    assert forall|j: int| a.len() <= j < c.len() implies r(#[trigger] c[j]) by {
        if j < b.len() { assert(c[j] == c.take(b.len() as int)[j]); assert(p(b[j])); } else { assert(q(c[j])); }
    }
    assert forall|x: T| #[trigger] r(x) implies exists|j: int| a.len() <= j < c.len() && #[trigger] c[j] == x by {
        if p(x) { let j = choose|j: int| a.len() <= j < b.len() && #[trigger] b[j] == x; assert(c[j] == c.take(b.len() as int)[j]); }
        else { assert(q(x)); let j = choose|j: int| b.len() <= j < c.len() && #[trigger] c[j] == x; }
    }
}
/// appending the k-th element of a list, if it has q, to those among the first k
pub proof fn scan_step<T>(a: Seq<&T>, b: Seq<&T>, c: Seq<&T>, s: Seq<T>, k: int, q: spec_fn(T) -> bool)
    requires 0 <= k < s.len(), added(a, b, |x: T| s.take(k).contains(x) && q(x)),
        q(s[k]) ==> c.len() == b.len() + 1 && c.take(b.len() as int) == b && *c[b.len() as int] == s[k], !q(s[k]) ==> c == b,
    ensures added(a, c, |x: T| s.take(k + 1).contains(x) && q(x)),
{
    let p = |x: T| s.take(k).contains(x) && q(x);
    let p1 = |x: T| x == s[k] && q(x);
    let r = |x: T| s.take(k + 1).contains(x) && q(x);
    take_contains(s, k);
    assert(added(b, c, p1)) by {
        if q(s[k]) { } else { assert(c.take(b.len() as int) =~= b); }
    }
    assert(forall|x: T| #[trigger] r(x) == (p(x) || p1(x)));
    added_both(a, b, c, p, p1, r);
}
pub proof fn scan_stepv<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>, s: Seq<T>, k: int, q: spec_fn(T) -> bool)
    requires 0 <= k < s.len(), addedv(a, b, |x: T| s.take(k).contains(x) && q(x)),
        q(s[k]) ==> c == b.push(s[k]), !q(s[k]) ==> c == b,
    ensures addedv(a, c, |x: T| s.take(k + 1).contains(x) && q(x)),
{
    let p = |x: T| s.take(k).contains(x) && q(x);
    let p1 = |x: T| x == s[k] && q(x);
    let r = |x: T| s.take(k + 1).contains(x) && q(x);
    take_contains(s, k);
    assert(addedv(b, c, p1)) by {
        assert(c.take(b.len() as int) =~= b);
        if q(s[k]) { assert(c[b.len() as int] == s[k]); }
    }
    assert(forall|x: T| #[trigger] r(x) == (p(x) || p1(x)));
    addedv_both(a, b, c, p, p1, r);
}
pub proof fn push_contains<T>(s: Seq<T>, e: T)
    ensures forall|x: T| #[trigger] s.push(e).contains(x) == (s.contains(x) || x == e)
{
    assert forall|x: T| #[trigger] s.push(e).contains(x) == (s.contains(x) || x == e) by {
        if s.contains(x) { let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == x; assert(s.push(e)[j] == x); }
        if x == e { assert(s.push(e)[s.len() as int] == x); }
    }
}
pub proof fn take_contains<T>(s: Seq<T>, k: int)
    requires 0 <= k < s.len()
    ensures forall|x: T| #[trigger] s.take(k + 1).contains(x) == (s.take(k).contains(x) || x == s[k])
{
    assert forall|x: T| #[trigger] s.take(k + 1).contains(x) == (s.take(k).contains(x) || x == s[k]) by {
        if s.take(k).contains(x) { let j = choose|j: int| 0 <= j < k && #[trigger] s.take(k)[j] == x; assert(s.take(k + 1)[j] == x); }
        if x == s[k] { assert(s.take(k + 1)[k] == x); }
        if s.take(k + 1).contains(x) { let j = choose|j: int| 0 <= j < k + 1 && #[trigger] s.take(k + 1)[j] == x; if j < k { assert(s.take(k)[j] == x); } }
    }
}
'''
LINE='''//@include norm3.inc
//@ file src/line_3d.rs
//@ struct Line3D
//@ enditem
/// the line meets the box (proved for whole numbers in c_ray)
pub uninterp spec fn hit(l: Line3D, b: BoundingBox3D) -> bool;
/// all coordinates are finite
pub uninterp spec fn plain(l: Line3D) -> bool;
/// a box that covers one the line meets is met as well (assumed: IEEE subtraction and division are monotone; proved for whole numbers in c_ray)
#[verifier::external_body]
pub proof fn hit_covers(l: Line3D, b: BoundingBox3D, a: BoundingBox3D) requires plain(l), b.covers(a), hit(l, a) ensures hit(l, b) { }
//@ file src/functions.rs
//@ freefn intersection trusted
//@ ret r
//@ spec
    ensures r.is_some() == hit(*l, *b),
//@ enditem
//@ file src/aa_bb_tree_3d.rs
'''
def gen(n):
    D=f'{n}D'; BB=f'BoundingBox{D}'; H=f'HasBoundingBox{D}'; T=f'AABBTree{D}'; P=f'Point{D}'; c=f'//@ file src/bounding_box_{n}d.rs\n'
    o=c+f'''//@ struct {BB}
//@ enditem
impl Clone for {BB} {{ fn clone(&self) -> (r: Self) ensures r == *self {{ {BB} {{ min: self.min.clone(), max: self.max.clone() }} }} }}
impl {BB} {{
    pub open spec fn lo(&self, i: int) -> f64 {{ self.min.at(i) }}
    pub open spec fn hi(&self, i: int) -> f64 {{ self.max.at(i) }}
    /// the minimum is strictly below the maximum in every dimension
    pub open spec fn ok(&self) -> bool {{ {conj(n,lambda i:f"self.lo({i}).ieee_lt(self.hi({i}))")} }}
    pub open spec fn is(&self, a: spec_fn(int) -> f64, b: spec_fn(int) -> f64) -> bool {{ {conj(n,lambda i:f"self.lo({i}) == a({i}) && self.hi({i}) == b({i})")} }}
    /// the open extents overlap in every dimension
    pub open spec fn overlaps(&self, a: {BB}) -> bool {{ {conj(n,lambda i:f"self.lo({i}).ieee_lt(a.hi({i})) && a.lo({i}).ieee_lt(self.hi({i}))")} }}
    /// the value lies strictly between the limits
    pub open spec fn crosses(&self, i: int, v: f64) -> bool {{ self.lo(i).ieee_lt(v) && v.ieee_lt(self.hi(i)) }}
    /// `a` is a valid box within the limits of `self`
    pub open spec fn covers(&self, a: {BB}) -> bool {{ a.ok() && {conj(n,lambda i:f"self.lo({i}).ieee_le(a.lo({i})) && a.hi({i}).ieee_le(self.hi({i}))")} }}
}}
pub proof fn covers_self{n}(a: {BB}) requires a.ok() ensures a.covers(a) {{ {" ".join(f"lt_facts(a.lo({i}), a.hi({i})); tri(a.lo({i}), a.lo({i})); tri(a.hi({i}), a.hi({i}));" for i in range(n))} }}
pub proof fn covers_trans{n}(b: {BB}, a: {BB}, x: {BB}) requires b.covers(a), a.covers(x) ensures b.covers(x) {{ {" ".join(f"le_trans(b.lo({i}), a.lo({i}), x.lo({i})); le_trans(x.hi({i}), a.hi({i}), b.hi({i}));" for i in range(n))} }}
/// whatever an element's box is hit by also hits every box around it
pub proof fn covers_hits{n}(b: {BB}, a: {BB})
    requires b.covers(a)
    ensures forall|q: {BB}| #[trigger] a.overlaps(q) ==> b.overlaps(q), forall|i: int, v: f64| 0 <= i < {n} && #[trigger] a.crosses(i, v) ==> b.crosses(i, v),
{{
    assert forall|q: {BB}| #[trigger] a.overlaps(q) implies b.overlaps(q) by {{ {" ".join(f"lt_le_trans(b.lo({i}), a.lo({i}), q.hi({i})); lt_le_trans(q.lo({i}), a.hi({i}), b.hi({i}));" for i in range(n))} }}
    assert forall|i: int, v: f64| 0 <= i < {n} && #[trigger] a.crosses(i, v) implies b.crosses(i, v) by {{ assert({" || ".join(f"i == {i}" for i in range(n))}); lt_le_trans(b.lo(i), a.lo(i), v); lt_le_trans(v, a.hi(i), b.hi(i)); }}
}}
/// the merged box is valid and covers both
pub proof fn merged_covers{n}(a: {BB}, b: {BB}, r: {BB})
    requires a.ok(), b.ok(), {BB}::merged(&a, &b, &r),
    ensures r.ok(), r.covers(a), r.covers(b),
{{
    assert forall|i: int| 0 <= i < {n} implies #[trigger] r.lo(i).ieee_le(a.lo(i)) && r.lo(i).ieee_le(b.lo(i)) && a.hi(i).ieee_le(r.hi(i)) && b.hi(i).ieee_le(r.hi(i)) && r.lo(i).ieee_lt(r.hi(i)) by {{
        assert(i == 0 || i == 1 || i == 2);
        let (p, q, s, t) = (a.lo(i), b.lo(i), a.hi(i), b.hi(i));
        lt_facts(p, s); lt_facts(q, t);
        tri(p, q); tri(q, p); tri(s, t); tri(t, s); tri(p, p); tri(q, q); tri(s, s); tri(t, t);
        assert(r.lo(i) == (if q.ieee_lt(p) {{ q }} else {{ p }}) && r.hi(i) == (if s.ieee_lt(t) {{ t }} else {{ s }}));
        lt_le_trans(q, p, s); lt_le_trans(q, t, s); lt_le_trans(p, s, t); lt_le_trans(q, p, t);
    }}
    assert({conj(n,lambda i:f"r.lo({i}).ieee_le(a.lo({i}))")});
}}
//@ impl {BB}
//@ fn min_p
//@ ret r
//@ spec
        ensures r == self.min,
//@ fn max_p
//@ ret r
//@ spec
        ensures r == self.max,
//@ fn center_bb
//@ ret r
//@ spec
        ensures true,
//@ fn collides_with
//@ ret r
//@ spec
        requires self.ok(), other.ok(),
        ensures r == self.overlaps(*other),
'''
    for i in range(n):
        o+=f'''//@ fn crossing_{C[i]}_value
//@ ret r
//@ spec
        ensures r == self.crosses({i}, {C[i]}),
'''
    o+=f'''//@ enditem
//@ impl IsMergeable for {BB}
//@ ghost
    open spec fn merged(a: &Self, b: &Self, r: &Self) -> bool {{
        r.is(|i: int| if b.min.at(i).ieee_lt(a.min.at(i)) {{ b.min.at(i) }} else {{ a.min.at(i) }}, |i: int| if a.max.at(i).ieee_lt(b.max.at(i)) {{ b.max.at(i) }} else {{ a.max.at(i) }})
    }}
    open spec fn mergeable(a: &Self, b: &Self) -> bool {{ a.ok() && b.ok() }}
//@ fn consume
//@ enditem
//@ file src/has_bounding_box_{n}d.rs
//@ trait {H}
//@ header pub trait {H}: Sized
//@ ghost
    /// the element has a bounding box
    spec fn has_bb(&self) -> bool;
    spec fn bb(&self) -> {BB};
//@ fn bounding_box
//@ ret r
//@ spec
        requires self.has_bb(),
        ensures r == self.bb(), r.ok(),
//@ enditem
pub open spec fn all_bb{n}<HB: {H}>(s: Seq<HB>) -> bool {{ forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).has_bb() && s[j].bb().ok() }}
//@ file src/aa_bb_tree_{n}d.rs
//@ struct {T}Leaf
//@ enditem
//@ struct {T}Branch
//@ enditem
//@ enum {T}
//@ enditem
'''
    if n==3: o+='//@ enum Compare\n//@ enditem\n'
    if n==3: o+=LINE
    o+=f'''
impl<HB: {H} + Clone> {T}<HB> {{
    /// x is an element of some leaf
    pub open spec fn holds(&self, x: HB) -> bool decreases *self {{
        match *self {{ {T}::Empty => false, {T}::Leaf(l) => l.holds(x), {T}::Branch(b) => b.left.holds(x) || b.right.holds(x) }}
    }}
    /// every node's box is valid and covers the boxes of all elements below
    pub open spec fn wf(&self) -> bool decreases *self {{
        match *self {{ {T}::Empty => true, {T}::Leaf(l) => l.wf(), {T}::Branch(b) => b.left.wf() && b.right.wf() && b.bb.ok() && (forall|x: HB| #[trigger] b.left.holds(x) ==> x.has_bb() && b.bb.covers(x.bb())) && (forall|x: HB| #[trigger] b.right.holds(x) ==> x.has_bb() && b.bb.covers(x.bb())) }}
    }}
}}
impl<HB: {H} + Clone> {T}Leaf<HB> {{
    pub open spec fn holds(&self, x: HB) -> bool {{ self.data@.contains(x) }}
    pub open spec fn wf(&self) -> bool {{ self.bb.ok() && forall|x: HB| #[trigger] self.data@.contains(x) ==> x.has_bb() && self.bb.covers(x.bb()) }}
}}
impl<HB: {H} + Clone> {T}Branch<HB> {{
    pub open spec fn holds(&self, x: HB) -> bool {{ self.left.holds(x) || self.right.holds(x) }}
    pub open spec fn wf(&self) -> bool {{ self.left.wf() && self.right.wf() && self.bb.ok() && (forall|x: HB| #[trigger] self.left.holds(x) ==> x.has_bb() && self.bb.covers(x.bb())) && (forall|x: HB| #[trigger] self.right.holds(x) ==> x.has_bb() && self.bb.covers(x.bb())) }}
}}
'''
    qs=[('bb_colliding','bb.ok()','x.bb().overlaps(*bb)','self.bb.overlaps(*bb)')]+[(f'bb_crossing_{C[i]}_value','true',f'x.bb().crosses({i}, {C[i]}0)',f'self.bb.crosses({i}, {C[i]}0)') for i in range(n)]
    def q(kind,name,req,hit):
        # the query variable may be called x: alias
        v=name[12] if name!='bb_colliding' else 'bb'
        fx='y' if v!='bb' else 'x'
        h=hit.replace('x.bb()','e.bb()').replace(v+'0)', v+')') if v!='bb' else hit.replace('x.bb()','e.bb()')
        dec='*self' if kind!='leaf' else ''
        s=f'''//@ fn {name}
//@ spec
        requires self.wf(), {req},
        ensures added(old(result)@, final(result)@, |e: HB| self.holds(e) && {h}),
'''
        # decreases
        if kind=='tree': s+='        decreases *self, 1int,\n'
        if kind=='branch': s+='        decreases *self, 0int,\n'
        P=f'|e: HB| self.holds(e) && {h}'
        if kind=='tree':
            s+=f'''//@ start
        proof {{ match self {{ {T}::Empty => added_none(old(result)@, {P}), _ => {{ }} }} }}
//@ tailwrap
        proof {{
            match self {{
                {T}::Empty => {{ }}
                {T}::Leaf(l) => {{ assert((|e: HB| l.holds(e) && {h}) =~= ({P})); }}
                {T}::Branch(b) => {{ assert((|e: HB| b.holds(e) && {h}) =~= ({P})); }}
            }}
        }}
'''
        elif kind=='branch':
            s+=f'''//@ start
        let ghost r0 = result@;
        let ghost pl = |e: HB| self.left.holds(e) && {h};
        let ghost pr = |e: HB| self.right.holds(e) && {h};
        let ghost p = {P};
        proof {{
            assert forall|e: HB| #[trigger] p(e) implies {hitself(hit,v)} by {{ covers_hits{n}(self.bb, e.bb()); }}
            if !({hitself(hit,v)}) {{ added_none(r0, p); }}
        }}
//@ after `self.left.{name}({v}, result);`
            let ghost r1 = result@;
//@ after `self.right.{name}({v}, result);`
            proof {{ added_both(r0, r1, result@, pl, pr, p); }}
'''
        else:
            it=f'''//@ loop 0 iter it
//@ loop 0 inv
                invariant it.seq().len() == self.data@.len(), forall|i: int| 0 <= i < self.data@.len() ==> *(#[trigger] it.seq()[i]) == self.data@[i],
                    self.wf(), {req}, added(r0, result@, |e: HB| self.data@.take(it.index@).contains(e) && qh(e)), qh == (|e: HB| {h}),
//@ loop 0 before
            proof {{ added_none(r0, |e: HB| self.data@.take(0).contains(e) && qh(e)); }}
//@ loop 0 start
                let ghost r1 = result@; let ghost k = it.index@;
                proof {{ assert(self.data@.contains(self.data@[k])); }}
//@ loop 0 end
                proof {{ assert(qh(self.data@[k]) ==> result@.take(r1.len() as int) =~= r1); scan_step(r0, r1, result@, self.data@, k, qh); }}
//@ loop 0 after
            proof {{ assert(self.data@.take(self.data@.len() as int) =~= self.data@); assert((|e: HB| self.data@.take(self.data@.len() as int).contains(e) && qh(e)) =~= p); }}
'''
            s+=f'''//@ start
        let ghost r0 = result@;
        let ghost qh = |e: HB| {h};
        let ghost p = {P};
        proof {{
            assert forall|e: HB| #[trigger] p(e) implies {hitself(hit,v)} by {{ covers_hits{n}(self.bb, e.bb()); }}
            if !({hitself(hit,v)}) {{ added_none(r0, p); }}
        }}
'''+it
        return s
    def hitself(hit,v): return hit.replace('x.bb()','self.bb').replace(v+'0)',v+')') if v!='bb' else hit.replace('x.bb()','self.bb')
    def fe(kind):
        r=fe_(kind,'for_each_collision_candidate','bb','bb.ok(), ',lambda e:f'{e}.overlaps(*bb)',f'covers_hits{n}(self.bb, e.bb());')
        if n==3: r+=fe_(kind,'for_each_intersection_candidate','line','plain(*line), ',lambda e:f'hit(*line, {e})','hit_covers(*line, self.bb, e.bb());')
        return r
    def fe_(kind,F,A,req,hit,lem):
        VP=f'|e: HB| self.holds(e) && {hit("e.bb()")}'
        s=f'''//@ fn {F}
//@ sigreplace `&mut dyn FnMut(&HB)` => `&mut impl Visit<HB>` ; the callback is any visitor that records its calls
//@ spec
        requires self.wf(), {req.strip()}
        ensures addedv(old(f).seen(), final(f).seen(), {VP}),
'''
        if kind=='tree': s+='        decreases *self, 1int,\n'
        if kind=='branch': s+='        decreases *self, 0int,\n'
        if kind=='tree':
            s+=f'''//@ start
        proof {{ match self {{ {T}::Empty => addedv_none(old(f).seen(), {VP}), _ => {{ }} }} }}
//@ tailwrap
        proof {{
            match self {{
                {T}::Empty => {{ }}
                {T}::Leaf(l) => {{ assert((|e: HB| l.holds(e) && {hit("e.bb()")}) =~= ({VP})); }}
                {T}::Branch(b) => {{ assert((|e: HB| b.holds(e) && {hit("e.bb()")}) =~= ({VP})); }}
            }}
        }}
'''
        head=f'''//@ start
        let ghost r0 = f.seen();
        let ghost qh = |e: HB| {hit("e.bb()")};
        let ghost p = {VP};
        proof {{
            assert forall|e: HB| #[trigger] p(e) implies {hit("self.bb")} by {{ {lem} }}
            if !{hit("self.bb")} {{ addedv_none(r0, p); }}
        }}
'''
        if kind=='branch':
            s+=head+f'''//@ after `self.left.{F}({A}, f);`
            let ghost r1 = f.seen();
//@ after `self.right.{F}({A}, f);`
            proof {{ addedv_both(r0, r1, f.seen(), |e: HB| self.left.holds(e) && {hit("e.bb()")}, |e: HB| self.right.holds(e) && {hit("e.bb()")}, p); }}
'''
        if kind=='leaf':
            s+='''//@ replace `f(x)` => `f.visit(x)` ; calling the visitor
'''+head+f'''//@ loop 0 iter it
//@ loop 0 inv
                invariant it.seq().len() == self.data@.len(), forall|i: int| 0 <= i < self.data@.len() ==> *(#[trigger] it.seq()[i]) == self.data@[i],
                    self.wf(), {req}addedv(r0, f.seen(), |e: HB| self.data@.take(it.index@).contains(e) && qh(e)), qh == (|e: HB| {hit("e.bb()")}),
//@ loop 0 before
            proof {{ addedv_none(r0, |e: HB| self.data@.take(0).contains(e) && qh(e)); }}
//@ loop 0 start
                let ghost r1 = f.seen(); let ghost k = it.index@;
                proof {{ assert(self.data@.contains(self.data@[k])); }}
//@ loop 0 end
                proof {{ scan_stepv(r0, r1, f.seen(), self.data@, k, qh); }}
//@ loop 0 after
            proof {{ assert(self.data@.take(self.data@.len() as int) =~= self.data@); assert((|e: HB| self.data@.take(self.data@.len() as int).contains(e) && qh(e)) =~= p); }}
'''
        return s
    def any_(kind):
        s=f'''//@ fn any
//@ sigreplace `&dyn Fn(&HB) -> bool` => `&impl Fn(&HB) -> bool` ; a trait object replaced by a generic
//@ ret r
//@ spec
        requires forall|e: HB| self.holds(e) ==> #[trigger] call_requires(f, (&e,)),
        ensures r ==> exists|e: HB| self.holds(e) && #[trigger] call_ensures(f, (&e,), true), !r ==> forall|e: HB| self.holds(e) ==> #[trigger] call_ensures(f, (&e,), false),
'''
        if kind=='tree': s+='        decreases *self, 1int,\n'
        if kind=='branch': s+='        decreases *self, 0int,\n'
        if kind=='leaf': s+='''//@ loop 0 iter it
//@ loop 0 inv
                invariant it.seq().len() == self.data@.len(), forall|i: int| 0 <= i < self.data@.len() ==> *(#[trigger] it.seq()[i]) == self.data@[i],
                    forall|e: HB| self.holds(e) ==> #[trigger] call_requires(f, (&e,)),
                    forall|i: int| 0 <= i < it.index@ ==> call_ensures(f, (&#[trigger] self.data@[i],), false),
//@ loop 0 start
                proof { assert(self.holds(self.data@[it.index@])); }
'''
        return s
    o+=f'''//@ impl {T}Leaf
//@ fn new
//@ ret r
//@ spec
        ensures r.data == data, r.bb == bb,
'''+any_('leaf')+fe('leaf')+''.join(q('leaf',a,b,c_) for a,b,c_,_ in qs)+'//@ enditem\n'
    o+=f'''//@ impl {T}Branch
//@ fn new
//@ ret r
//@ spec
        ensures r.left == left, r.right == right, r.bb == bb,
            forall|x: HB| #[trigger] {T}::Branch(r).holds(x) == (left.holds(x) || right.holds(x)),
'''+any_('branch')+fe('branch')+''.join(q('branch',a,b,c_) for a,b,c_,_ in qs)+'//@ enditem\n'
    AX={2:'(if compx { 0int } else { 1int })',3:'(match comp { Compare::X => 0int, Compare::Y => 1int, Compare::Z => 2int })'}[n]
    def cond(w,e): return (f'{e}.bb().lo(AX).ieee_lt(center.at(AX))' if w=='left' else f'center.at(AX).ieee_le({e}.bb().hi(AX))').replace('AX',AX)
    def part(k,w):
        return f'''//@ loop {k} iter it
//@ loop {k} inv
                        invariant it.seq().len() == data@.len(), forall|i: int| 0 <= i < data@.len() ==> *(#[trigger] it.seq()[i]) == data@[i],
                            all_bb{n}(data@), forall|a: HB, b: HB| #[trigger] call_ensures(HB::clone, (&a,), b) ==> a == b,
                            forall|x: HB| #[trigger] coll__{k}@.contains(x) ==> data@.contains(x) && {cond(w,'x')},
                            forall|i: int| 0 <= i < it.index@ && {cond(w,'(#[trigger] data@[i])')} ==> coll__{k}@.contains(data@[i]),
//@ loop {k} start
                        let ghost idx = it.index@;
                        proof {{ assert(data@.contains(data@[idx])); }}
//@ loop {k} end
                        proof {{ assert(elem__{k} == data@[idx]); push_contains(coll__{k}@, elem__{k}); }}
'''
    args='compx' if n==2 else '*comp'
    side='''compx: bool''' if n==2 else 'comp: Compare'
    sel={2:lambda f:f'(if compx {{ {f(0)} }} else {{ {f(1)} }})',3:lambda f:f'(match *comp {{ Compare::X => {f(0)}, Compare::Y => {f(1)}, Compare::Z => {f(2)} }})'}[n]
    o+=f'''//@ impl {T}
//@ fn new
//@ ret r
//@ spec
        requires all_bb{n}(data@), forall|a: HB, b: HB| #[trigger] call_ensures(HB::clone, (&a,), b) ==> a == b,
        ensures r.wf(), forall|x: HB| #[trigger] r.holds(x) == data@.contains(x),
'''+any_('tree')+fe('tree')+''.join(q('tree',a,b,c_) for a,b,c_,_ in qs)+f'''//@ fn new_rec
//@ ret r
//@ spec
        requires all_bb{n}(data@), depth <= maxdepth, forall|a: HB, b: HB| #[trigger] call_ensures(HB::clone, (&a,), b) ==> a == b,
        ensures r.wf(), forall|x: HB| #[trigger] r.holds(x) == data@.contains(x),
        decreases maxdepth - depth,
'''+''.join(part(k,w) for k,w in ((0,'left'),(1,'right')))+f'''//@ before `if dleft.is_empty()`
                    proof {{
                        assert forall|j: int| 0 <= j < dleft@.len() implies (#[trigger] dleft@[j]).has_bb() && dleft@[j].bb().ok() by {{ assert(dleft@.contains(dleft@[j])); assert(bb.covers(dleft@[j].bb())); }}
                        assert forall|j: int| 0 <= j < dright@.len() implies (#[trigger] dright@[j]).has_bb() && dright@[j].bb().ok() by {{ assert(dright@.contains(dright@[j])); assert(bb.covers(dright@[j].bb())); }}
                        if dleft@.len() > 0 && dright@.len() > 0 {{
                            let e = dleft@[0];
                            assert(dleft@.contains(e));
                            lt_facts(e.bb().lo(AX), center.at(AX));
                            assert forall|x: HB| #[trigger] data@.contains(x) implies dleft@.contains(x) || dright@.contains(x) by {{
                                let j = choose|j: int| 0 <= j < data@.len() && data@[j] == x;
                                assert(data@[j].bb().ok());
                                lt_facts(x.bb().lo(AX), x.bb().hi(AX));
                                tri(x.bb().lo(AX), center.at(AX)); tri(center.at(AX), x.bb().lo(AX)); tri(center.at(AX), x.bb().hi(AX));
                                lt_le_trans(center.at(AX), x.bb().lo(AX), x.bb().hi(AX)); if center.at(AX).ieee_lt(x.bb().hi(AX)) {{ lt_facts(center.at(AX), x.bb().hi(AX)); }}
                            }}
                        }}
                    }}
'''.replace('AX',AX)+f'''//@ before `{T}::Branch({T}Branch::new(`
                        proof {{
                            assert(forall|x: HB| #[trigger] left.holds(x) ==> data@.contains(x));
                            assert(forall|x: HB| #[trigger] right.holds(x) ==> data@.contains(x));
                            assert(forall|x: HB| #[trigger] data@.contains(x) ==> left.holds(x) || right.holds(x));
                        }}
//@ fn is_left_of
//@ ret r
//@ spec
        ensures r == {sel(lambda i:f"bb.lo({i}).ieee_lt(center.at({i}))")},
//@ fn is_right_of
//@ ret r
//@ spec
        ensures r == {sel(lambda i:f"center.at({i}).ieee_le(bb.hi({i}))")},
//@ fn bb_of
//@ ret r
//@ spec
        requires all_bb{n}(data@),
        ensures r.is_ok() == (data@.len() > 0), r.is_ok() ==> r->Ok_0.ok() && forall|x: HB| #[trigger] data@.contains(x) ==> x.has_bb() && r->Ok_0.covers(x.bb()),
//@ loop 0 iter it
//@ loop 0 inv
            invariant it.seq().len() == data@.len(), forall|i: int| 0 <= i < data@.len() ==> *(#[trigger] it.seq()[i]) == data@[i],
                all_bb{n}(data@), result.ok(), forall|i: int| 0 <= i < it.index@ ==> result.covers((#[trigger] data@[i]).bb()),
//@ loop 0 start
            let ghost b0 = result; let ghost k = it.index@;
//@ loop 0 end
            proof {{
                merged_covers{n}(b0, data@[k].bb(), result);
                assert forall|i: int| 0 <= i < k + 1 implies result.covers((#[trigger] data@[i]).bb()) by {{ if i < k {{ covers_trans{n}(result, b0, data@[i].bb()); }} }}
            }}
//@ enditem
'''
    return o
out+=gen(2)+gen(3)+'} // verus!\nfn main() {}\n'
open(V+'c_aabb.vc','w').write(out)

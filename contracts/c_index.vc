#![allow(warnings)]
use vstd::prelude::*;
verus! {
broadcast use vstd::seq_lib::group_seq_properties;
//@include ic_trait.inc
pub proof fn vec_len<T>(v: Vec<T>) ensures v@.len() <= usize::MAX { let l = v.len(); assert(l == v@.len()); }
//@include ic_iter.inc
//@ file src/dynamic_precision_index_vec.rs
//@ struct DynamicPrecisionIndexVec
//@ attrs
#[derive(Clone)]
//@ enditem
//@ enum Mode
//@ attrs
#[derive(Clone)]
//@ enditem
pub open spec fn up8(s: Seq<u8>) -> Seq<usize> { Seq::new(s.len(), |i: int| s[i] as usize) }
pub open spec fn up16(s: Seq<u16>) -> Seq<usize> { Seq::new(s.len(), |i: int| s[i] as usize) }
pub open spec fn up32(s: Seq<u32>) -> Seq<usize> { Seq::new(s.len(), |i: int| s[i] as usize) }
impl Mode {
    pub open spec fn iv(&self) -> Seq<usize> {
        match self {
            Mode::U8(v) => up8(v@),
            Mode::U16(v) => up16(v@),
            Mode::U32(v) => up32(v@),
            Mode::Usize(v) => v@,
        }
    }
    pub open spec fn max(&self) -> usize {
        match self { Mode::U8(_) => 0xffusize, Mode::U16(_) => 0xffffusize, Mode::U32(_) => 0xffff_ffffusize, Mode::Usize(_) => usize::MAX }
    }
}
global size_of usize == 8;
impl DynamicPrecisionIndexVec {
    pub open spec fn iv(&self) -> Seq<usize> { self.mode.iv() }
}
//@ impl Default for Mode
//@ header impl Mode
//@ fn default
//@ ret r
//@ spec
        ensures r.iv() == Seq::<usize>::empty(),
//@ tailwrap
   assert(ret__.iv() =~= Seq::<usize>::empty());
//@ enditem
//@ impl DynamicPrecisionIndexVec
//@ fn new
//@ ret r
//@ spec
        ensures r.iv() == Seq::<usize>::empty(),
//@ tailwrap
   assert(ret__.iv() =~= Seq::<usize>::empty());
//@ fn get_u8
//@ ret r
//@ spec
        ensures r.is_some() == (self.mode is U8), r.is_some() ==> up8(r.unwrap()@) == self.iv(),
//@ fn get_u16
//@ ret r
//@ spec
        ensures r.is_some() == (self.mode is U16), r.is_some() ==> up16(r.unwrap()@) == self.iv(),
//@ fn get_u32
//@ ret r
//@ spec
        ensures r.is_some() == (self.mode is U32), r.is_some() ==> up32(r.unwrap()@) == self.iv(),
//@ fn get_usize
//@ ret r
//@ spec
        ensures final(self).iv() == old(self).iv(), r.is_some() == (old(self).mode is Usize), r.is_some() ==> r.unwrap()@ == old(self).iv(),
//@ fn get_usize_upgraded
//@ ret r
//@ spec
        ensures r@ == old(self).iv(), final(self).iv() == old(self).iv(), final(self).mode is Usize,
//@ replace `panic!("Logic error in get_usize_upgraded of DynamicPrecisionIndexVec")` => `vstd::pervasive::unreached()` ; panic must be unreachable
//@ fn upgrade_to_usize
//@ spec
        ensures final(self).iv() == old(self).iv(), final(self).mode is Usize, 
//@ loop 0 iter it
//@ loop 0 inv
    invariant it.seq().len() == vec@.len(), forall|i: int| 0 <= i < vec@.len() ==> *it.seq()[i] == vec@[i],
        coll__0@ == up8(vec@).take(it.index@),
//@ loop 0 start
    assert(up8(vec@).take(it.index@ + 1) =~= up8(vec@).take(it.index@).push(vec@[it.index@] as usize));
//@ loop 0 after
    assert(up8(vec@).take(vec@.len() as int) =~= up8(vec@));
//@ loop 1 iter it
//@ loop 1 inv
    invariant it.seq().len() == vec@.len(), forall|i: int| 0 <= i < vec@.len() ==> *it.seq()[i] == vec@[i],
        coll__1@ == up16(vec@).take(it.index@),
//@ loop 1 start
    assert(up16(vec@).take(it.index@ + 1) =~= up16(vec@).take(it.index@).push(vec@[it.index@] as usize));
//@ loop 1 after
    assert(up16(vec@).take(vec@.len() as int) =~= up16(vec@));
//@ loop 2 iter it
//@ loop 2 inv
    invariant it.seq().len() == vec@.len(), forall|i: int| 0 <= i < vec@.len() ==> *it.seq()[i] == vec@[i],
        coll__2@ == up32(vec@).take(it.index@),
//@ loop 2 start
    assert(up32(vec@).take(it.index@ + 1) =~= up32(vec@).take(it.index@).push(vec@[it.index@] as usize));
//@ loop 2 after
    assert(up32(vec@).take(vec@.len() as int) =~= up32(vec@));
//@ fn upgrade_to_u32
//@ spec
        ensures final(self).iv() == old(self).iv(), final(self).mode.max() >= 0xffff_ffff,
//@ loop 0 iter it
//@ loop 0 inv
    invariant it.seq().len() == vec@.len(), forall|i: int| 0 <= i < vec@.len() ==> *it.seq()[i] == vec@[i],
        coll__0@.len() == it.index@, up32(coll__0@) =~= up8(vec@).take(it.index@),
//@ loop 0 after
    assert(up8(vec@).take(vec@.len() as int) =~= up8(vec@));
//@ loop 1 iter it
//@ loop 1 inv
    invariant it.seq().len() == vec@.len(), forall|i: int| 0 <= i < vec@.len() ==> *it.seq()[i] == vec@[i],
        coll__1@.len() == it.index@, up32(coll__1@) =~= up16(vec@).take(it.index@),
//@ loop 1 after
    assert(up16(vec@).take(vec@.len() as int) =~= up16(vec@));
//@ fn upgrade_to_u16
//@ spec
        ensures final(self).iv() == old(self).iv(), final(self).mode.max() >= 0xffff,
//@ loop 0 iter it
//@ loop 0 inv
    invariant it.seq().len() == vec@.len(), forall|i: int| 0 <= i < vec@.len() ==> *it.seq()[i] == vec@[i],
        coll__0@.len() == it.index@, up16(coll__0@) =~= up8(vec@).take(it.index@),
//@ loop 0 after
    assert(up8(vec@).take(vec@.len() as int) =~= up8(vec@));
//@ fn allowed_max
//@ ret r
//@ spec
        ensures r == self.mode.max(),
//@ enditem
//@ impl IsIndexContainer for DynamicPrecisionIndexVec
//@ ghost
    open spec fn iv(&self) -> Seq<usize> { self.mode.iv() }
    open spec fn admits(x: usize) -> bool { true }
    proof fn iv_len(&self) { match self.mode { Mode::U8(v) => vec_len(v), Mode::U16(v) => vec_len(v), Mode::U32(v) => vec_len(v), Mode::Usize(v) => vec_len(v) } }
    // #[derive(Default)], restated
    fn default() -> Self { Self { mode: Mode::default() } }
//@ fn ensure_supported
//@ spec
        ensures final(self).mode.max() >= x,
//@ fn get
//@ fn set
//@ tailwrap
   assert(self.iv() =~= old(self).iv().update(i as int, x));
//@ fn push
//@ start
    let ghost o = self.iv();
//@ fn len
//@ fn reserve
//@ enditem


//@ file src/dynamic_precision_index_vec.rs
/// `.iter().max()` of the standard library (assumed): some element that no other element exceeds
#[verifier::external_body]
pub fn max_usize(v: &Vec<usize>) -> (r: Option<usize>)
    ensures r.is_some() == (v@.len() > 0), r.is_some() ==> v@.contains(r.unwrap()) && forall|i: int| 0 <= i < v@.len() ==> v@[i] <= r.unwrap(),
{ unimplemented!() }
#[verifier::external_body]
pub fn max_u32(v: &Vec<u32>) -> (r: Option<&u32>)
    ensures r.is_some() == (v@.len() > 0), r.is_some() ==> v@.contains(*r.unwrap()) && forall|i: int| 0 <= i < v@.len() ==> v@[i] <= *r.unwrap(),
{ unimplemented!() }
#[verifier::external_body]
pub fn max_u16(v: &Vec<u16>) -> (r: Option<&u16>)
    ensures r.is_some() == (v@.len() > 0), r.is_some() ==> v@.contains(*r.unwrap()) && forall|i: int| 0 <= i < v@.len() ==> v@[i] <= *r.unwrap(),
{ unimplemented!() }
//@ impl From<&Vec<usize>> for DynamicPrecisionIndexVec
//@ header impl DynamicPrecisionIndexVec
//@ fn from
//@ ret r
//@ spec
        ensures r.iv() == vec@,
//@ rename from_ref_usize
//@ replace `vec.iter().max()` => `max_usize(vec)` ; standard-library maximum, contract assumed
//@ replace `for x in vec.iter()` => `let mut it__ = IsIndexContainerIterator::new(vec); while let Some(x) = it__.next()` ; desugared for loop over the library's own iterator
//@ loop 0 inv
    invariant_except_break it__.parent == vec, it__.max == vec.iv().len(), it__.index <= it__.max, result.iv() == vec@.take(it__.index as int),
    ensures result.iv() == vec@,
    decreases it__.max - it__.index
//@ loop 0 before
    assert(result.iv() =~= vec@.take(0));
//@ loop 0 end
    assert(result.iv() =~= vec@.take(it__.index as int));
//@ tail
    assert(vec@.len() == 0 ==> vec@ =~= Seq::<usize>::empty());
//@ enditem
//@ impl From<Vec<usize>> for DynamicPrecisionIndexVec
//@ header impl DynamicPrecisionIndexVec
//@ fn from
//@ ret r
//@ spec
        ensures r.iv() == vec@,
//@ rename from_usize
//@ replace `Self::from(&vec)` => `Self::from_ref_usize(&vec)` ; see above
//@ enditem
//@ impl From<&Vec<u32>> for DynamicPrecisionIndexVec
//@ header impl DynamicPrecisionIndexVec
//@ fn from
//@ ret r
//@ spec
        ensures r.iv() == up32(vec@),
//@ rename from_ref_u32
//@ replace `vec.iter().max()` => `max_u32(vec)` ; standard-library maximum, contract assumed
//@ loop 0 iter it
//@ loop 0 inv
    invariant it.seq().len() == vec@.len(), forall|i: int| 0 <= i < vec@.len() ==> *it.seq()[i] == vec@[i],
        result.iv() == up32(vec@).take(it.index@),
//@ loop 0 before
    assert(result.iv() =~= up32(vec@).take(0));
//@ loop 0 end
    assert(result.iv() =~= up32(vec@).take(it.index@ + 1));
//@ loop 0 after
    assert(up32(vec@).take(vec@.len() as int) =~= up32(vec@));
//@ tail
    assert(vec@.len() == 0 ==> up32(vec@) =~= Seq::<usize>::empty());
//@ enditem
//@ impl From<Vec<u32>> for DynamicPrecisionIndexVec
//@ header impl DynamicPrecisionIndexVec
//@ fn from
//@ ret r
//@ spec
        ensures r.iv() == up32(vec@),
//@ rename from_u32
//@ replace `Self::from(&vec)` => `Self::from_ref_u32(&vec)` ; see above
//@ enditem
//@ impl From<&Vec<u16>> for DynamicPrecisionIndexVec
//@ header impl DynamicPrecisionIndexVec
//@ fn from
//@ ret r
//@ spec
        ensures r.iv() == up16(vec@),
//@ rename from_ref_u16
//@ replace `vec.iter().max()` => `max_u16(vec)` ; standard-library maximum, contract assumed
//@ loop 0 iter it
//@ loop 0 inv
    invariant it.seq().len() == vec@.len(), forall|i: int| 0 <= i < vec@.len() ==> *it.seq()[i] == vec@[i],
        result.iv() == up16(vec@).take(it.index@),
//@ loop 0 before
    assert(result.iv() =~= up16(vec@).take(0));
//@ loop 0 end
    assert(result.iv() =~= up16(vec@).take(it.index@ + 1));
//@ loop 0 after
    assert(up16(vec@).take(vec@.len() as int) =~= up16(vec@));
//@ tail
    assert(vec@.len() == 0 ==> up16(vec@) =~= Seq::<usize>::empty());
//@ enditem
//@ impl From<Vec<u16>> for DynamicPrecisionIndexVec
//@ header impl DynamicPrecisionIndexVec
//@ fn from
//@ ret r
//@ spec
        ensures r.iv() == up16(vec@),
//@ rename from_u16
//@ replace `Self::from(&vec)` => `Self::from_ref_u16(&vec)` ; see above
//@ enditem
//@ impl From<Vec<u8>> for DynamicPrecisionIndexVec
//@ header impl DynamicPrecisionIndexVec
//@ fn from
//@ ret r
//@ spec
        ensures r.iv() == up8(vec@),
//@ rename from_u8
//@ enditem
//@ impl From<&Vec<u8>> for DynamicPrecisionIndexVec
//@ header impl DynamicPrecisionIndexVec
//@ fn from
//@ ret r
//@ spec
        ensures r.iv() == up8(vec@),
//@ rename from_ref_u8
//@ replace `Self::from(vec.clone())` => `Self::from_u8(vec.clone())` ; see above
//@ enditem
//@ file src/u32_index_vec.rs
//@ struct U32IndexVec
//@ attrs
#[derive(Clone)]
//@ enditem
//@ impl IsIndexContainer for U32IndexVec
//@ ghost
    open spec fn iv(&self) -> Seq<usize> { up32(self.data@) }
    open spec fn admits(x: usize) -> bool { x <= u32::MAX }
    proof fn iv_len(&self) { vec_len(self.data) }
    // #[derive(Default)], restated
    fn default() -> Self { let r = Self { data: Vec::new() }; assert(r.iv() =~= Seq::<usize>::empty()); r }
//@ fn ensure_supported
//@ fn get
//@ fn set
//@ tail
//@ fn push
//@ fn len
//@ fn reserve
//@ enditem
//@ file src/impls/vec.rs
//@ impl IsIndexContainer for Vec<usize>
//@ ghost
    open spec fn iv(&self) -> Seq<usize> { self@ }
    open spec fn admits(x: usize) -> bool { true }
    proof fn iv_len(&self) { vec_len(*self) }
    // Vec's Default of the standard library
    fn default() -> Self { Vec::new() }
//@ fn ensure_supported
//@ fn reserve
//@ fn len
//@ fn get
//@ fn set
//@ fn push
//@ enditem
} // verus!
fn main() {}

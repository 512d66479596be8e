HALF={'i8':'0x80','i16':'0x8000','i32':'0x8000_0000','i64':'0x8000_0000_0000_0000'}
V='/verif/contracts/'
T=['i8','u8','i16','u16','i32','u32','f32','i64','u64','f64']
W={t:int(t[1:])//8 for t in T}
def val(t,e,s):
    u=f'u{W[t]*8}'
    if t[0]=='u': return f'{{R}} as nat == {e}({s})'
    if t[0]=='i': return f'{{R}} as int == signed({e}({s}), {HALF[t]})'
    return f'{{R}}.to_bits_spec() == {e}({s}) as {u}'
head='''#![allow(warnings)]
use vstd::prelude::*;
use vstd::float::FloatBitsProperties;
use vstd::std_specs::iter::*;
use std::io::{Read, Result as iRes};
verus! {
broadcast use vstd::seq_lib::group_seq_properties;
global size_of usize == 8;
global size_of f32 == 4;
global size_of f64 == 8;
//@include stream.inc
//@include bytes.inc
'''
o='''/// the number x in two's complement with the sign bit h
pub open spec fn signed(x: nat, h: int) -> int { if x >= h { x - 2 * h } else { x as int } }
/// the number whose little-endian base 256 digits are s
pub open spec fn le(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s[0] as nat + 256 * le(s.drop_first()) } }
/// the number whose big-endian base 256 digits are s
pub open spec fn be(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s.last() as nat + 256 * be(s.drop_last()) } }
'''
for t in T:
    for e in ('le','be'):
        o+=f'''/// {t}::from_{e}_bytes (assumed: std)
#[verifier::external_body]
pub fn {t}_{e}(b: [u8; {W[t]}]) -> (r: {t}) ensures {val(t,e,'b@').replace('{R}','r')} {{ {t}::from_{e}_bytes(b) }}
'''
rd=lambda t: f'''//@ fn read_{t}
//@ ret r
//@ spec
        ensures r.is_ok() ==> (*old(read)).left().len() >= {W[t]} && {val(t,'dec',f'Self::big(), (*old(read)).left().take({W[t]})').replace('{R}','r->Ok_0')} && (*final(read)).left() == (*old(read)).left().skip({W[t]}),
            (*old(read)).reliable() && (*old(read)).left().len() >= {W[t]} ==> r.is_ok(), (*final(read)).reliable() == (*old(read)).reliable(),
'''
o+='''/// the number whose base 256 digits are s
pub open spec fn dec(big: bool, s: Seq<u8>) -> nat { if big { be(s) } else { le(s) } }
//@ file src/io/byte_reader.rs
//@ trait IsByteReader
//@ ghost
    /// most significant byte first
    spec fn big() -> bool;
'''
for t in T: o+=rd(t)
o+='//@ enditem\n'
for n,e in (('LittleReader','le'),('BigReader','be')):
    o+=f'''//@ file src/io/byte_reader.rs
//@ struct {n}
//@ enditem
//@ impl IsByteReader for {n}
//@ ghost
    open spec fn big() -> bool {{ {'true' if e=='be' else 'false'} }}
'''
    for t in T: o+=f"//@ fn read_{t}\n//@ replace `{t}::from_{e}_bytes` => `{t}_{e}` ; see {t}_{e}\n"
    o+='//@ enditem\n'
open(V+'bytes.inc','w').write(o)
o=''
# from_bytes
o+='''//@ file src/io/from_bytes.rs
//@ enum FromBytesError
//@ enditem
pub type FromBytesResult<T> = std::result::Result<T, FromBytesError>;
/// `bytes.try_into()?` for a slice and an array: the conversion exists exactly if the lengths agree, and copies the bytes (assumed: std)
#[verifier::external_body]
pub fn array_of<const N: usize>(b: &[u8]) -> (r: FromBytesResult<[u8; N]>) ensures r.is_ok() == (b@.len() == N), r.is_ok() ==> r->Ok_0@ == b@ { Ok(b.try_into()?) }
impl From<std::array::TryFromSliceError> for FromBytesError {
    #[verifier::external_body]
    fn from(_error: std::array::TryFromSliceError) -> Self { FromBytesError::BinaryData }
}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTryFromSliceError(std::array::TryFromSliceError);
//@ trait FromBytes
//@ ghost
    /// the number of bytes of a value
    spec fn width() -> nat;
    /// v is the number encoded by s
    spec fn is_le(s: Seq<u8>, v: Self) -> bool;
    spec fn is_be(s: Seq<u8>, v: Self) -> bool;
    proof fn widths() ensures Self::width() == vstd::layout::size_of::<Self>();
'''
for e in ('le','be'):
    o+=f'''//@ fn from_{e}_slice
//@ ret r
//@ spec
        ensures r.is_ok() == (bytes@.len() == Self::width()), r.is_ok() ==> Self::is_{e}(bytes@, r->Ok_0),
'''
o+='//@ enditem\n'
for t in T:
    o+=f'''//@ impl FromBytes for {t}
//@ ghost
    open spec fn width() -> nat {{ {W[t]} }}
    open spec fn is_le(s: Seq<u8>, v: Self) -> bool {{ {val(t,'le','s').replace('{R}','v')} }}
    open spec fn is_be(s: Seq<u8>, v: Self) -> bool {{ {val(t,'be','s').replace('{R}','v')} }}
    proof fn widths() {{ }}
'''
    for e in ('le','be'):
        o+=f'''//@ fn from_{e}_slice
//@ replace `{t}::from_{e}_bytes` => `{t}_{e}` ; see {t}_{e}
//@ replace `bytes.try_into()?` => `array_of(bytes)?` ; see array_of
'''
    o+='//@ enditem\n'
for e in ('le','be'):
    o+=f'''//@ freefn slice_from_bytes_{e}
//@ ret r
//@ spec
        requires FB::width() * old(target)@.len() <= usize::MAX, // no slice spans more than isize::MAX bytes
        ensures r.is_ok() == (bytes@.len() == FB::width() * old(target)@.len()), final(target)@.len() == old(target)@.len(),
            r.is_ok() ==> forall|i: int| 0 <= i < final(target)@.len() ==> FB::is_{e}(bytes@.subrange(i * FB::width(), (i + 1) * FB::width()), #[trigger] final(target)@[i]),
//@ start
    proof {{ FB::widths(); }}
    let ghost n = target@.len();
//@ loop 0 iter it
//@ loop 0 inv
        invariant target@.len() == n, it.seq().len() == n, size == FB::width(), bytes@.len() == FB::width() * n, FB::width() * n <= usize::MAX,
            forall|j: int| 0 <= j < i ==> FB::is_{e}(bytes@.subrange(j * FB::width(), (j + 1) * FB::width()), #[trigger] target@[j]),
//@ loop 0 start
        assert(i * size <= (i + 1) * size <= size * n) by (nonlinear_arith) requires i < n;
        assert((i + 1) * size - i * size == size) by (nonlinear_arith);
//@ enditem
'''
for e in ('le','be'):
    o+=f'''//@ file src/io/from_bytes.rs | macro array_from_bytes_{e} | $t=T | $n=N | $bytes=bytes | pub fn array_from_bytes_{e}<T, const N: usize>(bytes: &[u8]) -> FromBytesResult<[T; N]> where T: FromBytes + Default + Copy
//@ freefn array_from_bytes_{e}
//@ ret r
//@ replace `return Err(FromBytesError::SizeMismatch)?;` => `return Err(FromBytesError::SizeMismatch);` ; `?` on the caller's own error type
//@ spec
        requires T::width() * N <= usize::MAX, // no array spans more than isize::MAX bytes
        ensures r.is_ok() == (bytes@.len() == T::width() * N),
            r.is_ok() ==> forall|i: int| 0 <= i < N ==> T::is_{e}(bytes@.subrange(i * T::width(), (i + 1) * T::width()), #[trigger] r->Ok_0@[i]),
//@ start
    proof {{ T::widths(); }}
//@ loop 0 inv
        invariant size == T::width(), bytes@.len() == T::width() * N, T::width() * N <= usize::MAX, 
            forall|j: int| 0 <= j < i ==> T::is_{e}(bytes@.subrange(j * T::width(), (j + 1) * T::width()), #[trigger] arr@[j]),
//@ loop 0 start
        assert(i * size <= (i + 1) * size <= size * N) by (nonlinear_arith) requires i < N;
        assert((i + 1) * size - i * size == size) by (nonlinear_arith);
//@ enditem
'''
open(V+'frombytes.inc','w').write(o)
open(V+'c_bytes.vc','w').write(head+'//@include frombytes.inc\nfn main() {}\n}\n')

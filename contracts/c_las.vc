#![allow(warnings)]
use vstd::prelude::*;
use vstd::float::FloatBitsProperties;
use vstd::std_specs::iter::*;
use std::io::{BufRead, Error as ioError, Read, Result as iRes, Seek, SeekFrom};
use std::marker::PhantomData;
use std::convert::TryInto;
verus! {
//@include float.inc
broadcast use {vstd::seq_lib::group_seq_properties, fl::ax, sk::ax};
global size_of usize == 8;
//@include build.inc
global size_of f32 == 4;
global size_of f64 == 8;
//@include stream.inc
//@include bufread.inc
//@include bytes.inc
//@include bin.inc
//@include frombytes.inc
//@include push.inc
//@include deliver.inc
//@include load3.inc
//@include reserve.inc
#[verifier::external_trait_specification]
pub trait ExSeek { type ExternalTraitSpecificationFor: std::io::Seek; }
/// `r.seek(SeekFrom::Start(n))` (assumed: std's documented contract)
#[verifier::external_body]
pub fn seek_to<R: Read + Seek>(read: &mut R, n: u64) -> (r: std::io::Result<u64>)
    ensures (*final(read)).reliable() == (*old(read)).reliable(), (*final(read)).whole() == (*old(read)).whole(), (*old(read)).reliable() ==> r.is_ok(),
        r.is_ok() ==> (*final(read)).left() == (if n <= (*old(read)).whole().len() { (*old(read)).whole().skip(n as int) } else { Seq::empty() }),
{ read.seek(SeekFrom::Start(n)) }
/// `i as f64` (assumed: exact)
pub uninterp spec fn of_int(i: i32) -> f64;
#[verifier::external_body]
pub fn to_f64(i: i32) -> (r: f64) ensures r == of_int(i) { i as f64 }
//@ file src/io/las/types.rs
//@ struct Header
//@ attrs
//@ enditem
//@ struct HeaderRaw
//@ attrs
//@ enditem
//@ struct PointData
//@ attrs
//@ enditem
//@ enum LasError
//@ enditem
pub type LasResult<T> = std::result::Result<T, LasError>;
impl vstd::std_specs::convert::FromSpecImpl<ioError> for LasError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ioError) -> Self { LasError::AccessFile } }
//@ impl From<ioError> for LasError
//@ fn from
//@ enditem
impl vstd::std_specs::convert::FromSpecImpl<FromBytesError> for LasError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: FromBytesError) -> Self { LasError::BinaryData } }
//@ impl From<FromBytesError> for LasError
//@ fn from
//@ enditem
/// the first point count field that is used
pub open spec fn count(s: Seq<u8>) -> u64 { if u32_at(false, s, 107) == 0 { u64_at(s, 247) } else { u32_at(false, s, 107) as u64 } }
pub open spec fn u64_at(s: Seq<u8>, i: int) -> u64 { le(s.subrange(i, i + 8)) as u64 }
pub open spec fn header(s: Seq<u8>) -> Option<Header> {
    if s.len() < 375 || u8_at(false, s, 24) > 1 || u8_at(false, s, 25) > 4 || u8_at(false, s, 104) > 10 || u16_at(false, s, 105) < 12 { None }
    else { Some(Header { offset_point_data: u32_at(false, s, 96), point_record_length: u16_at(false, s, 105), n_point_records: count(s),
        scale_factor_x: f64_at(false, s, 131), scale_factor_y: f64_at(false, s, 139), scale_factor_z: f64_at(false, s, 147), offset_x: f64_at(false, s, 155), offset_y: f64_at(false, s, 163), offset_z: f64_at(false, s, 171) }) }
}
pub open spec fn point_at(s: Seq<u8>, h: Header) -> V3 { V3 {
    x: h.offset_x.ieee_add(of_int(i32_at(false, s, 0)).ieee_mul(h.scale_factor_x)),
    y: h.offset_y.ieee_add(of_int(i32_at(false, s, 4)).ieee_mul(h.scale_factor_y)),
    z: h.offset_z.ieee_add(of_int(i32_at(false, s, 8)).ieee_mul(h.scale_factor_z)) } }
/// n records of the stated length, each starting with three scaled coordinates
pub open spec fn content(s: Seq<u8>, h: Header, n: int) -> (Seq<V3>, bool) decreases n {
    if n <= 0 { (Seq::empty(), true) }
    else if s.len() < h.point_record_length { (Seq::empty(), false) }
    else { let c = content(s.skip(h.point_record_length as int), h, n - 1); (seq![point_at(s, h)] + c.0, c.1) }
}
pub open spec fn file(s: Seq<u8>, whole: Seq<u8>) -> (Seq<V3>, bool) {
    match header(s) { None => (Seq::empty(), false), Some(h) => content(if h.offset_point_data <= whole.len() { whole.skip(h.offset_point_data as int) } else { Seq::empty() }, h, h.n_point_records as int) }
}
/// what the raw header says about the points
pub open spec fn of_raw(x: HeaderRaw) -> Option<Header> {
    if x.version_major > 1 || x.version_minor > 4 || x.point_record_format > 10 || x.point_record_length < 12 { None }
    else { Some(Header { offset_point_data: x.offset_point_data, point_record_length: x.point_record_length, n_point_records: if x.legacy_n_point_records == 0 { x.n_point_records } else { x.legacy_n_point_records as u64 },
        scale_factor_x: x.scale_factor_x, scale_factor_y: x.scale_factor_y, scale_factor_z: x.scale_factor_z, offset_x: x.offset_x, offset_y: x.offset_y, offset_z: x.offset_z }) }
}
//@ impl TryFrom for Header
//@ header impl Header
//@ fn try_from
//@ ret r
//@ spec
        ensures r.is_ok() == (of_raw(x) is Some), r.is_ok() ==> r->Ok_0 == of_raw(x)->0,
//@ enditem
//@ impl PointData
//@ fn from_bytes
//@ ret r
//@ replace `i32::from_le_bytes(buffer[$1].try_into().unwrap())` => `i32_le(part(&buffer, $1))` ; see part
//@ spec
        ensures r.x == i32_at(false, buffer@, 0), r.y == i32_at(false, buffer@, 4), r.z == i32_at(false, buffer@, 8),
//@ enditem
/// `b[r].try_into().unwrap()` for an array of the length of the range (assumed: std)
#[verifier::external_body]
pub fn part<const N: usize, const M: usize>(b: &[u8; N], r: std::ops::Range<usize>) -> (o: [u8; M]) requires r.start + M == r.end, r.end <= N ensures o@ == b@.subrange(r.start as int, r.end as int) { b[r].try_into().unwrap() }
/// `&b[r]` (assumed: std)
#[verifier::external_body]
pub fn range<'a, const N: usize>(b: &'a [u8; N], r: std::ops::Range<usize>) -> (o: &'a [u8]) requires r.start <= r.end <= N ensures o@ == b@.subrange(r.start as int, r.end as int) { &b[r] }
//@ file src/io/las/load.rs
//@ freefn load_header
//@ ret r
//@ sigreplace `mut read: R` => `read: &mut R` ; R is a mutable reference at the only call
//@ replace `u8::from_le_bytes(buffer[$1].try_into()?)` => `u8_le(array_of(range(&buffer, $1))?)` ; see array_of
//@ replace `u16::from_le_bytes(buffer[$1].try_into()?)` => `u16_le(array_of(range(&buffer, $1))?)` ; see array_of
//@ replace `u32::from_le_bytes(buffer[$1].try_into()?)` => `u32_le(array_of(range(&buffer, $1))?)` ; see array_of
//@ replace `u64::from_le_bytes(buffer[$1].try_into()?)` => `u64_le(array_of(range(&buffer, $1))?)` ; see array_of
//@ replace `f64::from_le_bytes(buffer[$1].try_into()?)` => `f64_le(array_of(range(&buffer, $1))?)` ; see array_of
//@ replace `guid4: buffer[$1].try_into()?` => `guid4: array_of(range(&buffer, $1))?` ; see array_of
//@ replace `array_from_bytes_le!($1, $2, &buffer[$3])?` => `array_from_bytes_le::<$1, $2>(range(&buffer, $3))?` ; the macro as a function (C16)
//@ spec
    requires (*old(read)).reliable(),
    ensures (*final(read)).reliable(), (*final(read)).whole() == (*old(read)).whole(), r.is_ok() == ((*old(read)).left().len() >= 375), r.is_ok() ==> (of_raw(r->Ok_0) is Some) == (header((*old(read)).left()) is Some) && (header((*old(read)).left()) is Some ==> of_raw(r->Ok_0)->0 == header((*old(read)).left())->0),
//@ enditem
//@ struct LasIterator
//@ attrs
#[verifier::reject_recursive_types(P)]
//@ enditem
impl<P: IsBuildable3D, R: BufRead + Seek> LasIterator<P, R> {
    pub closed spec fn good(&self) -> bool { self.read.reliable() && match self.header { None => self.current == 0, Some(h) => self.current <= h.n_point_records && self.buffer@.len() == h.point_record_length && h.point_record_length >= 12 } }
    pub closed spec fn left(&self) -> (Seq<V3>, bool) { if self.is_done { (Seq::empty(), true) } else { match self.header { None => file(self.read.left(), self.read.whole()), Some(h) => content(self.read.left(), h, h.n_point_records - self.current) } } }
    pub closed spec fn size(&self) -> nat { if self.is_done { 0 } else { match self.header { None => u64::MAX as nat + 2, Some(h) => (h.n_point_records - self.current + 1) as nat } } }
}
//@ impl LasIterator
//@ fn new
//@ ret r
//@ spec
        requires read.reliable(),
        ensures r is Ok, r->Ok_0.good(), r->Ok_0.left() == file(read.left(), read.whole()),
//@ fn fetch_one
//@ ret r
//@ replace `self.buffer[0..12].try_into()?` => `array_of(&self.buffer[0..12])?` ; see array_of
//@ replace `pd.x as f64` => `to_f64(pd.x)` ; see to_f64
//@ replace `pd.y as f64` => `to_f64(pd.y)` ; see to_f64
//@ replace `pd.z as f64` => `to_f64(pd.z)` ; see to_f64
//@ spec
        requires old(self).good(), old(self).header is Some,
        ensures final(self).good(), final(self).is_done == old(self).is_done, final(self).header == old(self).header, final(self).current == old(self).current,
            ({ let h = old(self).header->0; r.is_ok() == (old(self).read.left().len() >= h.point_record_length) && (r.is_ok() ==> final(self).read.left() == old(self).read.left().skip(h.point_record_length as int) && v3(r->Ok_0, point_at(old(self).read.left(), h))) }),
//@ enditem
//@ impl Iterator for LasIterator
//@ header impl<P: IsBuildable3D, R: BufRead + Seek> LasIterator<P, R>
//@ fn next
//@ ret r
//@ sigreplace `Option<Self::Item>` => `Option<LasResult<DataReserve<P>>>` ; associated type of the dropped trait header
//@ replace `if let Ok(header) = load_header(&mut self.read).and_then(|x| Header::try_from(x)) {` => `if let Ok(header) = (match load_header(&mut self.read) { Ok(x) => Header::try_from(x), Err(e) => Err(e) }) {` ; closure as match
//@ replace `self.read.seek(SeekFrom::Start($1))` => `seek_to(&mut self.read, $1)` ; see seek_to
//@ replace `.map(|x| DataReserve::Data(x))` => `.map(|x: P| -> (o: DataReserve<P>) ensures o == DataReserve::Data(x) { DataReserve::Data(x) })` ; contract on the closure
//@ replace `Some($1.map_err(|e| { self.is_done = true; e }))` => `Some(match $1 { Ok(x) => Ok(x), Err(e) => { self.is_done = true; Err(e) } })` ; closure writing to a captured variable
//@ spec
        requires old(self).good(),
        ensures final(self).good(), r is Some ==> final(self).size() < old(self).size(),
            match r {
                None => old(self).left() == (Seq::<V3>::empty(), true) && final(self).left() == old(self).left(),
                Some(Ok(DataReserve::Reserve(n))) => final(self).left() == old(self).left(),
                Some(Ok(DataReserve::Data(p))) => old(self).left().0.len() > 0 && v3(p, old(self).left().0[0]) && final(self).left() == (old(self).left().0.skip(1), old(self).left().1),
                Some(Err(e)) => old(self).left() == (Seq::<V3>::empty(), false) && final(self).left() == (Seq::<V3>::empty(), true),
            },
//@ start
        proof { if self.header is Some { let h = self.header->0; let s = self.read.left(); let c = content(s.skip(h.point_record_length as int), h, h.n_point_records - self.current - 1); assert((seq![point_at(s, h)] + c.0).skip(1) == c.0); } }
//@ enditem
//@ freefn load_las
//@ ret r
//@ replace `for rd in iterator` => `let mut iterator = iterator; while let Some(rd) = iterator.next()` ; desugared for loop over the library's own iterator
//@ spec
    requires read.reliable(),
    ensures r.is_ok() == file(read.left(), read.whole()).1, appended(old(ip).list(), final(ip).list(), file(read.left(), read.whole()).0),
//@ start
    let ghost all = file(read.left(), read.whole());
    let ghost before = ip.list();
//@ loop 0 before
    proof { delivered_start(before, all); }
    let ghost mut now = all;
    let ghost mut size = iterator.size();
//@ loop 0 inv
        invariant_except_break now == iterator.left(), iterator.good(), size == iterator.size(),
        invariant all == file(read.left(), read.whole()), before == old(ip).list(), delivered(before, ip.list(), all, now),
        ensures now == (Seq::<V3>::empty(), true),
        decreases size,
//@ loop 0 start
        proof { size = iterator.size(); if rd is Ok && rd->Ok_0 is Data { delivered_step(before, ip.list(), rd->Ok_0->Data_0, all, now, iterator.left()); now = iterator.left(); } else if rd is Err { delivered_end(before, ip.list(), all, now); } }
//@ loop 0 after
    proof { delivered_end(before, ip.list(), all, now); }
//@ enditem
fn main() {}
}

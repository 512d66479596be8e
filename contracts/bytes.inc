/// the number x in two's complement with the sign bit h
pub open spec fn signed(x: nat, h: int) -> int { if x >= h { x - 2 * h } else { x as int } }
/// the number whose little-endian base 256 digits are s
pub open spec fn le(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s[0] as nat + 256 * le(s.drop_first()) } }
/// the number whose big-endian base 256 digits are s
pub open spec fn be(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s.last() as nat + 256 * be(s.drop_last()) } }
/// i8::from_le_bytes (assumed: std)
#[verifier::external_body]
pub fn i8_le(b: [u8; 1]) -> (r: i8) ensures r as int == signed(le(b@), 0x80) { i8::from_le_bytes(b) }
/// i8::from_be_bytes (assumed: std)
#[verifier::external_body]
pub fn i8_be(b: [u8; 1]) -> (r: i8) ensures r as int == signed(be(b@), 0x80) { i8::from_be_bytes(b) }
/// u8::from_le_bytes (assumed: std)
#[verifier::external_body]
pub fn u8_le(b: [u8; 1]) -> (r: u8) ensures r as nat == le(b@) { u8::from_le_bytes(b) }
/// u8::from_be_bytes (assumed: std)
#[verifier::external_body]
pub fn u8_be(b: [u8; 1]) -> (r: u8) ensures r as nat == be(b@) { u8::from_be_bytes(b) }
/// i16::from_le_bytes (assumed: std)
#[verifier::external_body]
pub fn i16_le(b: [u8; 2]) -> (r: i16) ensures r as int == signed(le(b@), 0x8000) { i16::from_le_bytes(b) }
/// i16::from_be_bytes (assumed: std)
#[verifier::external_body]
pub fn i16_be(b: [u8; 2]) -> (r: i16) ensures r as int == signed(be(b@), 0x8000) { i16::from_be_bytes(b) }
/// u16::from_le_bytes (assumed: std)
#[verifier::external_body]
pub fn u16_le(b: [u8; 2]) -> (r: u16) ensures r as nat == le(b@) { u16::from_le_bytes(b) }
/// u16::from_be_bytes (assumed: std)
#[verifier::external_body]
pub fn u16_be(b: [u8; 2]) -> (r: u16) ensures r as nat == be(b@) { u16::from_be_bytes(b) }
/// i32::from_le_bytes (assumed: std)
#[verifier::external_body]
pub fn i32_le(b: [u8; 4]) -> (r: i32) ensures r as int == signed(le(b@), 0x8000_0000) { i32::from_le_bytes(b) }
/// i32::from_be_bytes (assumed: std)
#[verifier::external_body]
pub fn i32_be(b: [u8; 4]) -> (r: i32) ensures r as int == signed(be(b@), 0x8000_0000) { i32::from_be_bytes(b) }
/// u32::from_le_bytes (assumed: std)
#[verifier::external_body]
pub fn u32_le(b: [u8; 4]) -> (r: u32) ensures r as nat == le(b@) { u32::from_le_bytes(b) }
/// u32::from_be_bytes (assumed: std)
#[verifier::external_body]
pub fn u32_be(b: [u8; 4]) -> (r: u32) ensures r as nat == be(b@) { u32::from_be_bytes(b) }
/// f32::from_le_bytes (assumed: std)
#[verifier::external_body]
pub fn f32_le(b: [u8; 4]) -> (r: f32) ensures r.to_bits_spec() == le(b@) as u32 { f32::from_le_bytes(b) }
/// f32::from_be_bytes (assumed: std)
#[verifier::external_body]
pub fn f32_be(b: [u8; 4]) -> (r: f32) ensures r.to_bits_spec() == be(b@) as u32 { f32::from_be_bytes(b) }
/// i64::from_le_bytes (assumed: std)
#[verifier::external_body]
pub fn i64_le(b: [u8; 8]) -> (r: i64) ensures r as int == signed(le(b@), 0x8000_0000_0000_0000) { i64::from_le_bytes(b) }
/// i64::from_be_bytes (assumed: std)
#[verifier::external_body]
pub fn i64_be(b: [u8; 8]) -> (r: i64) ensures r as int == signed(be(b@), 0x8000_0000_0000_0000) { i64::from_be_bytes(b) }
/// u64::from_le_bytes (assumed: std)
#[verifier::external_body]
pub fn u64_le(b: [u8; 8]) -> (r: u64) ensures r as nat == le(b@) { u64::from_le_bytes(b) }
/// u64::from_be_bytes (assumed: std)
#[verifier::external_body]
pub fn u64_be(b: [u8; 8]) -> (r: u64) ensures r as nat == be(b@) { u64::from_be_bytes(b) }
/// f64::from_le_bytes (assumed: std)
#[verifier::external_body]
pub fn f64_le(b: [u8; 8]) -> (r: f64) ensures r.to_bits_spec() == le(b@) as u64 { f64::from_le_bytes(b) }
/// f64::from_be_bytes (assumed: std)
#[verifier::external_body]
pub fn f64_be(b: [u8; 8]) -> (r: f64) ensures r.to_bits_spec() == be(b@) as u64 { f64::from_be_bytes(b) }
/// the number whose base 256 digits are s
pub open spec fn dec(big: bool, s: Seq<u8>) -> nat { if big { be(s) } else { le(s) } }
//@ file src/io/byte_reader.rs
//@ trait IsByteReader
//@ ghost
    /// most significant byte first
    spec fn big() -> bool;
//@ fn read_i8
//@ ret r
//@ spec
        ensures r.is_ok() ==> (*old(read)).left().len() >= 1 && r->Ok_0 as int == signed(dec(Self::big(), (*old(read)).left().take(1)), 0x80) && (*final(read)).left() == (*old(read)).left().skip(1),
            (*old(read)).reliable() && (*old(read)).left().len() >= 1 ==> r.is_ok(), (*final(read)).reliable() == (*old(read)).reliable(),
//@ fn read_u8
//@ ret r
//@ spec
        ensures r.is_ok() ==> (*old(read)).left().len() >= 1 && r->Ok_0 as nat == dec(Self::big(), (*old(read)).left().take(1)) && (*final(read)).left() == (*old(read)).left().skip(1),
            (*old(read)).reliable() && (*old(read)).left().len() >= 1 ==> r.is_ok(), (*final(read)).reliable() == (*old(read)).reliable(),
//@ fn read_i16
//@ ret r
//@ spec
        ensures r.is_ok() ==> (*old(read)).left().len() >= 2 && r->Ok_0 as int == signed(dec(Self::big(), (*old(read)).left().take(2)), 0x8000) && (*final(read)).left() == (*old(read)).left().skip(2),
            (*old(read)).reliable() && (*old(read)).left().len() >= 2 ==> r.is_ok(), (*final(read)).reliable() == (*old(read)).reliable(),
//@ fn read_u16
//@ ret r
//@ spec
        ensures r.is_ok() ==> (*old(read)).left().len() >= 2 && r->Ok_0 as nat == dec(Self::big(), (*old(read)).left().take(2)) && (*final(read)).left() == (*old(read)).left().skip(2),
            (*old(read)).reliable() && (*old(read)).left().len() >= 2 ==> r.is_ok(), (*final(read)).reliable() == (*old(read)).reliable(),
//@ fn read_i32
//@ ret r
//@ spec
        ensures r.is_ok() ==> (*old(read)).left().len() >= 4 && r->Ok_0 as int == signed(dec(Self::big(), (*old(read)).left().take(4)), 0x8000_0000) && (*final(read)).left() == (*old(read)).left().skip(4),
            (*old(read)).reliable() && (*old(read)).left().len() >= 4 ==> r.is_ok(), (*final(read)).reliable() == (*old(read)).reliable(),
//@ fn read_u32
//@ ret r
//@ spec
        ensures r.is_ok() ==> (*old(read)).left().len() >= 4 && r->Ok_0 as nat == dec(Self::big(), (*old(read)).left().take(4)) && (*final(read)).left() == (*old(read)).left().skip(4),
            (*old(read)).reliable() && (*old(read)).left().len() >= 4 ==> r.is_ok(), (*final(read)).reliable() == (*old(read)).reliable(),
//@ fn read_f32
//@ ret r
//@ spec
        ensures r.is_ok() ==> (*old(read)).left().len() >= 4 && r->Ok_0.to_bits_spec() == dec(Self::big(), (*old(read)).left().take(4)) as u32 && (*final(read)).left() == (*old(read)).left().skip(4),
            (*old(read)).reliable() && (*old(read)).left().len() >= 4 ==> r.is_ok(), (*final(read)).reliable() == (*old(read)).reliable(),
//@ fn read_i64
//@ ret r
//@ spec
        ensures r.is_ok() ==> (*old(read)).left().len() >= 8 && r->Ok_0 as int == signed(dec(Self::big(), (*old(read)).left().take(8)), 0x8000_0000_0000_0000) && (*final(read)).left() == (*old(read)).left().skip(8),
            (*old(read)).reliable() && (*old(read)).left().len() >= 8 ==> r.is_ok(), (*final(read)).reliable() == (*old(read)).reliable(),
//@ fn read_u64
//@ ret r
//@ spec
        ensures r.is_ok() ==> (*old(read)).left().len() >= 8 && r->Ok_0 as nat == dec(Self::big(), (*old(read)).left().take(8)) && (*final(read)).left() == (*old(read)).left().skip(8),
            (*old(read)).reliable() && (*old(read)).left().len() >= 8 ==> r.is_ok(), (*final(read)).reliable() == (*old(read)).reliable(),
//@ fn read_f64
//@ ret r
//@ spec
        ensures r.is_ok() ==> (*old(read)).left().len() >= 8 && r->Ok_0.to_bits_spec() == dec(Self::big(), (*old(read)).left().take(8)) as u64 && (*final(read)).left() == (*old(read)).left().skip(8),
            (*old(read)).reliable() && (*old(read)).left().len() >= 8 ==> r.is_ok(), (*final(read)).reliable() == (*old(read)).reliable(),
//@ enditem
//@ file src/io/byte_reader.rs
//@ struct LittleReader
//@ enditem
//@ impl IsByteReader for LittleReader
//@ ghost
    open spec fn big() -> bool { false }
//@ fn read_i8
//@ replace `i8::from_le_bytes` => `i8_le` ; see i8_le
//@ fn read_u8
//@ replace `u8::from_le_bytes` => `u8_le` ; see u8_le
//@ fn read_i16
//@ replace `i16::from_le_bytes` => `i16_le` ; see i16_le
//@ fn read_u16
//@ replace `u16::from_le_bytes` => `u16_le` ; see u16_le
//@ fn read_i32
//@ replace `i32::from_le_bytes` => `i32_le` ; see i32_le
//@ fn read_u32
//@ replace `u32::from_le_bytes` => `u32_le` ; see u32_le
//@ fn read_f32
//@ replace `f32::from_le_bytes` => `f32_le` ; see f32_le
//@ fn read_i64
//@ replace `i64::from_le_bytes` => `i64_le` ; see i64_le
//@ fn read_u64
//@ replace `u64::from_le_bytes` => `u64_le` ; see u64_le
//@ fn read_f64
//@ replace `f64::from_le_bytes` => `f64_le` ; see f64_le
//@ enditem
//@ file src/io/byte_reader.rs
//@ struct BigReader
//@ enditem
//@ impl IsByteReader for BigReader
//@ ghost
    open spec fn big() -> bool { true }
//@ fn read_i8
//@ replace `i8::from_be_bytes` => `i8_be` ; see i8_be
//@ fn read_u8
//@ replace `u8::from_be_bytes` => `u8_be` ; see u8_be
//@ fn read_i16
//@ replace `i16::from_be_bytes` => `i16_be` ; see i16_be
//@ fn read_u16
//@ replace `u16::from_be_bytes` => `u16_be` ; see u16_be
//@ fn read_i32
//@ replace `i32::from_be_bytes` => `i32_be` ; see i32_be
//@ fn read_u32
//@ replace `u32::from_be_bytes` => `u32_be` ; see u32_be
//@ fn read_f32
//@ replace `f32::from_be_bytes` => `f32_be` ; see f32_be
//@ fn read_i64
//@ replace `i64::from_be_bytes` => `i64_be` ; see i64_be
//@ fn read_u64
//@ replace `u64::from_be_bytes` => `u64_be` ; see u64_be
//@ fn read_f64
//@ replace `f64::from_be_bytes` => `f64_be` ; see f64_be
//@ enditem

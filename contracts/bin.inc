/// positions in what is left after skipping
pub mod sk {
    use vstd::prelude::*;
    pub broadcast proof fn skip_skip(s: Seq<u8>, a: int, b: int) requires 0 <= a, 0 <= b, a + b <= s.len() ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b) { assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
    pub broadcast proof fn skip_take(s: Seq<u8>, a: int, n: int) requires 0 <= a, 0 <= n, a + n <= s.len() ensures #[trigger] s.skip(a).take(n) == s.subrange(a, a + n) { assert(s.skip(a).take(n) =~= s.subrange(a, a + n)); }
    pub broadcast proof fn take_sub(s: Seq<u8>, n: int) requires 0 <= n <= s.len() ensures #[trigger] s.take(n) == s.subrange(0, n) { assert(s.take(n) =~= s.subrange(0, n)); }
    pub broadcast proof fn sub_sub(s: Seq<u8>, p: int, q: int, a: int, b: int) requires 0 <= p <= q <= s.len(), 0 <= a <= b <= q - p ensures #[trigger] s.subrange(p, q).subrange(a, b) == s.subrange(p + a, p + b) { assert(s.subrange(p, q).subrange(a, b) =~= s.subrange(p + a, p + b)); }
    pub broadcast group ax { skip_skip, skip_take, take_sub, sub_sub }
}
/// the number encoded at offset i
pub open spec fn u8_at(big: bool, s: Seq<u8>, i: int) -> u8 { dec(big, s.subrange(i, i + 1)) as u8 }
pub open spec fn u16_at(big: bool, s: Seq<u8>, i: int) -> u16 { dec(big, s.subrange(i, i + 2)) as u16 }
pub open spec fn u32_at(big: bool, s: Seq<u8>, i: int) -> u32 { dec(big, s.subrange(i, i + 4)) as u32 }
pub open spec fn i32_at(big: bool, s: Seq<u8>, i: int) -> i32 { signed(dec(big, s.subrange(i, i + 4)), 0x8000_0000) as i32 }
pub open spec fn f32_of(bits: u32) -> f32 { choose|x: f32| x.to_bits_spec() == bits }
pub open spec fn f64_of(bits: u64) -> f64 { choose|x: f64| x.to_bits_spec() == bits }
pub open spec fn f32_at(big: bool, s: Seq<u8>, i: int) -> f32 { f32_of(dec(big, s.subrange(i, i + 4)) as u32) }
pub open spec fn f64_at(big: bool, s: Seq<u8>, i: int) -> f64 { f64_of(dec(big, s.subrange(i, i + 8)) as u64) }

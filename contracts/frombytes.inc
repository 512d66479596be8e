//@ file src/io/from_bytes.rs
//@ enum FromBytesError
//@ enditem
pub type FromBytesResult<T> = std::result::Result<T, FromBytesError>;
/// `bytes.try_into()?` for a slice and an array: the conversion exists exactly if the lengths agree, and copies the bytes (assumed: std)
#[verifier::external_body]
pub fn array_of<const N: usize>(b: &[u8]) -> (r: FromBytesResult<[u8; N]>) ensures r.is_ok() == (b@.len() == N), r.is_ok() ==> r->Ok_0@ == b@ { Ok(b.try_into()?) }
impl From<std::array::TryFromSliceError> for FromBytesError {
    #[verifier::external_body]
    fn from(_error: std::array::TryFromSliceError) -> Self { FromBytesError::BinaryData }
}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTryFromSliceError(std::array::TryFromSliceError);
//@ trait FromBytes
//@ ghost
    /// the number of bytes of a value
    spec fn width() -> nat;
    /// v is the number encoded by s
    spec fn is_le(s: Seq<u8>, v: Self) -> bool;
    spec fn is_be(s: Seq<u8>, v: Self) -> bool;
    proof fn widths() ensures Self::width() == vstd::layout::size_of::<Self>();
//@ fn from_le_slice
//@ ret r
//@ spec
        ensures r.is_ok() == (bytes@.len() == Self::width()), r.is_ok() ==> Self::is_le(bytes@, r->Ok_0),
//@ fn from_be_slice
//@ ret r
//@ spec
        ensures r.is_ok() == (bytes@.len() == Self::width()), r.is_ok() ==> Self::is_be(bytes@, r->Ok_0),
//@ enditem
//@ impl FromBytes for i8
//@ ghost
    open spec fn width() -> nat { 1 }
    open spec fn is_le(s: Seq<u8>, v: Self) -> bool { v as int == signed(le(s), 0x80) }
    open spec fn is_be(s: Seq<u8>, v: Self) -> bool { v as int == signed(be(s), 0x80) }
    proof fn widths() { }
//@ fn from_le_slice
//@ replace `i8::from_le_bytes` => `i8_le` ; see i8_le
//@ replace `bytes.try_into()?` => `array_of(bytes)?` ; see array_of
//@ fn from_be_slice
//@ replace `i8::from_be_bytes` => `i8_be` ; see i8_be
//@ replace `bytes.try_into()?` => `array_of(bytes)?` ; see array_of
//@ enditem
//@ impl FromBytes for u8
//@ ghost
    open spec fn width() -> nat { 1 }
    open spec fn is_le(s: Seq<u8>, v: Self) -> bool { v as nat == le(s) }
    open spec fn is_be(s: Seq<u8>, v: Self) -> bool { v as nat == be(s) }
    proof fn widths() { }
//@ fn from_le_slice
//@ replace `u8::from_le_bytes` => `u8_le` ; see u8_le
//@ replace `bytes.try_into()?` => `array_of(bytes)?` ; see array_of
//@ fn from_be_slice
//@ replace `u8::from_be_bytes` => `u8_be` ; see u8_be
//@ replace `bytes.try_into()?` => `array_of(bytes)?` ; see array_of
//@ enditem
//@ impl FromBytes for i16
//@ ghost
    open spec fn width() -> nat { 2 }
    open spec fn is_le(s: Seq<u8>, v: Self) -> bool { v as int == signed(le(s), 0x8000) }
    open spec fn is_be(s: Seq<u8>, v: Self) -> bool { v as int == signed(be(s), 0x8000) }
    proof fn widths() { }
//@ fn from_le_slice
//@ replace `i16::from_le_bytes` => `i16_le` ; see i16_le
//@ replace `bytes.try_into()?` => `array_of(bytes)?` ; see array_of
//@ fn from_be_slice
//@ replace `i16::from_be_bytes` => `i16_be` ; see i16_be
//@ replace `bytes.try_into()?` => `array_of(bytes)?` ; see array_of
//@ enditem
//@ impl FromBytes for u16
//@ ghost
    open spec fn width() -> nat { 2 }
    open spec fn is_le(s: Seq<u8>, v: Self) -> bool { v as nat == le(s) }
    open spec fn is_be(s: Seq<u8>, v: Self) -> bool { v as nat == be(s) }
    proof fn widths() { }
//@ fn from_le_slice
//@ replace `u16::from_le_bytes` => `u16_le` ; see u16_le
//@ replace `bytes.try_into()?` => `array_of(bytes)?` ; see array_of
//@ fn from_be_slice
//@ replace `u16::from_be_bytes` => `u16_be` ; see u16_be
//@ replace `bytes.try_into()?` => `array_of(bytes)?` ; see array_of
//@ enditem
//@ impl FromBytes for i32
//@ ghost
    open spec fn width() -> nat { 4 }
    open spec fn is_le(s: Seq<u8>, v: Self) -> bool { v as int == signed(le(s), 0x8000_0000) }
    open spec fn is_be(s: Seq<u8>, v: Self) -> bool { v as int == signed(be(s), 0x8000_0000) }
    proof fn widths() { }
//@ fn from_le_slice
//@ replace `i32::from_le_bytes` => `i32_le` ; see i32_le
//@ replace `bytes.try_into()?` => `array_of(bytes)?` ; see array_of
//@ fn from_be_slice
//@ replace `i32::from_be_bytes` => `i32_be` ; see i32_be
//@ replace `bytes.try_into()?` => `array_of(bytes)?` ; see array_of
//@ enditem
//@ impl FromBytes for u32
//@ ghost
    open spec fn width() -> nat { 4 }
    open spec fn is_le(s: Seq<u8>, v: Self) -> bool { v as nat == le(s) }
    open spec fn is_be(s: Seq<u8>, v: Self) -> bool { v as nat == be(s) }
    proof fn widths() { }
//@ fn from_le_slice
//@ replace `u32::from_le_bytes` => `u32_le` ; see u32_le
//@ replace `bytes.try_into()?` => `array_of(bytes)?` ; see array_of
//@ fn from_be_slice
//@ replace `u32::from_be_bytes` => `u32_be` ; see u32_be
//@ replace `bytes.try_into()?` => `array_of(bytes)?` ; see array_of
//@ enditem
//@ impl FromBytes for f32
//@ ghost
    open spec fn width() -> nat { 4 }
    open spec fn is_le(s: Seq<u8>, v: Self) -> bool { v.to_bits_spec() == le(s) as u32 }
    open spec fn is_be(s: Seq<u8>, v: Self) -> bool { v.to_bits_spec() == be(s) as u32 }
    proof fn widths() { }
//@ fn from_le_slice
//@ replace `f32::from_le_bytes` => `f32_le` ; see f32_le
//@ replace `bytes.try_into()?` => `array_of(bytes)?` ; see array_of
//@ fn from_be_slice
//@ replace `f32::from_be_bytes` => `f32_be` ; see f32_be
//@ replace `bytes.try_into()?` => `array_of(bytes)?` ; see array_of
//@ enditem
//@ impl FromBytes for i64
//@ ghost
    open spec fn width() -> nat { 8 }
    open spec fn is_le(s: Seq<u8>, v: Self) -> bool { v as int == signed(le(s), 0x8000_0000_0000_0000) }
    open spec fn is_be(s: Seq<u8>, v: Self) -> bool { v as int == signed(be(s), 0x8000_0000_0000_0000) }
    proof fn widths() { }
//@ fn from_le_slice
//@ replace `i64::from_le_bytes` => `i64_le` ; see i64_le
//@ replace `bytes.try_into()?` => `array_of(bytes)?` ; see array_of
//@ fn from_be_slice
//@ replace `i64::from_be_bytes` => `i64_be` ; see i64_be
//@ replace `bytes.try_into()?` => `array_of(bytes)?` ; see array_of
//@ enditem
//@ impl FromBytes for u64
//@ ghost
    open spec fn width() -> nat { 8 }
    open spec fn is_le(s: Seq<u8>, v: Self) -> bool { v as nat == le(s) }
    open spec fn is_be(s: Seq<u8>, v: Self) -> bool { v as nat == be(s) }
    proof fn widths() { }
//@ fn from_le_slice
//@ replace `u64::from_le_bytes` => `u64_le` ; see u64_le
//@ replace `bytes.try_into()?` => `array_of(bytes)?` ; see array_of
//@ fn from_be_slice
//@ replace `u64::from_be_bytes` => `u64_be` ; see u64_be
//@ replace `bytes.try_into()?` => `array_of(bytes)?` ; see array_of
//@ enditem
//@ impl FromBytes for f64
//@ ghost
    open spec fn width() -> nat { 8 }
    open spec fn is_le(s: Seq<u8>, v: Self) -> bool { v.to_bits_spec() == le(s) as u64 }
    open spec fn is_be(s: Seq<u8>, v: Self) -> bool { v.to_bits_spec() == be(s) as u64 }
    proof fn widths() { }
//@ fn from_le_slice
//@ replace `f64::from_le_bytes` => `f64_le` ; see f64_le
//@ replace `bytes.try_into()?` => `array_of(bytes)?` ; see array_of
//@ fn from_be_slice
//@ replace `f64::from_be_bytes` => `f64_be` ; see f64_be
//@ replace `bytes.try_into()?` => `array_of(bytes)?` ; see array_of
//@ enditem
//@ freefn slice_from_bytes_le
//@ ret r
//@ spec
        requires FB::width() * old(target)@.len() <= usize::MAX, // no slice spans more than isize::MAX bytes
        ensures r.is_ok() == (bytes@.len() == FB::width() * old(target)@.len()), final(target)@.len() == old(target)@.len(),
            r.is_ok() ==> forall|i: int| 0 <= i < final(target)@.len() ==> FB::is_le(bytes@.subrange(i * FB::width(), (i + 1) * FB::width()), #[trigger] final(target)@[i]),
//@ start
    proof { FB::widths(); }
    let ghost n = target@.len();
//@ loop 0 iter it
//@ loop 0 inv
        invariant target@.len() == n, it.seq().len() == n, size == FB::width(), bytes@.len() == FB::width() * n, FB::width() * n <= usize::MAX,
            forall|j: int| 0 <= j < i ==> FB::is_le(bytes@.subrange(j * FB::width(), (j + 1) * FB::width()), #[trigger] target@[j]),
//@ loop 0 start
        assert(i * size <= (i + 1) * size <= size * n) by (nonlinear_arith) requires i < n;
        assert((i + 1) * size - i * size == size) by (nonlinear_arith);
//@ enditem
//@ freefn slice_from_bytes_be
//@ ret r
//@ spec
        requires FB::width() * old(target)@.len() <= usize::MAX, // no slice spans more than isize::MAX bytes
        ensures r.is_ok() == (bytes@.len() == FB::width() * old(target)@.len()), final(target)@.len() == old(target)@.len(),
            r.is_ok() ==> forall|i: int| 0 <= i < final(target)@.len() ==> FB::is_be(bytes@.subrange(i * FB::width(), (i + 1) * FB::width()), #[trigger] final(target)@[i]),
//@ start
    proof { FB::widths(); }
    let ghost n = target@.len();
//@ loop 0 iter it
//@ loop 0 inv
        invariant target@.len() == n, it.seq().len() == n, size == FB::width(), bytes@.len() == FB::width() * n, FB::width() * n <= usize::MAX,
            forall|j: int| 0 <= j < i ==> FB::is_be(bytes@.subrange(j * FB::width(), (j + 1) * FB::width()), #[trigger] target@[j]),
//@ loop 0 start
        assert(i * size <= (i + 1) * size <= size * n) by (nonlinear_arith) requires i < n;
        assert((i + 1) * size - i * size == size) by (nonlinear_arith);
//@ enditem
//@ file src/io/from_bytes.rs | macro array_from_bytes_le | $t=T | $n=N | $bytes=bytes | pub fn array_from_bytes_le<T, const N: usize>(bytes: &[u8]) -> FromBytesResult<[T; N]> where T: FromBytes + Default + Copy
//@ freefn array_from_bytes_le
//@ ret r
//@ replace `return Err(FromBytesError::SizeMismatch)?;` => `return Err(FromBytesError::SizeMismatch);` ; `?` on the caller's own error type
//@ spec
        requires T::width() * N <= usize::MAX, // no array spans more than isize::MAX bytes
        ensures r.is_ok() == (bytes@.len() == T::width() * N),
            r.is_ok() ==> forall|i: int| 0 <= i < N ==> T::is_le(bytes@.subrange(i * T::width(), (i + 1) * T::width()), #[trigger] r->Ok_0@[i]),
//@ start
    proof { T::widths(); }
//@ loop 0 inv
        invariant size == T::width(), bytes@.len() == T::width() * N, T::width() * N <= usize::MAX, 
            forall|j: int| 0 <= j < i ==> T::is_le(bytes@.subrange(j * T::width(), (j + 1) * T::width()), #[trigger] arr@[j]),
//@ loop 0 start
        assert(i * size <= (i + 1) * size <= size * N) by (nonlinear_arith) requires i < N;
        assert((i + 1) * size - i * size == size) by (nonlinear_arith);
//@ enditem
//@ file src/io/from_bytes.rs | macro array_from_bytes_be | $t=T | $n=N | $bytes=bytes | pub fn array_from_bytes_be<T, const N: usize>(bytes: &[u8]) -> FromBytesResult<[T; N]> where T: FromBytes + Default + Copy
//@ freefn array_from_bytes_be
//@ ret r
//@ replace `return Err(FromBytesError::SizeMismatch)?;` => `return Err(FromBytesError::SizeMismatch);` ; `?` on the caller's own error type
//@ spec
        requires T::width() * N <= usize::MAX, // no array spans more than isize::MAX bytes
        ensures r.is_ok() == (bytes@.len() == T::width() * N),
            r.is_ok() ==> forall|i: int| 0 <= i < N ==> T::is_be(bytes@.subrange(i * T::width(), (i + 1) * T::width()), #[trigger] r->Ok_0@[i]),
//@ start
    proof { T::widths(); }
//@ loop 0 inv
        invariant size == T::width(), bytes@.len() == T::width() * N, T::width() * N <= usize::MAX, 
            forall|j: int| 0 <= j < i ==> T::is_be(bytes@.subrange(j * T::width(), (j + 1) * T::width()), #[trigger] arr@[j]),
//@ loop 0 start
        assert(i * size <= (i + 1) * size <= size * N) by (nonlinear_arith) requires i < N;
        assert((i + 1) * size - i * size == size) by (nonlinear_arith);
//@ enditem

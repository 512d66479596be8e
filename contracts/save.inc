// texts, and the numbers written in them
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub trait Text { spec fn txt(&self) -> Seq<u8>; fn octets(&self) -> (r: &[u8]) ensures r@ == self.txt(); }
impl Text for String {
    open spec fn txt(&self) -> Seq<u8> { utf8(self@) }
    /// `x.as_bytes()` (assumed: std)
    #[verifier::external_body]
    fn octets(&self) -> (r: &[u8]) { self.as_bytes() }
}
impl Text for str {
    open spec fn txt(&self) -> Seq<u8> { utf8(self@) }
    /// `x.as_bytes()` (assumed: std)
    #[verifier::external_body]
    fn octets(&self) -> (r: &[u8]) { self.as_bytes() }
}
/// `a + b` (assumed: std)
#[verifier::external_body]
pub fn cat<T: Text + ?Sized>(a: String, b: &T) -> (r: String) ensures r.txt() == a.txt() + b.txt() { unimplemented!() }
/// a text literal (assumed: the language)
#[verifier::external_body]
pub fn lit<const N: usize>(b: &[u8; N]) -> (r: &str) ensures r.txt() == b@ { unimplemented!() }
/// the empty text `format!` starts with
#[verifier::external_body]
pub fn no_text() -> (r: String) ensures r.txt() == Seq::<u8>::empty() { String::new() }
/// a number in scientific notation
pub uninterp spec fn num_exp(x: f64) -> Seq<u8>;
/// decimal digits
pub open spec fn digits(n: nat) -> Seq<u8> decreases n { if n < 10 { seq![(48 + n) as u8] } else { digits(n / 10).push((48 + n % 10) as u8) } }
/// Display, as used by `to_string` and `{}`, and LowerExp `{:e}`
pub trait Show { spec fn shown(&self) -> Seq<u8>; fn show(&self) -> (r: String) ensures r.txt() == self.shown(); }
/// (assumed: std)
impl Show for f64 { open spec fn shown(&self) -> Seq<u8> { num(*self) } #[verifier::external_body] fn show(&self) -> (r: String) { self.to_string() } }
/// (assumed: std)
impl Show for usize { open spec fn shown(&self) -> Seq<u8> { digits(*self as nat) } #[verifier::external_body] fn show(&self) -> (r: String) { self.to_string() } }
/// (assumed: std)
impl Show for u8 { open spec fn shown(&self) -> Seq<u8> { digits(*self as nat) } #[verifier::external_body] fn show(&self) -> (r: String) { self.to_string() } }
/// (assumed: std)
impl Show for str { open spec fn shown(&self) -> Seq<u8> { self.txt() } #[verifier::external_body] fn show(&self) -> (r: String) { self.to_string() } }
/// (assumed: std)
impl Show for String { open spec fn shown(&self) -> Seq<u8> { self.txt() } #[verifier::external_body] fn show(&self) -> (r: String) { self.to_string() } }
/// (assumed: the macro strong_usize! writes the number)
impl Show for VId { open spec fn shown(&self) -> Seq<u8> { digits(self.0 as nat) } #[verifier::external_body] fn show(&self) -> (r: String) { self.0.to_string() } }
pub trait ShowExp { spec fn shown_exp(&self) -> Seq<u8>; fn show_exp(&self) -> (r: String) ensures r.txt() == self.shown_exp(); }
/// (assumed: std)
impl ShowExp for f64 { open spec fn shown_exp(&self) -> Seq<u8> { num_exp(*self) } #[verifier::external_body] fn show_exp(&self) -> (r: String) { format!("{:e}", self) } }
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExError(std::io::Error);
// std::io::Write: ghost bytes written so far. write_all writes all bytes, or fails (assumed: std's documented contract)
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(WriteSpec via WriteSpecImpl)]
pub trait ExWrite {
    type ExternalTraitSpecificationFor: std::io::Write;
    spec fn written(&self) -> Seq<u8>;
    /// writing does not fail
    spec fn keeps(&self) -> bool;
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize>;
    fn flush(&mut self) -> std::io::Result<()>;
    fn write_all(&mut self, buf: &[u8]) -> (r: std::io::Result<()>)
        ensures final(self).keeps() == old(self).keeps(), old(self).keeps() ==> r.is_ok(), r.is_ok() ==> final(self).written() == old(self).written() + buf@;
}

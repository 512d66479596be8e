#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExError(std::io::Error);
// std::io::Read: ghost rest of the stream. read_exact consumes exactly the bytes it returns, or fails (assumed: std's documented contract)
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(ReadSpec via ReadSpecImpl)]
pub trait ExRead {
    type ExternalTraitSpecificationFor: std::io::Read;
    /// the bytes not read yet
    spec fn left(&self) -> Seq<u8>;
    /// all bytes of a seekable stream
    spec fn whole(&self) -> Seq<u8>;
    /// reading fails only if the stream is too short
    spec fn reliable(&self) -> bool;
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize>;
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: std::io::Result<()>)
        ensures final(buf)@.len() == old(buf)@.len(), final(self).reliable() == old(self).reliable(), final(self).whole() == old(self).whole(),
            r.is_ok() ==> old(self).left().len() >= old(buf)@.len() && final(buf)@ == old(self).left().take(old(buf)@.len() as int) && final(self).left() == old(self).left().skip(old(buf)@.len() as int),
            old(self).reliable() && old(self).left().len() >= old(buf)@.len() ==> r.is_ok();
}

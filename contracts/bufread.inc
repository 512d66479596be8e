/// number of bytes up to and including the first b, or all
pub open spec fn upto(s: Seq<u8>, b: u8) -> int decreases s.len() { if s.len() == 0 { 0 } else if s[0] == b { 1 } else { 1 + upto(s.drop_first(), b) } }
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(BufReadSpec via BufReadSpecImpl)]
pub trait ExBufRead: Read {
    type ExternalTraitSpecificationFor: std::io::BufRead;
    spec fn unused(&self) -> bool;
    fn fill_buf(&mut self) -> std::io::Result<&[u8]>;
    fn consume(&mut self, n: usize);
    fn read_until(&mut self, byte: u8, buf: &mut Vec<u8>) -> (r: std::io::Result<usize>)
        ensures (*final(self)).reliable() == (*old(self)).reliable(), (*final(self)).whole() == (*old(self)).whole(),
            r.is_ok() ==> r->Ok_0 == upto((*old(self)).left(), byte) && final(buf)@ == old(buf)@ + (*old(self)).left().take(r->Ok_0 as int) && (*final(self)).left() == (*old(self)).left().skip(r->Ok_0 as int),
            (*old(self)).reliable() ==> r.is_ok();
}

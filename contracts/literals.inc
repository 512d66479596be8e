pub open spec fn begins(l: Seq<u8>, p: Seq<u8>) -> bool { l.len() >= p.len() && l.take(p.len() as int) == p }
/// `line.starts_with(prefix)` (assumed: std)
#[verifier::external_body]
pub fn starts_with<const N: usize>(line: &[u8], prefix: &[u8; N]) -> (r: bool) ensures r == begins(line@, prefix@) { line.starts_with(prefix) }
/// `x == y` (assumed: std), also for matching on byte strings
#[verifier::external_body]
pub fn is_bytes<const N: usize>(x: &[u8], y: &[u8; N]) -> (r: bool) ensures r == (x@ == y@) { x == y }

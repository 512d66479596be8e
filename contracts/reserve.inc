//@ file src/io/types.rs
//@ enum DataReserve
//@ enditem
/// `n.min(m)` (assumed: std)
#[verifier::external_body]
pub fn min_of(n: usize, m: usize) -> (r: usize) ensures r == (if n <= m { n } else { m }) { n.min(m) }
//@ file src/io/utils.rs
//@ freefn limit_reserve
//@ ret r
//@ replace `n.min(MAX_RESERVE)` => `min_of(n, MAX_RESERVE)` ; see min_of
//@ spec
    ensures r <= n, r <= 1_000_000,
//@ enditem

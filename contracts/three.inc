/// `let [a, b, c] = x` (assumed: the language)
#[verifier::external_body]
pub fn three<P>(x: [P; 3]) -> (r: (P, P, P)) ensures r.0 == x[0], r.1 == x[1], r.2 == x[2] { let [a, b, c] = x; (a, b, c) }

// smallest / largest of the first n values of a sequence, as the code computes them, and what that means
pub open spec fn lo(f: spec_fn(int) -> f64, n: int) -> f64 decreases n {
    if n <= 1 { f(0) } else { let m = lo(f, n - 1); if f(n - 1).ieee_lt(m) { f(n - 1) } else { m } }
}
pub open spec fn hi(f: spec_fn(int) -> f64, n: int) -> f64 decreases n {
    if n <= 1 { f(0) } else { let m = hi(f, n - 1); if m.ieee_lt(f(n - 1)) { f(n - 1) } else { m } }
}
/// without NaN the limits are values of the sequence and bound all of it
pub proof fn limits_are_tight(f: spec_fn(int) -> f64, n: int)
    requires 1 <= n, forall|j: int| 0 <= j < n ==> !nan(#[trigger] f(j)),
    ensures
        exists|j: int| 0 <= j < n && #[trigger] f(j) == lo(f, n), exists|j: int| 0 <= j < n && #[trigger] f(j) == hi(f, n),
        forall|j: int| 0 <= j < n ==> lo(f, n).ieee_le(#[trigger] f(j)) && f(j).ieee_le(hi(f, n)),
    decreases n
{
    if n == 1 { tri(f(0), f(0)); }
    else {
        limits_are_tight(f, n - 1);
        let (a, b, x) = (lo(f, n - 1), hi(f, n - 1), f(n - 1));
        assert(!nan(a) && !nan(b));
        tri(x, a); tri(a, x); tri(x, b); tri(b, x); tri(x, x);
        assert forall|j: int| 0 <= j < n implies lo(f, n).ieee_le(#[trigger] f(j)) && f(j).ieee_le(hi(f, n)) by {
            if j < n - 1 {
                if x.ieee_lt(a) { lt_facts(x, a); le_trans(x, a, f(j)); }
                if b.ieee_lt(x) { lt_facts(b, x); le_trans(f(j), b, x); }
            }
        }
        let j = choose|j: int| 0 <= j < n - 1 && #[trigger] f(j) == a;
        let k = choose|k: int| 0 <= k < n - 1 && #[trigger] f(k) == b;
        assert(f(n - 1) == x && f(j) == a && f(k) == b);
    }
}

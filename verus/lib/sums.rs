pub proof fn vsum_cong(f: spec_fn(int) -> F, g: spec_fn(int) -> F, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == g(i),
    ensures vsum(f, n) == vsum(g, n),
    decreases n
{ if n > 0 { vsum_cong(f, g, n - 1); } }
pub proof fn vsum_split(f: spec_fn(int) -> F, m: int, n: int)
    requires 0 <= m <= n,
    ensures vsum(f, n) == fadd(vsum(f, m), vsum(|i: int| f(m + i), n - m)),
    decreases n - m
{
    let g = |i: int| f(m + i);
    if n > m {
        vsum_split(f, m, n - 1);
        ax_add_assoc(vsum(f, m), vsum(g, n - 1 - m), f(n - 1));
        assert(g(n - 1 - m) == f(n - 1));
    }
}
pub proof fn vsum_add(f: spec_fn(int) -> F, g: spec_fn(int) -> F, n: int)
    ensures fadd(vsum(f, n), vsum(g, n)) == vsum(|i: int| fadd(f(i), g(i)), n),
    decreases n
{
    let h = |i: int| fadd(f(i), g(i));
    if n > 0 {
        vsum_add(f, g, n - 1);
        let (a, b, c, d) = (vsum(f, n - 1), f(n - 1), vsum(g, n - 1), g(n - 1));
        ax_add_assoc(a, b, fadd(c, d));
        ax_add_assoc(b, c, d);
        ax_add_assoc(c, b, d);
        ax_add_assoc(a, c, fadd(b, d));
        assert(h(n - 1) == fadd(b, d));
    }
}
pub proof fn vsum_scale(x: F, f: spec_fn(int) -> F, n: int)
    ensures fmul(x, vsum(f, n)) == vsum(|i: int| fmul(x, f(i)), n),
    decreases n
{
    let h = |i: int| fmul(x, f(i));
    if n > 0 {
        vsum_scale(x, f, n - 1);
        ax_distr(x, vsum(f, n - 1), f(n - 1));
        assert(h(n - 1) == fmul(x, f(n - 1)));
    }
}
pub proof fn vsum_zero(f: spec_fn(int) -> F, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == f0(),
    ensures vsum(f, n) == f0(),
    decreases n
{ if n > 0 { vsum_zero(f, n - 1); } }
// first factor out of a product
pub proof fn vprod_front(f: spec_fn(int) -> F, n: int)
    requires n > 0,
    ensures vprod(f, n) == fmul(f(0), vprod(|i: int| f(i + 1), n - 1)),
    decreases n
{
    let g = |i: int| f(i + 1);
    if n > 1 {
        vprod_front(f, n - 1);
        assert(g(n - 2) == f(n - 1));
        ax_mul_assoc(f(0), vprod(g, n - 2), f(n - 1));
    } else {
        assert(vprod(f, 0) == f1());
        assert(vprod(g, 0) == f1());
        assert(vprod(f, 1) == fmul(f1(), f(0)));
    }
}
pub proof fn vprod_cong(f: spec_fn(int) -> F, g: spec_fn(int) -> F, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == g(i),
    ensures vprod(f, n) == vprod(g, n),
    decreases n
{ if n > 0 { vprod_cong(f, g, n - 1); } }

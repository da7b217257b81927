// ---- a decision procedure for commutative ring identities (normal forms, proved here) ----
pub open spec fn fint(c: int) -> F
    decreases (if c < 0 { -c } else { c }),
{
    if c == 0 { f0() } else if c > 0 { fadd(fint(c - 1), f1()) } else { fadd(fint(c + 1), fneg(f1())) }
}
pub proof fn lemma_rneg(a: F)
    ensures fneg(a) == fmul(fneg(f1()), a),
{
    // a + (-1)a = (1 + (-1))a = 0
    let m = fmul(fneg(f1()), a);
    ax_distr(a, f1(), fneg(f1()));
    ax_neg(f1());
    assert(fadd(a, m) == f0());
    ax_neg(a);
    // -a = -a + (a + m) = m
    ax_add_assoc(fneg(a), a, m);
    assert(fadd(fneg(a), fadd(a, m)) == fneg(a));
    assert(fadd(fneg(a), a) == f0());
    assert(fadd(f0(), m) == m);
}
pub proof fn lemma_fint_succ(c: int)
    ensures fint(c + 1) == fadd(fint(c), f1()),
{
    if c < 0 {
        ax_add_assoc(fint(c + 1), fneg(f1()), f1());
        ax_neg(f1());
    }
}
pub proof fn lemma_fint_pred(c: int)
    ensures fint(c - 1) == fadd(fint(c), fneg(f1())),
{
    if c > 0 {
        ax_add_assoc(fint(c - 1), f1(), fneg(f1()));
        ax_neg(f1());
    }
}
pub proof fn lemma_fint_add(a: int, b: int)
    ensures fint(a + b) == fadd(fint(a), fint(b)),
    decreases (if b < 0 { -b } else { b }),
{
    if b > 0 {
        lemma_fint_add(a, b - 1);
        lemma_fint_succ(a + b - 1);
        ax_add_assoc(fint(a), fint(b - 1), f1());
    } else if b < 0 {
        lemma_fint_add(a, b + 1);
        lemma_fint_pred(a + b + 1);
        ax_add_assoc(fint(a), fint(b + 1), fneg(f1()));
    }
}
pub proof fn lemma_fint_neg(a: int)
    ensures fint(-a) == fneg(fint(a)),
{
    lemma_fint_add(a, -a);
    ax_neg(fint(a));
    ax_add_assoc(fneg(fint(a)), fint(a), fint(-a));
}
pub proof fn lemma_fint_mul(a: int, b: int)
    ensures fint(a * b) == fmul(fint(a), fint(b)),
    decreases (if b < 0 { -b } else { b }),
{
    if b > 0 {
        lemma_fint_mul(a, b - 1);
        assert(a * b == a * (b - 1) + a) by (nonlinear_arith);
        lemma_fint_add(a * (b - 1), a);
        ax_distr(fint(a), fint(b - 1), f1());
    } else if b < 0 {
        lemma_fint_mul(a, b + 1);
        assert(a * b == a * (b + 1) + (-a)) by (nonlinear_arith);
        lemma_fint_add(a * (b + 1), -a);
        ax_distr(fint(a), fint(b + 1), fneg(f1()));
        lemma_fint_neg(a);
        lemma_rneg(fint(a));
    } else {
        assert(a * b == 0) by (nonlinear_arith) requires b == 0;
    }
}
// polynomials: monomials (lists of variables) with integer coefficients
pub type Mono = Seq<nat>;
pub type Poly = Seq<(Seq<nat>, int)>;
pub open spec fn mden(m: Mono, env: Seq<F>) -> F
    decreases m.len(),
{
    if m.len() == 0 { f1() } else { fmul(env[m[0] as int], mden(m.subrange(1, m.len() as int), env)) }
}
pub open spec fn pden(p: Poly, env: Seq<F>) -> F
    decreases p.len(),
{
    if p.len() == 0 { f0() } else { fadd(fmul(fint(p[0].1), mden(p[0].0, env)), pden(p.subrange(1, p.len() as int), env)) }
}
pub open spec fn mmul(m: Mono, n: Mono) -> Mono
    decreases m.len() + n.len(),
{
    if m.len() == 0 { n } else if n.len() == 0 { m }
    else if m[0] <= n[0] { seq![m[0]] + mmul(m.subrange(1, m.len() as int), n) }
    else { seq![n[0]] + mmul(m, n.subrange(1, n.len() as int)) }
}
pub open spec fn meq(m: Mono, n: Mono) -> bool
    decreases m.len(),
{
    if m.len() != n.len() { false } else if m.len() == 0 { true }
    else { m[0] == n[0] && meq(m.subrange(1, m.len() as int), n.subrange(1, n.len() as int)) }
}
pub open spec fn mlt(m: Mono, n: Mono) -> bool
    decreases m.len(),
{
    if n.len() == 0 { false } else if m.len() == 0 { true }
    else if m[0] != n[0] { m[0] < n[0] }
    else { mlt(m.subrange(1, m.len() as int), n.subrange(1, n.len() as int)) }
}
pub open spec fn padd(p: Poly, q: Poly) -> Poly
    decreases p.len() + q.len(),
{
    if p.len() == 0 { q } else if q.len() == 0 { p }
    else if meq(p[0].0, q[0].0) {
        let r = padd(p.subrange(1, p.len() as int), q.subrange(1, q.len() as int));
        if p[0].1 + q[0].1 == 0 { r } else { seq![(p[0].0, p[0].1 + q[0].1)] + r }
    }
    else if mlt(p[0].0, q[0].0) { seq![p[0]] + padd(p.subrange(1, p.len() as int), q) }
    else { seq![q[0]] + padd(p, q.subrange(1, q.len() as int)) }
}
pub open spec fn pscale(m: Mono, c: int, q: Poly) -> Poly
    decreases q.len(),
{
    if q.len() == 0 { q } else { padd(seq![(mmul(m, q[0].0), c * q[0].1)], pscale(m, c, q.subrange(1, q.len() as int))) }
}
pub open spec fn pmul(p: Poly, q: Poly) -> Poly
    decreases p.len(),
{
    if p.len() == 0 { p } else { padd(pscale(p[0].0, p[0].1, q), pmul(p.subrange(1, p.len() as int), q)) }
}
pub open spec fn pvar(i: nat) -> Poly { seq![(seq![i], 1int)] }
pub open spec fn pint(c: int) -> Poly { if c == 0 { seq![] } else { seq![(seq![], c)] } }
pub open spec fn pneg(p: Poly) -> Poly { pscale(seq![], -1int, p) }
pub open spec fn peq(p: Poly, q: Poly) -> bool
    decreases p.len(),
{
    if p.len() != q.len() { false } else if p.len() == 0 { true }
    else { p[0].1 == q[0].1 && meq(p[0].0, q[0].0) && peq(p.subrange(1, p.len() as int), q.subrange(1, q.len() as int)) }
}
pub proof fn lemma_meq(m: Mono, n: Mono)
    requires meq(m, n), ensures m == n, decreases m.len(),
{
    if m.len() > 0 {
        let a = m.subrange(1, m.len() as int);
        let b = n.subrange(1, n.len() as int);
        lemma_meq(a, b);
        assert(m =~= seq![m[0]] + a && n =~= seq![n[0]] + b);
    } else { assert(m =~= n); }
}
pub proof fn lemma_peq(p: Poly, q: Poly)
    requires peq(p, q), ensures p == q, decreases p.len(),
{
    if p.len() > 0 {
        let a = p.subrange(1, p.len() as int);
        let b = q.subrange(1, q.len() as int);
        lemma_peq(a, b);
        lemma_meq(p[0].0, q[0].0);
        assert(p =~= seq![p[0]] + a && q =~= seq![q[0]] + b);
    } else { assert(p =~= q); }
}
pub proof fn lemma_mcons(i: nat, m: Mono, env: Seq<F>)
    ensures mden(seq![i] + m, env) == fmul(env[i as int], mden(m, env)),
{ assert((seq![i] + m).subrange(1, (seq![i] + m).len() as int) =~= m); }
pub proof fn lemma_pcons(t: (Seq<nat>, int), p: Poly, env: Seq<F>)
    ensures pden(seq![t] + p, env) == fadd(fmul(fint(t.1), mden(t.0, env)), pden(p, env)),
{ assert((seq![t] + p).subrange(1, (seq![t] + p).len() as int) =~= p); }
pub proof fn lemma_mmul(m: Mono, n: Mono, env: Seq<F>)
    ensures mden(mmul(m, n), env) == fmul(mden(m, env), mden(n, env)),
    decreases m.len() + n.len(),
{
    if m.len() == 0 || n.len() == 0 { }
    else if m[0] <= n[0] {
        let a = m.subrange(1, m.len() as int);
        lemma_mmul(a, n, env);
        lemma_mcons(m[0], mmul(a, n), env);
        ax_mul_assoc(env[m[0] as int], mden(a, env), mden(n, env));
    } else {
        let b = n.subrange(1, n.len() as int);
        lemma_mmul(m, b, env);
        lemma_mcons(n[0], mmul(m, b), env);
        ax_mul_assoc(env[n[0] as int], mden(b, env), mden(m, env));
    }
}
pub proof fn lemma_padd(p: Poly, q: Poly, env: Seq<F>)
    ensures pden(padd(p, q), env) == fadd(pden(p, env), pden(q, env)),
    decreases p.len() + q.len(),
{
    if p.len() == 0 || q.len() == 0 { }
    else {
        let a = p.subrange(1, p.len() as int);
        let b = q.subrange(1, q.len() as int);
        let (x, y) = (pden(a, env), pden(b, env));
        let s = fmul(fint(p[0].1), mden(p[0].0, env));
        let t = fmul(fint(q[0].1), mden(q[0].0, env));
        if meq(p[0].0, q[0].0) {
            lemma_meq(p[0].0, q[0].0);
            lemma_padd(a, b, env);
            let c = p[0].1 + q[0].1;
            let st = fmul(fint(c), mden(p[0].0, env));
            lemma_fint_add(p[0].1, q[0].1);
            ax_distr(mden(p[0].0, env), fint(p[0].1), fint(q[0].1));
            assert(st == fadd(s, t));
            ax_add_assoc(fadd(s, x), t, y);
            ax_add_assoc(s, x, t);
            ax_add_assoc(s, t, x);
            ax_add_assoc(fadd(s, t), x, y);
            assert(fadd(fadd(s, x), fadd(t, y)) == fadd(st, fadd(x, y)));
            if c == 0 { assert(st == f0()); } else { lemma_pcons((p[0].0, c), padd(a, b), env); }
        } else if mlt(p[0].0, q[0].0) {
            lemma_padd(a, q, env);
            lemma_pcons(p[0], padd(a, q), env);
            ax_add_assoc(s, x, fadd(t, y));
        } else {
            lemma_padd(p, b, env);
            lemma_pcons(q[0], padd(p, b), env);
            ax_add_assoc(fadd(s, x), t, y);
            ax_add_assoc(t, fadd(s, x), y);
        }
    }
}
pub proof fn lemma_pone(m: Mono, c: int, env: Seq<F>)
    ensures pden(seq![(m, c)], env) == fmul(fint(c), mden(m, env)),
{
    let e: Poly = seq![];
    assert(seq![(m, c)].subrange(1, 1) =~= e);
    assert(pden(e, env) == f0());
}
pub proof fn lemma_pscale(m: Mono, c: int, q: Poly, env: Seq<F>)
    ensures pden(pscale(m, c, q), env) == fmul(fmul(fint(c), mden(m, env)), pden(q, env)),
    decreases q.len(),
{
    if q.len() > 0 {
        let b = q.subrange(1, q.len() as int);
        let h = seq![(mmul(m, q[0].0), c * q[0].1)];
        lemma_pscale(m, c, b, env);
        lemma_padd(h, pscale(m, c, b), env);
        lemma_pone(mmul(m, q[0].0), c * q[0].1, env);
        lemma_mmul(m, q[0].0, env);
        lemma_fint_mul(c, q[0].1);
        let (u, v, s, t) = (fint(c), mden(m, env), fint(q[0].1), mden(q[0].0, env));
        ax_mul_assoc(u, s, fmul(v, t));
        ax_mul_assoc(s, v, t);
        ax_mul_assoc(v, s, t);
        ax_mul_assoc(u, v, fmul(s, t));
        assert(fmul(fmul(u, s), fmul(v, t)) == fmul(fmul(u, v), fmul(s, t)));
        ax_distr(fmul(u, v), fmul(s, t), pden(b, env));
    }
}
pub proof fn lemma_pmul(p: Poly, q: Poly, env: Seq<F>)
    ensures pden(pmul(p, q), env) == fmul(pden(p, env), pden(q, env)),
    decreases p.len(),
{
    if p.len() > 0 {
        let a = p.subrange(1, p.len() as int);
        lemma_pmul(a, q, env);
        lemma_pscale(p[0].0, p[0].1, q, env);
        lemma_padd(pscale(p[0].0, p[0].1, q), pmul(a, q), env);
        ax_distr(pden(q, env), fmul(fint(p[0].1), mden(p[0].0, env)), pden(a, env));
    }
}
pub proof fn lemma_pvar(i: nat, env: Seq<F>)
    ensures pden(pvar(i), env) == env[i as int],
{
    lemma_pone(seq![i], 1, env);
    lemma_fint_succ(0);
    assert(seq![i] =~= seq![i] + seq![]);
    lemma_mcons(i, seq![], env);
}
pub proof fn lemma_pint(c: int, env: Seq<F>)
    ensures pden(pint(c), env) == fint(c),
{ if c != 0 { lemma_pone(seq![], c, env); } }
pub proof fn lemma_pneg(p: Poly, env: Seq<F>)
    ensures pden(pneg(p), env) == fneg(pden(p, env)),
{
    lemma_pscale(seq![], -1, p, env);
    lemma_fint_pred(0);
    lemma_rneg(pden(p, env));
}
pub proof fn lemma_fint1() ensures fint(0) == f0(), fint(1) == f1() { lemma_fint_succ(0); }

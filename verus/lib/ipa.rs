pub struct Proof { pub L_vec: Vec<G1>, pub R_vec: Vec<G1>, pub a: F, pub b: F }
pub uninterp spec fn vtz(x: usize) -> u32;
#[verifier::external_body]
pub fn vtrailing(x: usize) -> (r: u32) ensures r == vtz(x), is_pow2(x as int) ==> r < 64 && x == two(r as int) { x.trailing_zeros() }
#[verifier::external_body]
pub fn vleading(x: u32) -> (r: u32) ensures x > 0 ==> r < 32 && two(31 - r) <= x < two(32 - r) { x.leading_zeros() }
pub uninterp spec fn finv(a: F) -> F;
pub axiom fn ax_inv(a: F) ensures a != f0() ==> fmul(a, finv(a)) == f1();
impl F {
    #[verifier::external_body] pub fn inverse(&self) -> (r: Option<F>) ensures r == (if *self == f0() { None } else { Some(finv(*self)) }) { unimplemented!() }
}
// ---- the schedule: what is absorbed before round j, and the challenge of round j ----
pub open spec fn ip_start(log: Seq<Item>, n: int, u: G1, p: G1, g: Vec<G1>, h: Vec<G1>) -> Seq<Item> {
    log.push(Item::Num("n"@, n as u64)).push(Item::Msg("u"@, u.enc())).push(Item::Msg("P"@, p.enc())).push(Item::Msg("g_vec"@, g.enc())).push(Item::Msg("h_vec"@, h.enc()))
}
pub open spec fn ip_log(s: Seq<Item>, l: Seq<G1>, r: Seq<G1>, j: int) -> Seq<Item>
    decreases j
{
    if j <= 0 { s } else { ip_log(s, l, r, j - 1).push(Item::Msg("L"@, l[j - 1].enc())).push(Item::Msg("R"@, r[j - 1].enc())).push(Item::Chal("x"@, 31)) }
}
pub open spec fn ipx(s: Seq<Item>, l: Seq<G1>, r: Seq<G1>) -> spec_fn(int) -> F { |j: int| fr_of(chal(ip_log(s, l, r, j + 1))) }
pub proof fn lemma_log_prefix(s: Seq<Item>, l: Seq<G1>, r: Seq<G1>, l2: Seq<G1>, r2: Seq<G1>, j: int)
    requires forall|i: int| 0 <= i < j ==> l[i] == l2[i] && r[i] == r2[i],
    ensures ip_log(s, l, r, j) == ip_log(s, l2, r2, j),
    decreases j
{ if j > 0 { lemma_log_prefix(s, l, r, l2, r2, j - 1); } }
// ---- the weight of generator t after j rounds: bit by bit, the last challenge on the lowest bit ----
pub open spec fn wt(x: spec_fn(int) -> F, j: int, t: int) -> F
    decreases j
{
    if j <= 0 { f1() } else { fmul(wt(x, j - 1, t / 2), if t % 2 == 1 { x(j - 1) } else { finv(x(j - 1)) }) }
}
// the weights of the other list: the inverses
pub open spec fn vt(x: spec_fn(int) -> F, j: int, t: int) -> F
    decreases j
{
    if j <= 0 { f1() } else { fmul(vt(x, j - 1, t / 2), if t % 2 == 1 { finv(x(j - 1)) } else { x(j - 1) }) }
}
pub proof fn lemma_vt(x: spec_fn(int) -> F, j: nat, t: int)
    requires 0 <= t < two(j as int),
    ensures vt(x, j as int, t) == wt(x, j as int, two(j as int) - 1 - t),
    decreases j
{
    lemma_two(j);
    if j > 0 {
        lemma_two((j - 1) as nat);
        lemma_vt(x, (j - 1) as nat, t / 2);
        let m = two(j as int) - 1 - t;
        assert(m / 2 == two(j - 1) - 1 - t / 2 && (m % 2 == 1) == (t % 2 == 0));
    }
}
pub proof fn lemma_wt_cong(x: spec_fn(int) -> F, y: spec_fn(int) -> F, j: int, t: int)
    requires forall|i: int| 0 <= i < j ==> #[trigger] x(i) == y(i),
    ensures wt(x, j, t) == wt(y, j, t), vt(x, j, t) == vt(y, j, t),
    decreases j
{ if j > 0 { lemma_wt_cong(x, y, j - 1, t / 2); } }
// the weight of 2^p + q from the weight of q
pub proof fn lemma_wt_top(x: spec_fn(int) -> F, j: int, p: nat, q: int)
    requires p < j, 0 <= q < two(p as int), x(j - 1 - p) != f0(),
    ensures wt(x, j, two(p as int) + q) == fmul(wt(x, j, q), fmul(x(j - 1 - p), x(j - 1 - p))),
    decreases p
{
    lemma_two(p);
    let t = two(p as int) + q;
    if p == 0 {
        let (c, w) = (x(j - 1), wt(x, j - 1, 0));
        ax_inv(c);
        // (w * c^-1) * (c * c) = w * c
        ax_mul_assoc(w, finv(c), fmul(c, c));
        ax_mul_assoc(finv(c), c, c);
    } else {
        lemma_two((p - 1) as nat);
        lemma_wt_top(x, j - 1, (p - 1) as nat, q / 2);
        assert(t / 2 == two(p - 1) + q / 2 && t % 2 == q % 2);
        let c = x(j - 1 - p);
        let (w, d) = (wt(x, j - 1, q / 2), if q % 2 == 1 { x(j - 1) } else { finv(x(j - 1)) });
        ax_mul_assoc(w, fmul(c, c), d);
        ax_mul_assoc(w, d, fmul(c, c));
    }
}
// ---- one folding step ----
pub open spec fn fold(a: Seq<F>, n: int, x: F, y: F) -> Seq<F> { Seq::new(n as nat, |i: int| fadd(fmul(a[i], x), fmul(a[n + i], y))) }
pub open spec fn lo(a: Seq<F>, n: int) -> Seq<F> { a.subrange(0, n) }
pub open spec fn hi(a: Seq<F>, n: int) -> Seq<F> { a.subrange(n, a.len() as int) }
pub proof fn lemma_fold_q(a: Seq<F>, b: Seq<F>, n: int, x: F, y: F, q: int)
    requires 0 <= q <= n, a.len() == 2 * n, b.len() == 2 * n, fmul(x, y) == f1(),
    ensures vsum(term(fold(a, n, x, y), fold(b, n, y, x)), q)
        == fadd(fadd(vsum(term(lo(a, n), lo(b, n)), q), vsum(term(hi(a, n), hi(b, n)), q)), fadd(fmul(fmul(x, x), vsum(term(lo(a, n), hi(b, n)), q)), fmul(fmul(y, y), vsum(term(hi(a, n), lo(b, n)), q)))),
    decreases q
{
    if q > 0 {
        lemma_fold_q(a, b, n, x, y, q - 1);
        let i = q - 1;
        let (al, ah, bl, bh) = (a[i], a[n + i], b[i], b[n + i]);
        foldterm(x, y, al, ah, bl, bh);
        assert(fmul(fmul(x, y), fadd(fmul(al, bl), fmul(ah, bh))) == fadd(fmul(al, bl), fmul(ah, bh)));
        let (s, t, v, w) = (vsum(term(lo(a, n), lo(b, n)), i), vsum(term(hi(a, n), hi(b, n)), i), vsum(term(lo(a, n), hi(b, n)), i), vsum(term(hi(a, n), lo(b, n)), i));
        foldadd(fmul(x, x), fmul(y, y), s, t, v, w, fmul(al, bl), fmul(ah, bh), fmul(al, bh), fmul(ah, bl));
        assert(term(lo(a, n), lo(b, n))(i) == fmul(al, bl));
        assert(term(hi(a, n), hi(b, n))(i) == fmul(ah, bh));
        assert(term(lo(a, n), hi(b, n))(i) == fmul(al, bh));
        assert(term(hi(a, n), lo(b, n))(i) == fmul(ah, bl));
    }
}
pub proof fn lemma_fold(a: Seq<F>, b: Seq<F>, n: int, x: F, y: F)
    requires 0 <= n, a.len() == 2 * n, b.len() == 2 * n, fmul(x, y) == f1(),
    ensures dot(fold(a, n, x, y), fold(b, n, y, x)) == fadd(dot(a, b), fadd(fmul(fmul(x, x), dot(lo(a, n), hi(b, n))), fmul(fmul(y, y), dot(hi(a, n), lo(b, n))))),
{
    lemma_fold_q(a, b, n, x, y, n);
    let f = term(a, b);
    vsum_split(f, n, 2 * n);
    vsum_cong(f, term(lo(a, n), lo(b, n)), n);
    vsum_cong(|i: int| f(n + i), term(hi(a, n), hi(b, n)), n);
}
// the claim of one round: <a, g> + <b, h> + u <a, b>
pub open spec fn claim(a: Seq<F>, b: Seq<F>, g: Seq<F>, h: Seq<F>, u: F) -> F { fadd(fadd(dot(a, g), dot(b, h)), fmul(u, dot(a, b))) }
pub proof fn lemma_round(a: Seq<F>, b: Seq<F>, g: Seq<F>, h: Seq<F>, u: F, n: int, x: F, y: F, l: F, r: F)
    requires 0 <= n, a.len() == 2 * n, b.len() == 2 * n, g.len() == 2 * n, h.len() == 2 * n, fmul(x, y) == f1(),
        l == fadd(fadd(dot(lo(a, n), hi(g, n)), dot(hi(b, n), lo(h, n))), fmul(u, dot(lo(a, n), hi(b, n)))),
        r == fadd(fadd(dot(hi(a, n), lo(g, n)), dot(lo(b, n), hi(h, n))), fmul(u, dot(hi(a, n), lo(b, n)))),
    ensures claim(fold(a, n, x, y), fold(b, n, y, x), fold(g, n, y, x), fold(h, n, x, y), u) == fadd(fadd(claim(a, b, g, h, u), fmul(fmul(x, x), l)), fmul(fmul(y, y), r)),
{
    lemma_fold(a, g, n, x, y);
    lemma_fold(b, h, n, y, x);
    lemma_fold(a, b, n, x, y);
    vsum_cong(term(lo(h, n), hi(b, n)), term(hi(b, n), lo(h, n)), n);
    roundsum(fmul(x, x), fmul(y, y), u, dot(a, g), dot(lo(a, n), hi(g, n)), dot(hi(a, n), lo(g, n)), dot(b, h), dot(hi(b, n), lo(h, n)), dot(lo(b, n), hi(h, n)), dot(a, b), dot(lo(a, n), hi(b, n)), dot(hi(a, n), lo(b, n)));
}
// ---- the generators after j rounds ----
pub open spec fn wsum_(w: spec_fn(int) -> F, g: Seq<F>, n: int, m: int) -> spec_fn(int) -> F { |t: int| fmul(w(t), g[t * n + m]) }
pub open spec fn wtf(x: spec_fn(int) -> F, j: int) -> spec_fn(int) -> F { |t: int| wt(x, j, t) }
pub open spec fn vtf(x: spec_fn(int) -> F, j: int) -> spec_fn(int) -> F { |t: int| vt(x, j, t) }
pub proof fn lemma_pairs(w: spec_fn(int) -> F, v: spec_fn(int) -> F, g: Seq<F>, n: int, m: int, y: F, x: F, c: int)
    requires 0 <= c, forall|t: int| 0 <= t < 2 * c ==> #[trigger] v(t) == fmul(w(t / 2), if t % 2 == 1 { x } else { y }),
    ensures fadd(fmul(vsum(wsum_(w, g, 2 * n, m), c), y), fmul(vsum(wsum_(w, g, 2 * n, n + m), c), x)) == vsum(wsum_(v, g, n, m), 2 * c),
    decreases c
{
    if c > 0 {
        lemma_pairs(w, v, g, n, m, y, x, c - 1);
        let t = c - 1;
        assert((2 * t) / 2 == t && (2 * t) % 2 == 0 && (2 * t + 1) / 2 == t && (2 * t + 1) % 2 == 1);
        assert(v(2 * t) == fmul(w(t), y));
        assert(v(2 * t + 1) == fmul(w(t), x));
        assert((2 * t) * n + m == t * (2 * n) + m) by (nonlinear_arith);
        assert((2 * t + 1) * n + m == t * (2 * n) + (n + m)) by (nonlinear_arith);
        let f = wsum_(v, g, n, m);
        assert(vsum(f, 2 * c) == fadd(vsum(f, 2 * c - 1), f(2 * c - 1)));
        assert(vsum(f, 2 * c - 1) == fadd(vsum(f, 2 * c - 2), f(2 * c - 2)));
        let (s, r) = (vsum(wsum_(w, g, 2 * n, m), t), vsum(wsum_(w, g, 2 * n, n + m), t));
        pairterm(x, y, s, r, w(t), g[t * (2 * n) + m], g[t * (2 * n) + (n + m)]);
    } else {
        assert(vsum(wsum_(w, g, 2 * n, m), 0) == f0());
        assert(vsum(wsum_(w, g, 2 * n, n + m), 0) == f0());
        assert(fmul(f0(), y) == f0());
    }
}
pub open spec fn ip_rhs(x: spec_fn(int) -> F, l: Seq<G1>, r: Seq<G1>, j: int) -> F
    decreases j
{
    if j <= 0 { f0() } else { fadd(fadd(ip_rhs(x, l, r, j - 1), fmul(fmul(x(j - 1), x(j - 1)), l[j - 1].lg())), fmul(fmul(finv(x(j - 1)), finv(x(j - 1))), r[j - 1].lg())) }
}
// the verifier's equation
pub open spec fn ip_lhs(x: spec_fn(int) -> F, k: int, g: Seq<F>, h: Seq<F>, u: F, a: F, b: F) -> F {
    fadd(fadd(fmul(a, vsum(wsum_(wtf(x, k), g, 1, 0), two(k))), fmul(b, vsum(wsum_(vtf(x, k), h, 1, 0), two(k)))), fmul(u, fmul(a, b)))
}
pub open spec fn ip_eq(x: spec_fn(int) -> F, g: Seq<F>, h: Seq<F>, u: F, p: F, proof: Proof) -> bool {
    ip_lhs(x, proof.L_vec.len() as int, g, h, u, proof.a, proof.b) == fadd(p, ip_rhs(x, proof.L_vec@, proof.R_vec@, proof.L_vec.len() as int))
}
pub open spec fn ip_shape(n: int, proof: Proof) -> bool { n == two(proof.L_vec.len() as int) && proof.R_vec.len() == proof.L_vec.len() }
pub trait ToV { type T; spec fn sv(&self) -> Seq<Self::T>; fn vto_vec(&self) -> (r: Vec<Self::T>) ensures r@ == self.sv(); }
impl<X: Copy> ToV for [X] { type T = X; open spec fn sv(&self) -> Seq<X> { self@ } #[verifier::external_body] fn vto_vec(&self) -> (r: Vec<X>) { self.to_vec() } }
impl<X: Copy> ToV for Vec<X> { type T = X; open spec fn sv(&self) -> Seq<X> { self@ } #[verifier::external_body] fn vto_vec(&self) -> (r: Vec<X>) { self.clone() } }
#[verifier::external_body]
pub fn vsplit<T>(v: &Vec<T>, n: usize) -> (r: (&[T], &[T]))
    ensures n <= v.len(), r.0@ == v@.subrange(0, n as int), r.1@ == v@.subrange(n as int, v.len() as int),
{ v.split_at(n) }
pub proof fn lemma_x_prefix(s: Seq<Item>, l: Seq<G1>, r: Seq<G1>, l2: Seq<G1>, r2: Seq<G1>, j: int)
    requires forall|i: int| 0 <= i < j ==> l[i] == l2[i] && r[i] == r2[i],
    ensures forall|i: int| 0 <= i < j ==> #[trigger] ipx(s, l, r)(i) == ipx(s, l2, r2)(i),
{
    assert forall|i: int| 0 <= i < j implies #[trigger] ipx(s, l, r)(i) == ipx(s, l2, r2)(i) by { lemma_log_prefix(s, l, r, l2, r2, i + 1); }
}
pub proof fn lemma_rhs_cong(x: spec_fn(int) -> F, y: spec_fn(int) -> F, l: Seq<G1>, r: Seq<G1>, l2: Seq<G1>, r2: Seq<G1>, j: int)
    requires forall|i: int| 0 <= i < j ==> l[i] == l2[i] && r[i] == r2[i], forall|i: int| 0 <= i < j ==> #[trigger] x(i) == y(i),
    ensures ip_rhs(x, l, r, j) == ip_rhs(y, l2, r2, j),
    decreases j
{ if j > 0 { lemma_rhs_cong(x, y, l, r, l2, r2, j - 1); assert(x(j - 1) == y(j - 1)); } }
// the whole step of the state (n is the new, halved length)
pub open spec fn gens_ok(x: spec_fn(int) -> F, j: int, g: Seq<F>, g0: Seq<F>, h: Seq<F>, h0: Seq<F>, n: int) -> bool {
    &&& forall|m: int| 0 <= m < n ==> #[trigger] g[m] == vsum(wsum_(wtf(x, j), g0, n, m), two(j))
    &&& forall|m: int| 0 <= m < n ==> #[trigger] h[m] == vsum(wsum_(vtf(x, j), h0, n, m), two(j))
}
pub proof fn lemma_gens(x: spec_fn(int) -> F, x2: spec_fn(int) -> F, j: int, g: Seq<F>, g0: Seq<F>, h: Seq<F>, h0: Seq<F>, n: int)
    requires 0 <= j, 0 <= n, gens_ok(x, j, g, g0, h, h0, 2 * n), forall|i: int| 0 <= i < j ==> #[trigger] x(i) == x2(i), g.len() == 2 * n, h.len() == 2 * n,
    ensures gens_ok(x2, j + 1, fold(g, n, finv(x2(j)), x2(j)), g0, fold(h, n, x2(j), finv(x2(j))), h0, n),
{
    let (c, d) = (x2(j), finv(x2(j)));
    let t2 = two(j);
    lemma_two(j as nat);
    let (g1, h1) = (fold(g, n, d, c), fold(h, n, c, d));
    assert forall|t: int| 0 <= t < 2 * t2 implies #[trigger] wtf(x2, j + 1)(t) == fmul(wtf(x, j)(t / 2), if t % 2 == 1 { c } else { d }) by { lemma_wt_cong(x, x2, j, t / 2); }
    assert forall|t: int| 0 <= t < 2 * t2 implies #[trigger] vtf(x2, j + 1)(t) == fmul(vtf(x, j)(t / 2), if t % 2 == 1 { d } else { c }) by { lemma_wt_cong(x, x2, j, t / 2); }
    assert forall|m: int| 0 <= m < n implies #[trigger] g1[m] == vsum(wsum_(wtf(x2, j + 1), g0, n, m), two(j + 1)) by {
        lemma_pairs(wtf(x, j), wtf(x2, j + 1), g0, n, m, d, c, t2);
        assert(g[m] == vsum(wsum_(wtf(x, j), g0, 2 * n, m), t2));
        assert(g[n + m] == vsum(wsum_(wtf(x, j), g0, 2 * n, n + m), t2));
    }
    assert forall|m: int| 0 <= m < n implies #[trigger] h1[m] == vsum(wsum_(vtf(x2, j + 1), h0, n, m), two(j + 1)) by {
        lemma_pairs(vtf(x, j), vtf(x2, j + 1), h0, n, m, c, d, t2);
        assert(h[m] == vsum(wsum_(vtf(x, j), h0, 2 * n, m), t2));
        assert(h[n + m] == vsum(wsum_(vtf(x, j), h0, 2 * n, n + m), t2));
    }
}
// the end: one generator left on each side
pub proof fn lemma_last(x: spec_fn(int) -> F, k: int, a: Seq<F>, b: Seq<F>, g: Seq<F>, g0: Seq<F>, h: Seq<F>, h0: Seq<F>, u: F)
    requires gens_ok(x, k, g, g0, h, h0, 1), a.len() == 1, b.len() == 1,
    ensures claim(a, b, g, h, u) == ip_lhs(x, k, g0, h0, u, a[0], b[0]),
{
    reveal_with_fuel(vsum, 2);
    assert(dot(a, g) == fadd(f0(), fmul(a[0], g[0])));
    assert(dot(b, h) == fadd(f0(), fmul(b[0], h[0])));
    assert(dot(a, b) == fadd(f0(), fmul(a[0], b[0])));
}
pub proof fn lemma_rhs_sums(x: spec_fn(int) -> F, l: Seq<G1>, r: Seq<G1>, xs: Seq<F>, ys: Seq<F>, j: int)
    requires 0 <= j <= l.len(), j <= r.len(), forall|i: int| 0 <= i < j ==> #[trigger] xs[i] == fmul(x(i), x(i)), forall|i: int| 0 <= i < j ==> #[trigger] ys[i] == fmul(finv(x(i)), finv(x(i))),
    ensures ip_rhs(x, l, r, j) == fadd(vsum(term(xs, lgs(l)), j), vsum(term(ys, lgs(r)), j)),
    decreases j
{
    if j > 0 {
        lemma_rhs_sums(x, l, r, xs, ys, j - 1);
        let (a, b, c, d) = (vsum(term(xs, lgs(l)), j - 1), vsum(term(ys, lgs(r)), j - 1), fmul(xs[j - 1], l[j - 1].lg()), fmul(ys[j - 1], r[j - 1].lg()));
        // ((a + b) + c) + d = (a + c) + (b + d)
        ax_add_assoc(a, b, c);
        ax_add_assoc(a, c, b);
        ax_add_assoc(fadd(a, c), b, d);
        assert(lgs(l)[j - 1] == l[j - 1].lg() && lgs(r)[j - 1] == r[j - 1].lg());
    }
}
pub proof fn lemma_scaled(a: F, s: Seq<F>, w: spec_fn(int) -> F, g: Seq<F>, n: int)
    requires forall|t: int| 0 <= t < n ==> #[trigger] s[t] == fmul(a, w(t)),
    ensures vsum(term(s, g), n) == fmul(a, vsum(wsum_(w, g, 1, 0), n)),
{
    let f = wsum_(w, g, 1, 0);
    vsum_scale(a, f, n);
    let h = |t: int| fmul(a, f(t));
    assert forall|t: int| 0 <= t < n implies #[trigger] term(s, g)(t) == h(t) by { assert(s[t] == fmul(a, w(t))); ax_mul_assoc(a, w(t), g[t]); }
    vsum_cong(term(s, g), h, n);
}
pub proof fn lemma_log_lt(p: nat, q: nat)
    requires two(p as int) < two(q as int),
    ensures p < q,
{ if p >= q { vstd::arithmetic::power::lemma_pow_increases(2, q, p); } }
pub proof fn lemma_pow_inj(p: nat, q: nat)
    requires two(p as int) == two(q as int),
    ensures p == q,
{
    if p > q { vstd::arithmetic::power::lemma_pow_strictly_increases(2, q, p); }
    if p < q { vstd::arithmetic::power::lemma_pow_strictly_increases(2, p, q); }
}
pub proof fn lemma_shl1(s: usize)
    requires s < 63,
    ensures (1usize << s) == two(s as int),
{
    lemma_two(s as nat);
    vstd::arithmetic::power2::lemma_pow2(s as nat);
    if s < 62 { } else { vstd::arithmetic::power::lemma_pow_increases(2, 62, 62); assert(pow(2, 62) == 0x4000000000000000) by { vstd::arithmetic::power2::lemma2_to64_rest(); vstd::arithmetic::power2::lemma_pow2(62); } }
    vstd::bits::lemma_usize_shl_is_mul(1, s);
}

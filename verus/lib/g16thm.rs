// ---- completeness: the algebra ----
pub open spec fn mixt(al: F, be: F, a: Seq<F>, b: Seq<F>, c: Seq<F>, z: Seq<F>, o: int) -> spec_fn(int) -> F { |i: int| fmul(mix(al, be, a[o + i], b[o + i], c[o + i]), z[o + i]) }
// the constant term and the rest: sum over all of z
pub proof fn lemma_query(q: Seq<G1>, g: F, v: Seq<F>, z: Seq<F>, e: Seq<F>)
    requires scaled(q, g, v), v.len() >= 1, z.len() == v.len(), e.len() == z.len() - 1, z[0] == f1(), forall|i: int| 0 <= i < e.len() ==> #[trigger] e[i] == z[i + 1],
    ensures fadd(q[0].lg(), msm_of(q.subrange(1, q.len() as int), e)) == fmul(g, dot(v, z)),
{
    let n = v.len() as int;
    let f = term(v, z);
    vsum_split(f, 1, n);
    assert(vsum(f, 1) == fadd(vsum(f, 0), f(0)));
    let r = |i: int| f(1 + i);
    vsum_scale(g, r, n - 1);
    let q1 = q.subrange(1, n);
    let tq = term(lgs(q1), e);
    let gr = |i: int| fmul(g, r(i));
    assert forall|i: int| 0 <= i < n - 1 implies #[trigger] tq(i) == gr(i) by {
        assert(q1[i] == q[1 + i]);
        assert(e[i] == z[i + 1]);
        ax_mul_assoc(g, v[1 + i], z[1 + i]);
    }
    vsum_cong(tq, gr, n - 1);
    ax_distr(g, v[0], vsum(r, n - 1));
}
pub proof fn lemma_lval_a(cc: Circ, t: F, z: Seq<F>)
    requires cc.ok(), z == cc.z(), cc.at().len() + cc.ni() <= dom_of(cc),
    ensures lval(dom_of(cc), t, cwit_a(cc, dom_of(cc))) == fadd(inp(lags(dom_of(cc), t), cc.at().len() as int, z, cc.ni()), upto(cc.at(), lags(dom_of(cc), t), z, cc.ni(), cc.at().len() as int)),
{
    let (m, n, ni, u) = (dom_of(cc), cc.at().len() as int, cc.ni(), lags(dom_of(cc), t));
    let v = cwit_a(cc, m);
    let f = |i: int| fmul(v[i], lag(m, t, i));
    vsum_split(f, n, m);
    let g = |i: int| f(n + i);
    vsum_split(g, ni, m - n);
    vsum_zero(|i: int| g(ni + i), m - n - ni);
    vsum_cong(g, inpt(u, n, z), ni);
    lemma_upto(cc.at(), u, z, ni, n, f);
}
pub proof fn lemma_upto(mm: Seq<Vec<(F, Index)>>, u: Seq<F>, z: Seq<F>, ni: int, n: int, f: spec_fn(int) -> F)
    requires 0 <= n <= mm.len(), forall|i: int| 0 <= i < n ==> #[trigger] f(i) == fmul(rowv(mm[i]@, z, ni), u[i]),
    ensures vsum(f, n) == upto(mm, u, z, ni, n),
    decreases n
{ if n > 0 { lemma_upto(mm, u, z, ni, n - 1, f); } }
pub proof fn lemma_lval_rows(cc: Circ, t: F, mm: Seq<Vec<(F, Index)>>, z: Seq<F>)
    requires mm.len() <= dom_of(cc),
    ensures lval(dom_of(cc), t, rowsv(mm, z, cc.ni(), dom_of(cc))) == upto(mm, lags(dom_of(cc), t), z, cc.ni(), mm.len() as int),
{
    let (m, n, ni, u) = (dom_of(cc), mm.len() as int, cc.ni(), lags(dom_of(cc), t));
    let v = rowsv(mm, z, ni, m);
    let f = |i: int| fmul(v[i], lag(m, t, i));
    vsum_split(f, n, m);
    vsum_zero(|i: int| f(n + i), m - n);
    lemma_upto(mm, u, z, ni, n, f);
}
pub proof fn lemma_mix(al: F, be: F, a: Seq<F>, b: Seq<F>, c: Seq<F>, z: Seq<F>, n: int)
    requires 0 <= n,
    ensures vsum(mixt(al, be, a, b, c, z, 0), n) == mix(al, be, vsum(term(a, z), n), vsum(term(b, z), n), vsum(term(c, z), n)),
    decreases n
{
    if n > 0 {
        lemma_mix(al, be, a, b, c, z, n - 1);
        mixadd(al, be, vsum(term(a, z), n - 1), vsum(term(b, z), n - 1), vsum(term(c, z), n - 1), a[n - 1], b[n - 1], c[n - 1], z[n - 1]);
    }
}
// a query of the mixed columns, from column o on
pub proof fn lemma_mixq(q: Seq<G1>, e: Seq<F>, g: F, d: F, al: F, be: F, a: Seq<F>, b: Seq<F>, c: Seq<F>, z: Seq<F>, o: int, p: int, n: int)
    requires 0 <= p, 0 <= n, p + n <= q.len(), n <= e.len(), forall|i: int| 0 <= i < p + n ==> (#[trigger] q[i]).lg() == fmul(g, fmul(mix(al, be, a[o + i], b[o + i], c[o + i]), d)),
        forall|i: int| 0 <= i < n ==> #[trigger] e[i] == z[o + p + i],
    ensures vsum(|i: int| fmul(lgs(q)[p + i], e[i]), n) == fmul(fmul(g, d), vsum(mixt(al, be, a, b, c, z, o + p), n)),
    decreases n
{
    if n > 0 {
        lemma_mixq(q, e, g, d, al, be, a, b, c, z, o, p, n - 1);
        let k = n - 1;
        let f = |i: int| fmul(lgs(q)[p + i], e[i]);
        assert(vsum(f, n) == fadd(vsum(f, k), f(k)));
        assert(lgs(q)[p + k] == q[p + k].lg());
        assert(o + (p + k) == o + p + k);
        let mx = mix(al, be, a[o + p + k], b[o + p + k], c[o + p + k]);
        assert(e[k] == z[o + p + k]);
        mixstep(g, d, mx, z[o + p + k], vsum(mixt(al, be, a, b, c, z, o + p), k));
    }
}
pub proof fn lemma_hq(q: Seq<G1>, h: Seq<F>, g: F, v: F, d: F, t: F, n: int)
    requires 0 <= n <= q.len(), n <= h.len(), forall|i: int| 0 <= i < n ==> (#[trigger] q[i]).lg() == fmul(g, fmul(fmul(v, d), fpow(t, i))),
    ensures vsum(term(lgs(q), h), n) == fmul(fmul(g, d), fmul(v, vsum(|i: int| fmul(h[i], fpow(t, i)), n))),
    decreases n
{
    let f = |i: int| fmul(h[i], fpow(t, i));
    if n > 0 {
        lemma_hq(q, h, g, v, d, t, n - 1);
        assert(vsum(f, n) == fadd(vsum(f, n - 1), f(n - 1)));
        assert(lgs(q)[n - 1] == q[n - 1].lg());
        hstep(g, v, d, fpow(t, n - 1), h[n - 1], vsum(f, n - 1));
    }
}
pub proof fn lemma_complete(cc: Circ, al: F, be: F, ga: F, de: F, t: F, g: F, h: F, a: Seq<F>, b: Seq<F>, c: Seq<F>, p: Parameters, r: F, s: F, pr: Proof, pvk: PreparedVerifyingKey)
    requires params_are(cc, al, be, ga, de, t, g, h, a, b, c, p), proof_is(cc, p, r, s, pr), pvk_ok(pvk, p.vk), cc.sat(),
    ensures g16_eq(pvk, pr, cc.x()),
{
    let (m, ni, z, e, x) = (dom_of(cc), cc.ni(), cc.z(), cc.x() + cc.w(), cc.x());
    let nn = z.len() as int;
    let (az, bz, cz) = (dot(a, z), dot(b, z), dot(c, z));
    assert(z[0] == f1());
    assert forall|i: int| 0 <= i < e.len() implies #[trigger] e[i] == z[i + 1] by {}
    assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] == z[1 + i] by {}
    assert forall|i: int| 0 <= i < cc.w().len() implies #[trigger] cc.w()[i] == z[ni + 0 + i] by {}
    // the quotient
    let (wa, wb, wc) = (cwit_a(cc, m), rowsv(cc.bt(), z, ni, m), rowsv(cc.ct(), z, ni, m));
    assert forall|i: int| 0 <= i < m implies #[trigger] wc[i] == fmul(wa[i], wb[i]) by { if i < cc.at().len() { assert(cc.at()[i]@ == cc.at()[i]@); } }
    ax_quot(m, wa, wb, wc, t);
    lemma_lval_a(cc, t, z);
    lemma_lval_rows(cc, t, cc.bt(), z);
    lemma_lval_rows(cc, t, cc.ct(), z);
    let hq = quot_of(cc);
    let hz = vsum(|i: int| fmul(hq[i], fpow(t, i)), m - 1);
    assert(fmul(van(m, t), hz) == fsub(fmul(az, bz), cz));
    lemma_hq(p.h_query@, hq, g, van(m, t), finv(de), t, m - 1);
    // the queries
    lemma_query(p.a_query@, g, a, z, e);
    lemma_query(p.b_g1_query@, g, b, z, e);
    lemma_query(p.b_g2_query@, h, b, z, e);
    // l and the inputs
    let (fi, fl, fm) = (mixt(al, be, a, b, c, z, 0), mixt(al, be, a, b, c, z, ni), mixt(al, be, a, b, c, z, 0));
    lemma_mix(al, be, a, b, c, z, nn);
    vsum_split(fm, ni, nn);
    vsum_cong(|i: int| fm(ni + i), fl, nn - ni);
    let (si, sl) = (vsum(fi, ni), vsum(fl, nn - ni));
    lemma_mixq(p.l_query@, cc.w(), g, finv(de), al, be, a, b, c, z, ni, 0, nn - ni);
    vsum_cong(|i: int| fmul(lgs(p.l_query@)[0 + i], cc.w()[i]), term(lgs(p.l_query@), cc.w()), nn - ni);
    let gs = p.vk.gamma_abc_g1@;
    lemma_mixq(gs, x, g, finv(ga), al, be, a, b, c, z, 0, 1, ni - 1);
    let f1i = mixt(al, be, a, b, c, z, 1);
    vsum_cong(|i: int| fmul(lgs(gs)[1 + i], x[i]), |i: int| fmul(lgs(gs)[i + 1], x[i]), ni - 1);
    vsum_split(fi, 1, ni);
    assert(vsum(fi, 1) == fadd(vsum(fi, 0), fi(0)));
    vsum_cong(|i: int| fi(1 + i), f1i, ni - 1);
    let icv = ic(lgs(gs), x, ni - 1);
    let m0 = mix(al, be, a[0], b[0], c[0]);
    assert(lgs(gs)[0] == fmul(g, fmul(m0, finv(ga))));
    assert(fi(0) == fmul(m0, z[0]));
    mixstep(g, finv(ga), m0, f1(), vsum(f1i, ni - 1));
    assert(icv == fmul(fmul(g, finv(ga)), si));
    // the equation
    ax_inv(ga);
    ax_inv(de);
    assert(pr.a.lg() == fmul(g, fadd(fadd(al, az), fmul(r, de)))) by { coefq(fmul(g, de), r, p.a_query[0].lg(), msm_of(p.a_query@.subrange(1, nn), e), fmul(g, al)); coefg(g, de, r, az, al); }
    assert(pr.b.lg() == fmul(h, fadd(fadd(be, bz), fmul(s, de)))) by { coefq(fmul(h, de), s, p.b_g2_query[0].lg(), msm_of(p.b_g2_query@.subrange(1, nn), e), fmul(h, be)); coefg(h, de, s, bz, be); }
    let b1 = coeff_of(fmul(p.delta_g1.lg(), s), p.b_g1_query@, p.beta_g1.lg(), e);
    assert(b1 == fmul(g, fadd(fadd(be, bz), fmul(s, de)))) by { coefq(fmul(g, de), s, p.b_g1_query[0].lg(), msm_of(p.b_g1_query@.subrange(1, nn), e), fmul(g, be)); coefg(g, de, s, bz, be); }
    assert(si == fsub(mix(al, be, az, bz, cz), sl)) by { solve(si, sl); }
    final_eq(g, h, al, be, de, r, s, az, bz, cz, sl);
    killinv(g, finv(ga), ga, si, h);
    killinv(g, finv(de), de, sl, h);
    killinv(g, finv(de), de, fsub(fmul(az, bz), cz), h);
    let base = fsub(fadd(fmul(pr.a.lg(), s), fmul(b1, r)), fmul(fmul(fmul(g, de), r), s));
    splitc(base, fmul(fmul(g, finv(de)), sl), fmul(fmul(g, finv(de)), fsub(fmul(az, bz), cz)), h, de);
}
pub proof fn killinv(g: F, i: F, d: F, x: F, h: F)
    requires fmul(d, i) == f1(),
    ensures fmul(fmul(fmul(g, i), x), fneg(fmul(h, d))) == fmul(fneg(h), fmul(g, x)),
{ killr0(g, i, d, x, h); }

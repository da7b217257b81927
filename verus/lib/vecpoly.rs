// a vector polynomial of degree 5 and the scalar polynomial of an inner product of two of them
pub struct VecPoly5(pub Vec<F>, pub Vec<F>, pub Vec<F>, pub Vec<F>, pub Vec<F>, pub Vec<F>);
pub struct Poly10 { pub t2: F, pub t3: F, pub t4: F, pub t5: F, pub t6: F, pub t7: F, pub t8: F, pub t9: F, pub t10: F }
pub open spec fn vp(p: VecPoly5, k: int) -> Seq<F> {
    if k == 0 { p.0@ } else if k == 1 { p.1@ } else if k == 2 { p.2@ } else if k == 3 { p.3@ } else if k == 4 { p.4@ } else { p.5@ }
}
pub open spec fn vp_ok(p: VecPoly5, n: int) -> bool { p.0.len() == n && p.1.len() == n && p.2.len() == n && p.3.len() == n && p.4.len() == n && p.5.len() == n }
pub open spec fn x2(x: F) -> F { fmul(x, x) }
pub open spec fn x3(x: F) -> F { fmul(x2(x), x) }
pub open spec fn x4(x: F) -> F { fmul(x3(x), x) }
pub open spec fn x5(x: F) -> F { fmul(x4(x), x) }
pub open spec fn x6(x: F) -> F { fmul(x5(x), x) }
pub open spec fn x7(x: F) -> F { fmul(x6(x), x) }
pub open spec fn x8(x: F) -> F { fmul(x7(x), x) }
pub open spec fn vp_at(p: VecPoly5, x: F) -> Seq<F> {
    Seq::new(p.0.len() as nat, |i: int| fadd(fadd(fadd(fadd(fadd(p.0[i], fmul(p.1[i], x)), fmul(p.2[i], x2(x))), fmul(p.3[i], x3(x))), fmul(p.4[i], x4(x))), fmul(p.5[i], x5(x))))
}
pub open spec fn q8(x: F, a2: F, a3: F, a4: F, a5: F, a6: F, a7: F, a8: F, a9: F, a10: F) -> F {
    fadd(fadd(fadd(fadd(fadd(fadd(fadd(fadd(a2, fmul(a3, x)), fmul(a4, x2(x))), fmul(a5, x3(x))), fmul(a6, x4(x))), fmul(a7, x5(x))), fmul(a8, x6(x))), fmul(a9, x7(x))), fmul(a10, x8(x)))
}
pub open spec fn p10(p: Poly10, x: F) -> F { fmul(x2(x), q8(x, p.t2, p.t3, p.t4, p.t5, p.t6, p.t7, p.t8, p.t9, p.t10)) }
// the shapes the protocol uses: l has no terms of degree 0 and 1, r none of degree 3 and 4
pub open spec fn vp_low(p: VecPoly5) -> bool { forall|i: int| 0 <= i < p.0.len() ==> #[trigger] p.0[i] == f0() && p.1[i] == f0() }
pub open spec fn vp_gap(p: VecPoly5) -> bool { forall|i: int| 0 <= i < p.0.len() ==> #[trigger] p.3[i] == f0() && p.4[i] == f0() }
pub open spec fn pdot(a: Seq<F>, b: Seq<F>, n: int) -> F { vsum(term(a, b), n) }
pub open spec fn psip(l: VecPoly5, r: VecPoly5, n: int) -> Poly10 {
    Poly10 {
        t2: pdot(l.2@, r.0@, n),
        t3: fadd(pdot(l.2@, r.1@, n), pdot(l.3@, r.0@, n)),
        t4: fadd(fadd(pdot(l.2@, r.2@, n), pdot(l.3@, r.1@, n)), pdot(l.4@, r.0@, n)),
        t5: fadd(fadd(pdot(l.3@, r.2@, n), pdot(l.4@, r.1@, n)), pdot(l.5@, r.0@, n)),
        t6: fadd(pdot(l.4@, r.2@, n), pdot(l.5@, r.1@, n)),
        t7: fadd(pdot(l.2@, r.5@, n), pdot(l.5@, r.2@, n)),
        t8: pdot(l.3@, r.5@, n),
        t9: pdot(l.4@, r.5@, n),
        t10: pdot(l.5@, r.5@, n),
    }
}
pub proof fn lemma_add2(a: F, b: F, c: F, d: F)
    ensures fadd(fadd(a, b), fadd(c, d)) == fadd(fadd(a, c), fadd(b, d)),
{
    ax_add_assoc(a, b, fadd(c, d));
    ax_add_assoc(b, c, d);
    ax_add_assoc(c, b, d);
    ax_add_assoc(a, c, fadd(b, d));
}
pub proof fn addc(x: F, a2: F, a3: F, a4: F, a5: F, a6: F, a7: F, a8: F, a9: F, a10: F, b2: F, b3: F, b4: F, b5: F, b6: F, b7: F, b8: F, b9: F, b10: F)
    ensures fadd(q8(x, a2, a3, a4, a5, a6, a7, a8, a9, a10), q8(x, b2, b3, b4, b5, b6, b7, b8, b9, b10)) == q8(x, fadd(a2, b2), fadd(a3, b3), fadd(a4, b4), fadd(a5, b5), fadd(a6, b6), fadd(a7, b7), fadd(a8, b8), fadd(a9, b9), fadd(a10, b10)),
{
    let (u0, v0) = (a2, b2);
    ax_distr(x, a3, b3);
    lemma_add2(u0, fmul(a3, x), v0, fmul(b3, x));
    let (u1, v1) = (fadd(u0, fmul(a3, x)), fadd(v0, fmul(b3, x)));
    ax_distr(x2(x), a4, b4);
    lemma_add2(u1, fmul(a4, x2(x)), v1, fmul(b4, x2(x)));
    let (u2, v2) = (fadd(u1, fmul(a4, x2(x))), fadd(v1, fmul(b4, x2(x))));
    ax_distr(x3(x), a5, b5);
    lemma_add2(u2, fmul(a5, x3(x)), v2, fmul(b5, x3(x)));
    let (u3, v3) = (fadd(u2, fmul(a5, x3(x))), fadd(v2, fmul(b5, x3(x))));
    ax_distr(x4(x), a6, b6);
    lemma_add2(u3, fmul(a6, x4(x)), v3, fmul(b6, x4(x)));
    let (u4, v4) = (fadd(u3, fmul(a6, x4(x))), fadd(v3, fmul(b6, x4(x))));
    ax_distr(x5(x), a7, b7);
    lemma_add2(u4, fmul(a7, x5(x)), v4, fmul(b7, x5(x)));
    let (u5, v5) = (fadd(u4, fmul(a7, x5(x))), fadd(v4, fmul(b7, x5(x))));
    ax_distr(x6(x), a8, b8);
    lemma_add2(u5, fmul(a8, x6(x)), v5, fmul(b8, x6(x)));
    let (u6, v6) = (fadd(u5, fmul(a8, x6(x))), fadd(v5, fmul(b8, x6(x))));
    ax_distr(x7(x), a9, b9);
    lemma_add2(u6, fmul(a9, x7(x)), v6, fmul(b9, x7(x)));
    let (u7, v7) = (fadd(u6, fmul(a9, x7(x))), fadd(v6, fmul(b9, x7(x))));
    ax_distr(x8(x), a10, b10);
    lemma_add2(u7, fmul(a10, x8(x)), v7, fmul(b10, x8(x)));
    let (u8, v8) = (fadd(u7, fmul(a10, x8(x))), fadd(v7, fmul(b10, x8(x))));
}
pub proof fn lemma_sip_n(l: VecPoly5, r: VecPoly5, x: F, n: int)
    requires vp_ok(l, l.0.len() as int), vp_ok(r, l.0.len() as int), vp_low(l), vp_gap(r), 0 <= n <= l.0.len(),
    ensures p10(psip(l, r, n), x) == vsum(term(vp_at(l, x), vp_at(r, x)), n),
    decreases n
{
    let p = psip(l, r, n);
    if n == 0 {
        assert(q8(x, f0(), f0(), f0(), f0(), f0(), f0(), f0(), f0(), f0()) == f0());
        assert(fadd(f0(), f0()) == f0());
    } else {
        lemma_sip_n(l, r, x, n - 1);
        let q = psip(l, r, n - 1);
        let i = n - 1;
        let (l2, l3, l4, l5) = (l.2[i], l.3[i], l.4[i], l.5[i]);
        let (r0, r1, r2, r5) = (r.0[i], r.1[i], r.2[i], r.5[i]);
        cross(x, l2, l3, l4, l5, r0, r1, r2, r5);
        assert(l.0[i] == f0() && l.1[i] == f0() && r.3[i] == f0() && r.4[i] == f0());
        let (b2, b3, b4, b5, b6, b7, b8, b9, b10) = (fmul(l2, r0), fadd(fmul(l2, r1), fmul(l3, r0)), fadd(fadd(fmul(l2, r2), fmul(l3, r1)), fmul(l4, r0)),
            fadd(fadd(fmul(l3, r2), fmul(l4, r1)), fmul(l5, r0)), fadd(fmul(l4, r2), fmul(l5, r1)), fadd(fmul(l2, r5), fmul(l5, r2)), fmul(l3, r5), fmul(l4, r5), fmul(l5, r5));
        addc(x, q.t2, q.t3, q.t4, q.t5, q.t6, q.t7, q.t8, q.t9, q.t10, b2, b3, b4, b5, b6, b7, b8, b9, b10);
        lemma_add2(pdot(l.2@, r.1@, i), pdot(l.3@, r.0@, i), fmul(l2, r1), fmul(l3, r0));
        lemma_add2(pdot(l.2@, r.2@, i), pdot(l.3@, r.1@, i), fmul(l2, r2), fmul(l3, r1));
        lemma_add2(fadd(pdot(l.2@, r.2@, i), pdot(l.3@, r.1@, i)), pdot(l.4@, r.0@, i), fadd(fmul(l2, r2), fmul(l3, r1)), fmul(l4, r0));
        lemma_add2(pdot(l.3@, r.2@, i), pdot(l.4@, r.1@, i), fmul(l3, r2), fmul(l4, r1));
        lemma_add2(fadd(pdot(l.3@, r.2@, i), pdot(l.4@, r.1@, i)), pdot(l.5@, r.0@, i), fadd(fmul(l3, r2), fmul(l4, r1)), fmul(l5, r0));
        lemma_add2(pdot(l.4@, r.2@, i), pdot(l.5@, r.1@, i), fmul(l4, r2), fmul(l5, r1));
        lemma_add2(pdot(l.2@, r.5@, i), pdot(l.5@, r.2@, i), fmul(l2, r5), fmul(l5, r2));
        assert(p.t2 == fadd(q.t2, b2) && p.t3 == fadd(q.t3, b3) && p.t4 == fadd(q.t4, b4) && p.t5 == fadd(q.t5, b5) && p.t6 == fadd(q.t6, b6)
            && p.t7 == fadd(q.t7, b7) && p.t8 == fadd(q.t8, b8) && p.t9 == fadd(q.t9, b9) && p.t10 == fadd(q.t10, b10));
        ax_distr(x2(x), q8(x, q.t2, q.t3, q.t4, q.t5, q.t6, q.t7, q.t8, q.t9, q.t10), q8(x, b2, b3, b4, b5, b6, b7, b8, b9, b10));
        assert(term(vp_at(l, x), vp_at(r, x))(i) == fmul(x2(x), q8(x, b2, b3, b4, b5, b6, b7, b8, b9, b10)));
    }
}
pub proof fn lemma_sip(l: VecPoly5, r: VecPoly5, x: F)
    requires vp_ok(l, l.0.len() as int), vp_ok(r, l.0.len() as int), vp_low(l), vp_gap(r),
    ensures p10(psip(l, r, l.0.len() as int), x) == dot(vp_at(l, x), vp_at(r, x)),
{ lemma_sip_n(l, r, x, l.0.len() as int); }

@unit bp_ipa
@prelude base field vec
@types G::Fr=F ; G::Affine=G1 ; G::Projective=G1
@assume the group has prime order and is written by discrete logarithm; vartime_multiscalar_mul sums over the shorter list
@assume the transcript is the list of what was absorbed; challenges are some function of it; challenge scalars that are zero make the code panic (unwrap of the inverse)
@assume vectors have at most 2^31 elements in verify
@include sums.rs
@include mle.rs
@include ring.rs
@include mats0.rs
@include mats.rs
@include group.rs
@include ipa.rs
@item bulletproofs/src/inner_product_proof.rs Proof
@macro to_bytes venc(&$0)
@method unwrap vunwrap($0)
@method to_vec $0.vto_vec()
@method split_at vsplit(&$0, $1)
@method trailing_zeros vtrailing($0)
@method leading_zeros vleading($0)
@ring foldterm(x, y, al, ah, bl, bh): (al*x + ah*y) * (bl*y + bh*x) == (x*y)*(al*bl + ah*bh) + ((x*x)*(al*bh) + (y*y)*(ah*bl))
@ring foldadd(xx, yy, s, t, v, w, a, b, c, d): ((s + t) + (xx*v + yy*w)) + ((a + b) + (xx*c + yy*d)) == ((s+a) + (t+b)) + (xx*(v+c) + yy*(w+d))
@ring roundsum(xx, yy, u, ag, agl, agr, bh, bhl, bhr, ab, abl, abr): ((ag + (xx*agl + yy*agr)) + (bh + (yy*bhr + xx*bhl))) + u*(ab + (xx*abl + yy*abr)) == (((ag + bh) + u*ab) + xx*((agl + bhl) + u*abl)) + yy*((agr + bhr) + u*abr)
@ring pairterm(x, y, s, r, w, a, b): (s + w*a)*y + (r + w*b)*x == ((s*y + r*x) + (w*y)*a) + (w*x)*b
@stubs bp_vec inner_product
@fn quick_multiexp
@file bulletproofs/src/lib.rs
@call G::vartime_multiscalar_mul vmsm($1, $2)
@header
pub fn quick_multiexp(exponents: &Vec<F>, bases: &Vec<G1>) -> (ret: G1)
    ensures ret.lg() == vsum(term(exponents@, lgs(bases@)), mn(exponents.len() as int, bases.len() as int)),
@fn prove
@file bulletproofs/src/inner_product_proof.rs
@header
pub fn prove(transcript: &mut Transcript, mut g_vec: Vec<G1>, mut h_vec: Vec<G1>, u: G1, P: G1, mut a_vec: Vec<F>, mut b_vec: Vec<F>) -> (ret: Proof)
    requires g_vec.len() == a_vec.len(), h_vec.len() == a_vec.len(),
    ensures ip_shape(a_vec.len() as int, ret),
        ip_eq(ipx(ip_start(old(transcript).log(), a_vec.len() as int, u, P, g_vec, h_vec), ret.L_vec@, ret.R_vec@), lgs(g_vec@), lgs(h_vec@), u.lg(), claim(a_vec@, b_vec@, lgs(g_vec@), lgs(h_vec@), u.lg()), ret),
        final(transcript).log() == ip_log(ip_start(old(transcript).log(), a_vec.len() as int, u, P, g_vec, h_vec), ret.L_vec@, ret.R_vec@, ret.L_vec.len() as int),
@at fs
let ghost (g0, h0, u0, claim0) = (lgs(g_vec@), lgs(h_vec@), u.lg(), claim(a_vec@, b_vec@, lgs(g_vec@), lgs(h_vec@), u.lg()));
let ghost s0 = ip_start(transcript.log(), a_vec.len() as int, u, P, g_vec, h_vec);
@at lb0
proof {
    lemma_two(0);
    let x = ipx(s0, L_vec@, R_vec@);
    assert forall|m: int| 0 <= m < n implies #[trigger] lgs(g_vec@)[m] == vsum(wsum_(wtf(x, 0), g0, n as int, m), two(0)) by {
        let f = wsum_(wtf(x, 0), g0, n as int, m);
        assert(vsum(f, 1) == fadd(vsum(f, 0), f(0)));
    }
    assert forall|m: int| 0 <= m < n implies #[trigger] lgs(h_vec@)[m] == vsum(wsum_(vtf(x, 0), h0, n as int, m), two(0)) by {
        let f = wsum_(vtf(x, 0), h0, n as int, m);
        assert(vsum(f, 1) == fadd(vsum(f, 0), f(0)));
    }
}
@at winv0
    invariant
        n == a_vec.len(), n == b_vec.len(), n == g_vec.len(), n == h_vec.len(), u.lg() == u0,
        L_vec.len() <= lg_n, R_vec.len() == L_vec.len(), n == two(lg_n - L_vec.len()),
        transcript.log() == ip_log(s0, L_vec@, R_vec@, L_vec.len() as int),
        forall|i: int| 0 <= i < L_vec.len() ==> #[trigger] ipx(s0, L_vec@, R_vec@)(i) != f0(),
        gens_ok(ipx(s0, L_vec@, R_vec@), L_vec.len() as int, lgs(g_vec@), g0, lgs(h_vec@), h0, n as int),
        claim(a_vec@, b_vec@, lgs(g_vec@), lgs(h_vec@), u0) == fadd(claim0, ip_rhs(ipx(s0, L_vec@, R_vec@), L_vec@, R_vec@, L_vec.len() as int)),
    decreases n,
@at ls0
let ghost (j, l0, r0) = (L_vec.len() as int, L_vec@, R_vec@);
let ghost (av, bv, gv, hv) = (a_vec@, b_vec@, lgs(g_vec@), lgs(h_vec@));
proof { lemma_two(0); if lg_n - j > 0 { lemma_two((lg_n - j - 1) as nat); } }
@inv 1
        n == gL.len(), n == gR.len(), acc1.len() == k1, lo(gv, n as int) == lgs(gL@), hi(gv, n as int) == lgs(gR@), gv.len() == 2 * n,
        forall|m: int| 0 <= m < k1 ==> (#[trigger] acc1[m]).lg() == fadd(fmul(gv[m], x_inv), fmul(gv[n + m], x)),
@inv 2
        n == hL.len(), n == hR.len(), acc2.len() == k2, lo(hv, n as int) == lgs(hL@), hi(hv, n as int) == lgs(hR@), hv.len() == 2 * n,
        forall|m: int| 0 <= m < k2 ==> (#[trigger] acc2[m]).lg() == fadd(fmul(hv[m], x), fmul(hv[n + m], x_inv)),
@inv 3
        acc3.len() == k3, av.len() == 2 * n, lo(av, n as int) == aL@, hi(av, n as int) == aR@,
        forall|m: int| 0 <= m < k3 ==> #[trigger] acc3[m] == fadd(fmul(av[m], x), fmul(av[n + m], x_inv)),
@inv 4
        acc4.len() == k4, bv.len() == 2 * n, lo(bv, n as int) == bL@, hi(bv, n as int) == bR@,
        forall|m: int| 0 <= m < k4 ==> #[trigger] acc4[m] == fadd(fmul(bv[m], x_inv), fmul(bv[n + m], x)),
@at ls1
proof { let m = k1 as int; assert(lo(gv, n as int)[m] == gv[m] && hi(gv, n as int)[m] == gv[n + m]); assert(lgs(gL@)[m] == gL[m].lg() && lgs(gR@)[m] == gR[m].lg()); }
@at ls2
proof { let m = k2 as int; assert(lo(hv, n as int)[m] == hv[m] && hi(hv, n as int)[m] == hv[n + m]); assert(lgs(hL@)[m] == hL[m].lg() && lgs(hR@)[m] == hR[m].lg()); }
@at ls3
proof { let m = k3 as int; assert(lo(av, n as int)[m] == av[m] && hi(av, n as int)[m] == av[n + m]); }
@at ls4
proof { let m = k4 as int; assert(lo(bv, n as int)[m] == bv[m] && hi(bv, n as int)[m] == bv[n + m]); }
@at let:l_aff
proof {
    assert(lo(gv, n as int) =~= lgs(gL@) && hi(gv, n as int) =~= lgs(gR@));
    assert(lo(hv, n as int) =~= lgs(hL@) && hi(hv, n as int) =~= lgs(hR@));
    assert(aL@ == lo(av, n as int) && aR@ == hi(av, n as int) && bL@ == lo(bv, n as int) && bR@ == hi(bv, n as int));
}
@at le0
proof {
    let (x0, x2) = (ipx(s0, l0, r0), ipx(s0, L_vec@, R_vec@));
    lemma_x_prefix(s0, l0, r0, L_vec@, R_vec@, j);
    lemma_log_prefix(s0, l0, r0, L_vec@, R_vec@, j);
    lemma_rhs_cong(x0, x2, l0, r0, L_vec@, R_vec@, j);
    assert(x2(j) == x);
    ax_inv(x);
    assert forall|i: int| 0 <= i < L_vec.len() implies #[trigger] x2(i) != f0() by { if i < j { assert(x0(i) != f0()); assert(x2(i) == x0(i)); } }
    lemma_gens(x0, x2, j, gv, g0, hv, h0, n as int);
    assert(lgs(g_vec@) =~= fold(gv, n as int, x_inv, x));
    assert(lgs(h_vec@) =~= fold(hv, n as int, x, x_inv));
    assert(a_vec@ =~= fold(av, n as int, x, x_inv));
    assert(b_vec@ =~= fold(bv, n as int, x_inv, x));
    lemma_round(av, bv, gv, hv, u0, n as int, x, x_inv, l_aff.lg(), r_aff.lg());
    ax_add_assoc(claim0, ip_rhs(x0, l0, r0, j), fmul(fmul(x, x), l_aff.lg()));
    ax_add_assoc(claim0, fadd(ip_rhs(x0, l0, r0, j), fmul(fmul(x, x), l_aff.lg())), fmul(fmul(x_inv, x_inv), r_aff.lg()));
}
@at la0
proof {
    let k = L_vec.len() as int;
    if lg_n - k > 0 { lemma_two((lg_n - k - 1) as nat); }
    lemma_last(ipx(s0, L_vec@, R_vec@), k, a_vec@, b_vec@, lgs(g_vec@), g0, lgs(h_vec@), h0, u0);
}
@at ty:acc1
: Vec<G1>
@at ty:acc2
: Vec<G1>
@fn verify
@file bulletproofs/src/inner_product_proof.rs
@header
pub fn verify(transcript: &mut Transcript, g_vec: Vec<G1>, h_vec: Vec<G1>, u: G1, P: G1, proof: &Proof) -> (ret: bool)
    requires g_vec.len() <= 0x8000_0000,
    ensures ret == (ip_shape(g_vec.len() as int, *proof) && h_vec.len() == g_vec.len()
            && ip_eq(ipx(ip_start(old(transcript).log(), g_vec.len() as int, u, P, g_vec, h_vec), proof.L_vec@, proof.R_vec@), lgs(g_vec@), lgs(h_vec@), u.lg(), P.lg(), *proof)),
        ret ==> final(transcript).log() == ip_log(ip_start(old(transcript).log(), g_vec.len() as int, u, P, g_vec, h_vec), proof.L_vec@, proof.R_vec@, proof.L_vec.len() as int),
@method clone $0.vto_vec()
@method reverse vreverse(&mut $0)
@at fs
let ghost s0 = ip_start(transcript.log(), g_vec.len() as int, u, P, g_vec, h_vec);
let ghost X = ipx(s0, proof.L_vec@, proof.R_vec@);
proof { if ip_shape(g_vec.len() as int, *proof) { assert(is_pow2(g_vec.len() as int)); } }
@at lb0
proof { assert(n == two(lg_n as int)); }
@inv 0
        proof.L_vec.len() == lg_n, proof.R_vec.len() == lg_n,
        x_sq_vec.len() == k0, x_inv_sq_vec.len() == k0, allinv == wt(X, k0 as int, 0), X == ipx(s0, proof.L_vec@, proof.R_vec@),
        transcript.log() == ip_log(s0, proof.L_vec@, proof.R_vec@, k0 as int),
        forall|m: int| 0 <= m < k0 ==> #[trigger] X(m) != f0(),
        forall|m: int| 0 <= m < k0 ==> #[trigger] x_sq_vec[m] == fmul(X(m), X(m)),
        forall|m: int| 0 <= m < k0 ==> #[trigger] x_inv_sq_vec[m] == fmul(finv(X(m)), finv(X(m))),
@at le0
proof { assert(x == X(k0 as int)); assert(0int / 2 == 0); }
@inv 1
        s.len() == k1, n == two(lg_n as int), n <= 0x8000_0000, x_sq_vec.len() == lg_n,
        forall|m: int| 0 <= m < lg_n ==> #[trigger] X(m) != f0(),
        forall|m: int| 0 <= m < lg_n ==> #[trigger] x_sq_vec[m] == fmul(X(m), X(m)),
        forall|t: int| 0 <= t < k1 ==> #[trigger] s[t] == wt(X, lg_n as int, t),
@at let:lg_i
proof { lemma_two(lg_i as nat); lemma_log_lt(lg_i as nat, lg_n as nat); lemma_shl1(lg_i); }
@at le1
proof { assert(X(lg_n - 1 - lg_i) != f0()); lemma_wt_top(X, lg_n as int, lg_i as nat, i - two(lg_i as int)); }
@inv 2
        acc2.len() == k2, s.len() == n, forall|m: int| 0 <= m < k2 ==> #[trigger] acc2[m] == fmul(proof.a, s[m]),
@inv 3
        acc3.len() == k3, inv_s.len() == n, forall|m: int| 0 <= m < k3 ==> #[trigger] acc3[m] == fmul(proof.b, inv_s[m]),
@at let:b_s
proof {
    let k = lg_n as int;
    assert forall|t: int| 0 <= t < n implies #[trigger] a_s[t] == fmul(proof.a, wtf(X, k)(t)) by { assert(s[t] == wt(X, k, t)); }
    assert forall|t: int| 0 <= t < n implies #[trigger] b_s[t] == fmul(proof.b, vtf(X, k)(t)) by { assert(s[n - 1 - t] == wt(X, k, n - 1 - t)); lemma_vt(X, k as nat, t); assert(inv_s[t] == s[n - 1 - t]); }
    lemma_scaled(proof.a, a_s@, wtf(X, k), lgs(g_vec@), n as int);
    lemma_scaled(proof.b, b_s@, vtf(X, k), lgs(h_vec@), n as int);
    lemma_rhs_sums(X, proof.L_vec@, proof.R_vec@, x_sq_vec@, x_inv_sq_vec@, k);
}
@at ret0
proof { assert(!(ip_shape(g_vec.len() as int, *proof) && h_vec.len() == g_vec.len())) by { if ip_shape(g_vec.len() as int, *proof) && h_vec.len() == g_vec.len() { assert(is_pow2(n as int)); lemma_pow_inj(lg_n as nat, vtz(n) as nat); } } }
@at la1
proof { lemma_two(lg_n as nat); }
@text
// completeness, for every length: what the prover makes for a true claim is accepted by the verifier
pub fn theorem_ip_complete(t1: &mut Transcript, t2: &mut Transcript, g1: Vec<G1>, h1: Vec<G1>, g2: Vec<G1>, h2: Vec<G1>, u: G1, P: G1, a: Vec<F>, b: Vec<F>) -> (ret: bool)
    requires old(t1).log() == old(t2).log(), g1 == g2, h1 == h2, g1.len() == a.len(), h1.len() == a.len(), b.len() == a.len(), g1.len() <= 0x8000_0000,
        P.lg() == claim(a@, b@, lgs(g1@), lgs(h1@), u.lg()),
    ensures ret, final(t1).log() == final(t2).log(),
{
    let proof = prove(t1, g1, h1, u, P, a, b);
    verify(t2, g2, h2, u, P, &proof)
}

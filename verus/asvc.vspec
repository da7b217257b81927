@unit asvc
@prelude base field vec
@types <E::Fr as PrimeField>::BigInt=F ; E::Fr=F ; GeneralEvaluationDomain<E::Fr>=Dom ; E::G1Affine=G1 ; E::G2Affine=G1 ; E::G1Projective=G1 ; E::G2Projective=G1 ; DensePolynomial<E::Fr>=DPoly ; DensePolynomial=DPoly ; Commitment::<E>=Commitment ; Proof::<E>=Proof ; Commitment<E>=Commitment ; Proof<E>=Proof ; VerificationKey<E>=VerificationKey ; UpdateKey<E>=UpdateKey ; ProvingKey<E>=ProvingKey ; Parameters<E>=Parameters ; VerificationKey::<E>=VerificationKey ; ProvingKey::<E>=ProvingKey ; Parameters::<E>=Parameters ; DenseOrSparsePolynomial<'_, E::Fr>=DPoly ; DenseOrSparsePolynomial<'_, F>=DPoly ; DenseOrSparsePolynomial<'_,E::Fr>=DPoly ; DenseOrSparsePolynomial<'_, F>=DPoly ; DenseOrSparsePolynomial<'_,F>=DPoly
@assume G1, G2 and GT are groups of prime order r written by discrete logarithm; the pairing is bilinear and not degenerate
@include sums.rs
@include ring.rs
@include asvc.rs
@ring gsub(g, x): g*x - g == g*(x - 1)
@ring divc(v, d, i): d*(v*i) == v*(d*i)
@ring hd(h, t, w): h*t - h*w == h*(t - w)
@ring upk1(g, a, i, h, d): (g*(a*i))*(h*d) == ((g*a)*h)*(d*i)
@ring upk2(x, i, h, d): (x*i)*(h*d) == (x*h)*(d*i)
@ring addswap(a, d, b): (a + d) + b == (a + b) + d
@ring glv(g, l, v): (g*l)*v == g*(v*l)
@ring mulone(x): 1*x == x*1
@ring addz(x): 0 + 1*(x*1) == x
@ring agg0(h, c, g, z): h*(c*0 - g*0) == 0*z
@ring aggl(h, c, g, v, aw, i, o, r): h*(c*(o + aw*(1*i)) - g*(r + aw*(v*i))) == h*(c*o - g*r) + (aw*i)*((c - g*v)*h)
@ring aggr(h, w, l, aw, i, ag): (ag + w*(1*i))*(h*(l*aw)) == ag*(h*(l*aw)) + (aw*i)*(w*(h*l))
@ring aggone(h, c, g, r): h*(c*1 - g*r) == (c - g*r)*h
@ring glj(g, a, l): (g*a)*l == g*(a*l)
@ring upl(c, x, d, g, v, h): ((c + x*d) - g*(v + d))*h == (c - g*v)*h + d*((x - g)*h)
@ring upr(w, s, i, d, h, l): (w + (s*i)*d)*(h*l) == w*(h*l) + (i*l)*(d*(s*h))
@ring negprod(a, b, c): (a - b)*(-c) == (b - a)*c
@ring upn(k, a, b, c, l, d, w, h, t, z): (w + (((k*b)*c + (k*a)*(-c))*l)*d)*(h*(t - z)) == w*(h*(t - z)) + ((k*(c*(b*(t - z) - a*(t - z))))*l)*(d*h)
@ring fracd(a, b, t, y, z): b*(t - y) - a*(t - y) == (b*(t - z) - a*(t - y)) + b*(z - y)
@ring frac3(c, b, e): c*((1 - 1) + b*e) == b*(e*c)
@ring upl2(c, x, d, g, v, h): ((c + x*d) - g*v)*h == (c - g*v)*h + x*(d*h)
@ring openeq(g, h, q, a, r): (g*(q*a + r) - g*r)*h == (g*q)*(h*a)
@call E::pairing pairing($1, $2)
@call VariableBaseMSM::multi_scalar_mul vbmsm($1, $2)
@call F::from_repr f_from_repr($1)
@method into $0.vinto()
@method pow $0.vpow($1)
@method contains vcontains($0, $1)
@fn commit
@file asvc/src/lib.rs
@header
pub fn commit(prk_params: &ProvingKey, values: Vec<F>) -> (ret: Result<Commitment, SynthesisError>)
    ensures ret is Ok ==> 1 <= values@.len() <= prk_params.l_of_g1@.len() && ret->Ok_0.commit.lg() == vsum(term(lgs(prk_params.l_of_g1@), values@), values@.len() as int),
@inv 0
end0 == values@.len(), acc0@ =~= values@.subrange(0, k0 as int),
@at la0
proof { assert(acc0@ =~= values@); }
@fn verify_pos
@file asvc/src/lib.rs
@header
pub fn verify_pos(vrk_params: &VerificationKey, commit: &Commitment, point_values: Vec<F>, points: Vec<u32>, proof: &Proof, omega: F) -> (ret: Result<bool, SynthesisError>)
    requires vrk_params.powers_of_g1@.len() >= 1, vrk_params.powers_of_g2@.len() >= 1,
    ensures ret is Ok, !pos_ok(points@, point_values@, vrk_params.powers_of_g1@.len() - 1) ==> ret->Ok_0 == false,
        pos_ok(points@, point_values@, vrk_params.powers_of_g1@.len() - 1) ==> forall|g: F, h: F, t: F| #[trigger] vk_of(*vrk_params, g, h, t) ==> ret->Ok_0 == pos_eq(commit.commit.lg(), proof.w.lg(), points@, point_values@, omega, g, h, t),
@at fs
broadcast use pol_laws;
@inv 0
acc0 == distinct_to(points@, k0 as int),
@at ls0
let ghost d0 = k0 as int;
@at le0
proof {
    if !acc0 {
        let s = points@.subrange(0, d0);
        let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == points@[d0];
        assert(points@[d0] == points@[j]);
        assert(!distinct_to(points@, d0 + 1));
    } else {
        let s = points@.subrange(0, d0);
        assert forall|i: int, j: int| 0 <= j < i < d0 + 1 implies #[trigger] points@[i] != #[trigger] points@[j] by { if i == d0 { assert(s[j] == points@[j]); } }
    }
}
@inv 1
end1 == points@.len(),
acc1 == exists|i: int| 0 <= i < k1 && #[trigger] points@[i] >= n,
@at le1
proof { if acc1 { assert(points@[k1 as int] >= n); } }
@inv 2
end2 == points@.len(), dpol(a_polynomial@) == aprod(points@, omega, k2 as int), a_polynomial@.len() <= k2 + 1,
@at lb3
let ghost m = points@.len() as int;
@inv 3
end3 == m && m == points@.len() && m == point_values@.len(),
dpol(a_polynomial@) == aprod(points@, omega, m) && a_polynomial@.len() <= m + 1,
dpol(r_polynomial@) == interp(points@, point_values@, omega, k3 as int) && r_polynomial@.len() <= m + 1,
@at let:b_aside
proof { lemma_quot(a_polynomial@, tpoly@, l_polynomial@, points@, omega, k3 as int); }
@inv 4
end4 == r_polynomial@.len(), acc4@ =~= r_polynomial@.subrange(0, k4 as int),
@at la4
proof { assert(acc4@ =~= r_polynomial@); }
@inv 5
end5 == a_polynomial@.len(), acc5@ =~= a_polynomial@.subrange(0, k5 as int),
@at la5
proof { assert(acc5@ =~= a_polynomial@); }
@at fe
proof {
    assert(pos_ok(points@, point_values@, n as int));
    lemma_pigeon(points@, n as int);
    assert forall|g: F, h: F, t: F| #[trigger] vk_of(*vrk_params, g, h, t) implies ret_->Ok_0 == pos_eq(commit.commit.lg(), proof.w.lg(), points@, point_values@, omega, g, h, t) by {
        lemma_msm(vrk_params.powers_of_g1@, r_polynomial@, g, t);
        lemma_msm(vrk_params.powers_of_g2@, a_polynomial@, h, t);
        assert(vrk_params.powers_of_g2@[0].lg() == fmul(h, fpow(t, 0)));
    }
}
@fn verify_upk
@file asvc/src/lib.rs
@header
pub fn verify_upk(vrk_params: &VerificationKey, point: u32, upk: &UpdateKey, omega: F) -> (ret: Result<bool, SynthesisError>)
    requires vrk_params.powers_of_g1@.len() >= 1, vrk_params.powers_of_g2@.len() >= 2,
    ensures ret is Ok, ret->Ok_0 == upk_eq(*vrk_params, point, *upk, omega),
@fn update_commit
@file asvc/src/lib.rs
@header
pub fn update_commit(commit: &Commitment, delta: F, point: u32, upk: &UpdateKey, omega: F, n: usize) -> (ret: Result<Commitment, SynthesisError>)
    ensures ret is Ok, ret->Ok_0.commit.lg() == fadd(commit.commit.lg(), fmul(fmul(upk.ai.lg(), ladj(omega, point, n as int)), delta)),
@fn update_proof
@file asvc/src/lib.rs
@header
pub fn update_proof(proof: &Proof, delta: F, point_i: u32, point_j: u32, upk_i: &UpdateKey, upk_j: &UpdateKey, omega: F, n: usize) -> (ret: Result<Proof, SynthesisError>)
    ensures ret is Ok, ret->Ok_0.w.lg() == uproof(proof.w.lg(), delta, point_i, point_j, *upk_i, *upk_j, omega, n as int),
@fn aggregate_proofs
@file asvc/src/lib.rs
@header
pub fn aggregate_proofs(points: Vec<u32>, proofs: Vec<Proof>, omega: F) -> (ret: Result<Proof, SynthesisError>)
    ensures ret is Ok, ret->Ok_0.w.lg() == agg(points@, proofs@, omega, mn(points@.len() as int, proofs@.len() as int)),
@at fs
broadcast use pol_laws;
@inv 0
end0 == points@.len(), dpol(a_polynomial@) == aprod(points@, omega, k0 as int),
@inv 1
end1 == mn(points@.len() as int, proofs@.len() as int), dpol(a_polynomial@) == aprod(points@, omega, points@.len() as int),
aggregate_witness.lg() == agg(points@, proofs@, omega, k1 as int),
@at let:a_aside_polynomial
proof { lemma_quot(a_polynomial@, divisor_polynomial@, a_aside_polynomial@, points@, omega, k1 as int); }
@fn prove_pos
@file asvc/src/lib.rs
@call EvaluationDomain::new Dom::new($1)
@method unwrap vunwrap($0)
@method ok_or vok_or($0, $1)
@method clone vclone_f(&$0)
@header
pub fn prove_pos(prk_params: &ProvingKey, values: Vec<F>, points: Vec<u32>) -> (ret: Result<Proof, SynthesisError>)
    requires prk_params.powers_of_g1@.len() >= 1,
    ensures ret is Ok ==> forall|g: F, t: F| #[trigger] powers(prk_params.powers_of_g1@, g, t) ==> dsize(prk_params.powers_of_g1@.len() - 1) == prk_params.powers_of_g1@.len() - 1 ==> opened(dsize(prk_params.powers_of_g1@.len() - 1), values@, points@, ret->Ok_0.w.lg(), g, t),
@at fs
broadcast use pol_laws;
let ghost values0 = values@;
@inv 0
end0 == points@.len(), dpol(divisor_polynomial@) == aprod(points@, dgen(domain.m()), k0 as int), divisor_polynomial@.len() <= k0 + 1,
@inv 1
end1 == witness_polynomial@.len(), acc1@ =~= witness_polynomial@.subrange(0, k1 as int),
@at la1
proof { assert(acc1@ =~= witness_polynomial@); }
@at fe
proof {
    let m = domain.m();
    assert(exists|r: Seq<F>| #[trigger] isrem(polynomial@, divisor_polynomial@, witness_polynomial@, r));
    let r = choose|r: Seq<F>| #[trigger] isrem(polynomial@, divisor_polynomial@, witness_polynomial@, r);
    assert(dpol(r) == dpol(r));
    assert forall|g: F, t: F| #[trigger] powers(prk_params.powers_of_g1@, g, t) && m == prk_params.powers_of_g1@.len() - 1 implies opened(m, values0, points@, ret_->Ok_0.w.lg(), g, t) by {
        lemma_msm(prk_params.powers_of_g1@, witness_polynomial@, g, t);
        assert(dpol(ifft(m, values0)) == dadd(dmul(dpol(witness_polynomial@), aprod(points@, dgen(m), points@.len() as int)), dpol(r)));
    }
}
@fn key_gen
@file asvc/src/lib.rs
@call EvaluationDomain::new Dom::new($1)
@method ok_or vok_or($0, $1)
@method clone vclone_g(&$0)
@call F::size_in_bits size_in_bits()
@call FixedBaseMSM::multi_scalar_mul fixed_msm($1, $2, $3, $4)
@call FixedBaseMSM::get_mul_window_size window_size($1)
@call FixedBaseMSM::get_window_table window_table($1, $2, $3)
@call G1::batch_normalization_into_affine vaffine($1)
@header
pub fn key_gen(n: usize, rng: &mut Rng) -> (ret: Result<Parameters, SynthesisError>)
    ensures ret is Ok ==> exists|g: F, h: F, t: F| #[trigger] keys_of(ret->Ok_0, dsize(n as int), g, h, t),
@inv 0
end0 == max_degree, curs@.len() == k0 + 1, cur == fpow(tau, k0 + 1),
forall|i: int| 0 <= i < curs@.len() ==> #[trigger] curs@[i] == fpow(tau, i),
@at lb0
proof { assert(fpow(tau, 1) == fmul(fpow(tau, 0), tau)); }
@at lb1
let ghost (g, h) = (g1.lg(), g2.lg());
proof {
    assert forall|i: int| 0 <= i < powers_of_g1@.len() implies (#[trigger] powers_of_g1@[i]).lg() == fmul(g, fpow(tau, i)) by { }
    gsub(g, fpow(tau, max_degree as int));
}
@inv 1
end1 == max_degree && max_degree == domain.m() && g == g1.lg(), update_keys@.len() == k1 && l_of_g1@.len() == k1,
a.lg() == fmul(g, fsub(fpow(tau, max_degree as int), f1())),
forall|i: int| 0 <= i < k1 ==> upk_is(#[trigger] update_keys@[i], i, domain.m(), g, tau),
forall|i: int| 0 <= i < k1 ==> (#[trigger] l_of_g1@[i]).lg() == fmul(g, lval(domain.m(), i, tau)),
forall|i: int| 0 <= i < k1 ==> tau != #[trigger] fpow(dgen(domain.m()), i),
@at let:tau_omega_i_divisor
proof {
    let w = fpow(dgen(domain.m()), k1 as int);
    assert(fsub(tau, w) != f0());
    ax_neg(w);
}
@at let:li
proof {
    ax_mul_assoc(g, fsub(fpow(tau, max_degree as int), f1()), tau_omega_i_divisor);
    assert(ai.lg() == fmul(g, aval(domain.m(), k1 as int, tau)));
    ax_mul_assoc(g, aval(domain.m(), k1 as int, tau), a_aside_omega_i_divisor);
    assert(li.lg() == fmul(g, lval(domain.m(), k1 as int, tau)));
}
@at fe
proof { assert(keys_of(ret_->Ok_0, domain.m(), g, h, tau)); }

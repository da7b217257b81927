@unit g16
@prelude base field vec
@types E::Fr=F ; GeneralEvaluationDomain<E::Fr>=Dom ; E::G1Affine=G1 ; E::G2Affine=G1 ; E::G1Projective=G1 ; E::G2Projective=G1 ; G::Projective=G1 ; VerifyKey::<E>=VerifyKey
@assume G1, G2 and GT are groups of prime order r written by discrete logarithm; the pairing is bilinear and not degenerate; final_exponentiation never fails on the output of miller_loop
@assume VariableBaseMSM sums over the shorter list; FixedBaseMSM multiplies every scalar when table, window and scalar size belong together
@assume EvaluationDomain: quotient of A*B-C by the vanishing polynomial through coset FFTs, and evaluate_all_lagrange_coefficients, satisfy ax_quot (lib/domain.rs)
@assume a ConstraintSynthesizer makes the same constraints and variables in both runs and refers only to variables it allocated
@assume numbers of variables and constraints stay below 2^32
@include sums.rs
@include mats0.rs
@include qap.rs
@include domain.rs
@include pairing.rs
@include ring.rs
@include g16thm.rs
@item r1cs/src/lib.rs Index
@item groth16/src/lib.rs Proof
@item groth16/src/lib.rs VerifyKey
@item groth16/src/lib.rs Parameters
@item groth16/src/lib.rs PreparedVerifyingKey
@item groth16/src/generator.rs KeypairAssembly
@item groth16/src/prover.rs ProvingAssignment
@call R1CStoQAP::instance_map_with_evaluation instance_map($1, $2)
@call R1CStoQAP::witness_map witness_map($1)
@call E::pairing pairing($1, $2)
@call E::miller_loop miller_loop($1)
@call E::final_exponentiation final_exponentiation($1)
@call VariableBaseMSM::multi_scalar_mul vbmsm($1, $2)
@call FixedBaseMSM::multi_scalar_mul fixed_msm($1, $2, $3, $4)
@call FixedBaseMSM::get_mul_window_size window_size($1)
@call FixedBaseMSM::get_window_table window_table($1, $2, $3)
@call F::size_in_bits size_in_bits()
@call Into::into $1
@method into $0.vinto()
@method clone $0.vcl()
@method iter &$0
@method pow $0.vpow($1)
@method to_vec vto_vec($0)
@method as_mut_slice &mut $0
@call G1::batch_normalization vbatch($1)
@call EvaluationDomain::new Dom::new($1)
@call drop vdrop($1)
@method concat vconcat(&$0)
@ring mixadd(al, be, sa, sb, sc, a, b, c, z): ((be*sa + al*sb) + sc) + ((be*a + al*b) + c)*z == (be*(sa + a*z) + al*(sb + b*z)) + (sc + c*z)
@ring mixstep(g, d, m, z, s): (g*d)*s + (g*(m*d))*z == (g*d)*(s + m*z)
@ring hstep(g, v, d, t, h, s): (g*d)*(v*s) + (g*((v*d)*t))*h == (g*d)*(v*(s + h*t))
@ring coefq(d, r, q, m, v): ((d*r + q) + m) + v == (d*r + (q + m)) + v
@ring coefg(g, d, r, a, v): ((g*d)*r + g*a) + g*v == g*((v + a) + r*d)
@ring solve(x, y): x == (x + y) - y
@ring killr0(g, i, d, x, h): ((g*i)*x)*(-(h*d)) == (d*i)*((-h)*(g*x))
@ring splitc(b, l, m, h, d): ((b + l) + m)*(-(h*d)) == (b*(-(h*d)) + l*(-(h*d))) + m*(-(h*d))
@ring final_eq(g, h, al, be, de, r, s, az, bz, cz, l): ((g*((al + az) + r*de))*(h*((be + bz) + s*de)) + (-h)*(g*(((be*az + al*bz) + cz) - l))) + ((((g*((al + az) + r*de))*s + (g*((be + bz) + s*de))*r - ((g*de)*r)*s)*(-(h*de)) + (-h)*(g*l)) + (-h)*(g*(az*bz - cz))) == (g*al)*(h*be)
@fn evaluate_constraint
@file groth16/src/r1cs_to_qap.rs
@type LHS=F
@type RHS=F
@type R=F
@method mul $0.vmul($1)
@header
pub fn evaluate_constraint(terms: &[(F, Index)], assignment: &[F], num_inputs: usize) -> (ret: F)
    requires assignment.len() < 0x1000_0000_0000_0000, forall|j: int| 0 <= j < terms.len() ==> 0 <= vcol(#[trigger] terms[j].1, num_inputs as int) < assignment.len(),
    ensures ret == rowv(terms@, assignment@, num_inputs as int),
@inv 0
        acc0 == vrow(terms@, assignment@, num_inputs as int, k0 as int), assignment.len() < 0x1000_0000_0000_0000,
        forall|j: int| 0 <= j < terms.len() ==> 0 <= vcol(#[trigger] terms[j].1, num_inputs as int) < assignment.len(),
@at ls0
proof { assert(0 <= vcol(terms[k0 as int].1, num_inputs as int) < assignment.len()); }
@fn instance_map
@file groth16/src/r1cs_to_qap.rs
@impl R1CStoQAP
@name instance_map_with_evaluation
@refs coeff
@header
pub fn instance_map(assembly: &KeypairAssembly, t: &F) -> (ret: Result<(Vec<F>, Vec<F>, Vec<F>, F, usize, usize), SynthesisError>)
    requires ka_ok(*assembly),
    ensures ret is Ok ==> qap_ok(*assembly, *t, ret->Ok_0),
@at let:qap_num_variables
let ghost uu = u@;
proof { assert(uu =~= lags(domain_size as int, *t)); }
@inv 0
        ka_ok(*assembly), u.len() >= assembly.num_constraints + assembly.num_inputs, a.len() == assembly.num_inputs + assembly.num_aux, b.len() == a.len(), c.len() == a.len(),
        forall|i: int| 0 <= i < k0 ==> #[trigger] a[i] == u[assembly.num_constraints + i], forall|i: int| k0 <= i < a.len() ==> #[trigger] a[i] == f0(),
        forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == f0(), forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] == f0(),
@at la0
proof { lemma_asm_first(*assembly, uu, a@, b@, c@); }
@inv 1
        ka_ok(*assembly), u@ == uu, u.len() >= assembly.num_constraints + assembly.num_inputs, asm_at(*assembly, uu, a@, b@, c@, k1 as int),
@at ls1
proof { lemma_asm_start(*assembly, uu, a@, b@, c@, k1 as int); }
@at le1
proof { lemma_asm_next(*assembly, uu, a@, b@, c@, k1 as int); }
@inv 2
        ka_ok(*assembly), u@ == uu, u.len() >= assembly.num_constraints + assembly.num_inputs, i < assembly.num_constraints,
        asm_ok(*assembly, uu, a@, b@, c@, i as int, k2 as int, 0, 0),
@at ls2
let ghost old_a = a@;
proof { assert(0 <= vcol(assembly.at[i as int][k2 as int].1, assembly.num_inputs as int) < assembly.num_inputs + assembly.num_aux); }
@at le2
proof {
    let kk = vcol(assembly.at[i as int][k2 as int].1, assembly.num_inputs as int);
    assert(a@ =~= old_a.update(kk, fadd(old_a[kk], fmul(uu[i as int], assembly.at[i as int][k2 as int].0))));
    lemma_entry_all(old_a, a@, kk, uu[i as int], assembly.at[i as int]@, k2 as int, assembly.num_inputs as int, |z: Seq<F>| cola(*assembly, uu, z, i as int));
}
@inv 3
        ka_ok(*assembly), u@ == uu, u.len() >= assembly.num_constraints + assembly.num_inputs, i < assembly.num_constraints,
        asm_ok(*assembly, uu, a@, b@, c@, i as int, assembly.at[i as int].len() as int, k3 as int, 0),
@at ls3
let ghost old_b = b@;
proof { assert(0 <= vcol(assembly.bt[i as int][k3 as int].1, assembly.num_inputs as int) < assembly.num_inputs + assembly.num_aux); }
@at le3
proof {
    let kk = vcol(assembly.bt[i as int][k3 as int].1, assembly.num_inputs as int);
    assert(b@ =~= old_b.update(kk, fadd(old_b[kk], fmul(uu[i as int], assembly.bt[i as int][k3 as int].0))));
    lemma_entry_all(old_b, b@, kk, uu[i as int], assembly.bt[i as int]@, k3 as int, assembly.num_inputs as int, |z: Seq<F>| colb(*assembly, uu, z, i as int));
}
@inv 4
        ka_ok(*assembly), u@ == uu, u.len() >= assembly.num_constraints + assembly.num_inputs, i < assembly.num_constraints,
        asm_ok(*assembly, uu, a@, b@, c@, i as int, assembly.at[i as int].len() as int, assembly.bt[i as int].len() as int, k4 as int),
@at ls4
let ghost old_c = c@;
proof { assert(0 <= vcol(assembly.ct[i as int][k4 as int].1, assembly.num_inputs as int) < assembly.num_inputs + assembly.num_aux); }
@at le4
proof {
    let kk = vcol(assembly.ct[i as int][k4 as int].1, assembly.num_inputs as int);
    assert(c@ =~= old_c.update(kk, fadd(old_c[kk], fmul(uu[i as int], assembly.ct[i as int][k4 as int].0))));
    lemma_entry_all(old_c, c@, kk, uu[i as int], assembly.ct[i as int]@, k4 as int, assembly.num_inputs as int, |z: Seq<F>| colc(*assembly, uu, z, i as int));
}
@fn num_constraints
@file groth16/src/prover.rs
@impl ConstraintSystem<E::Fr> for ProvingAssignment<E>
@wrap impl ProvingAssignment {
@header
pub fn num_constraints(&self) -> (ret: usize)
    ensures ret == self.at.len(),
@fn witness_map
@file groth16/src/r1cs_to_qap.rs
@impl R1CStoQAP
@refs at_i bt_i
@header
pub fn witness_map(prover: &ProvingAssignment) -> (ret: Result<Vec<F>, SynthesisError>)
    requires pa_ok(*prover),
    ensures ret is Ok ==> ({
        let m = dsize((prover.at.len() + prover.input_assignment.len()) as int);
        let z = prover.input_assignment@ + prover.aux_assignment@;
        ret->Ok_0@ == quot(m, wit_a(*prover, m), wit_b(*prover, m), wit_c(*prover, m)) && prover.at.len() + prover.input_assignment.len() <= m
    }),
@at fs
let ghost z = zof(*prover);
let ghost ni = prover.input_assignment.len() as int;
let ghost nc = prover.at.len() as int;
let ghost m = dsize(nc + ni);
@inv 0
        pa_ok(*prover), full_input_assignment@ == z, num_inputs == ni, num_constraints == nc, a.len() == m, b.len() == m, m >= nc + ni, z == zof(*prover), ni == prover.input_assignment.len(), nc == prover.at.len(),
        end0 == nc, forall|i: int| 0 <= i < k0 ==> #[trigger] a[i] == rowv(prover.at[i]@, z, ni), forall|i: int| k0 <= i < m ==> #[trigger] a[i] == f0(),
        forall|i: int| 0 <= i < k0 ==> #[trigger] b[i] == rowv(prover.bt[i]@, z, ni), forall|i: int| k0 <= i < m ==> #[trigger] b[i] == f0(),
@at ls0
proof { lemma_row_cols(prover.at@, ni, z.len() as int, k0 as int); lemma_row_cols(prover.bt@, ni, z.len() as int, k0 as int); }
@inv 1
        full_input_assignment@ == z, num_inputs == ni, num_constraints == nc, a.len() == m, m >= nc + ni, z == zof(*prover), ni == prover.input_assignment.len(), nc == prover.at.len(), z.len() >= ni, nc + ni < 0x1_0000_0000,
        forall|i: int| 0 <= i < nc ==> #[trigger] a[i] == rowv(prover.at[i]@, z, ni), forall|i: int| nc <= i < nc + k1 ==> #[trigger] a[i] == z[i - nc], forall|i: int| nc + k1 <= i < m ==> #[trigger] a[i] == f0(),
@at la1
proof { assert(a@ =~= wit_a(*prover, m)); assert(b@ =~= wit_b(*prover, m)); }
@inv 2
        pa_ok(*prover), full_input_assignment@ == z, num_inputs == ni, c.len() == m, m >= nc + ni, z == zof(*prover), ni == prover.input_assignment.len(), nc == prover.at.len(),
        end2 == nc, forall|i: int| 0 <= i < k2 ==> #[trigger] c[i] == rowv(prover.ct[i]@, z, ni), forall|i: int| k2 <= i < m ==> #[trigger] c[i] == f0(),
@at ls2
proof { lemma_row_cols(prover.ct@, ni, z.len() as int, k2 as int); }
@at la2
proof { assert(c@ =~= wit_c(*prover, m)); }
@at lb3
let ghost ab0 = ab@;
@inv 3
        ab.len() == m, c.len() == m, end3 == m, ab0.len() == m, forall|i: int| 0 <= i < k3 ==> #[trigger] ab[i] == fsub(ab0[i], c[i]), forall|i: int| k3 <= i < m ==> #[trigger] ab[i] == ab0[i],
@at la3
proof { assert(ab@ =~= subs(ab0, c@)); }
@fn prepare_verifying_key
@file groth16/src/verifier.rs
@header
pub fn prepare_verifying_key(vk: &VerifyKey) -> (ret: PreparedVerifyingKey)
    ensures pvk_ok(ret, *vk),
@fn verify_proof
@file groth16/src/verifier.rs
@header
pub fn verify_proof(pvk: &PreparedVerifyingKey, proof: &Proof, public_inputs: &[F]) -> (ret: Result<bool, SynthesisError>)
    requires public_inputs.len() < 0x1_0000_0000,
    ensures ret == (if public_inputs.len() + 1 != pvk.gamma_abc_g1.len() { Err(SynthesisError::MalformedVerifyingKey) } else { Ok(g16_eq(*pvk, *proof, public_inputs@)) }),
@inv 0
        public_inputs.len() + 1 == pvk.gamma_abc_g1.len(), end0 == public_inputs.len(), g_ic.lg() == ic(lgs(pvk.gamma_abc_g1@), public_inputs@, k0 as int),
@at le0
proof {
    let (g, k) = (lgs(pvk.gamma_abc_g1@), k0 as int);
    assert(g[k + 1] == pvk.gamma_abc_g1[k + 1].lg());
    let f = |i: int| fmul(g[i + 1], public_inputs[i]);
    ax_add_assoc(g[0], vsum(f, k), f(k));
    assert(vsum(|i: int| fmul(g[i + 1], public_inputs@[i]), k + 1) == fadd(vsum(|i: int| fmul(g[i + 1], public_inputs@[i]), k), fmul(g[k + 1], public_inputs@[k])));
}
@at let:test
proof { assert forall|s: Seq<(G1, G1)>| s.len() == 3 implies #[trigger] pairs(s) == pairs3(s) by { lemma_pairs3(s); } }
@fn calculate_coeff
@file groth16/src/prover.rs
@header
fn calculate_coeff(initial: G1, query: &[G1], vk_param: G1, assignment: &[F]) -> (ret: G1)
    requires query.len() >= 1,
    ensures ret.lg() == fadd(fadd(fadd(initial.lg(), query[0].lg()), vsum(term(lgs(query@.subrange(1, query.len() as int)), assignment@), mn(query.len() - 1, assignment.len() as int))), vk_param.lg()),
@fn push_constraints
@file groth16/src/lib.rs
@header
fn push_constraints(l: LinearCombination, constraints: &mut Vec<Vec<(F, Index)>>, this_constraint: usize)
    requires this_constraint < old(constraints).len(), old(constraints)[this_constraint as int].len() == 0,
    ensures final(constraints).len() == old(constraints).len(), final(constraints)[this_constraint as int]@ == row_of(l),
        forall|i: int| 0 <= i < old(constraints).len() && i != this_constraint ==> #[trigger] final(constraints)[i] == old(constraints)[i],
@inv 0
        constraints.len() == old(constraints).len(), this_constraint < constraints.len(), constraints[this_constraint as int]@ == row_of(l).take(k0 as int), end0 == l.0.len(),
        forall|i: int| 0 <= i < old(constraints).len() && i != this_constraint ==> #[trigger] constraints[i] == old(constraints)[i],
@at lb0
proof { assert(row_of(l).take(0) =~= Seq::<(F, Index)>::empty()); assert(constraints[this_constraint as int]@ =~= Seq::<(F, Index)>::empty()); }
@at le0
proof { assert(row_of(l).take(k0 + 1) =~= row_of(l).take(k0 as int).push(row_of(l)[k0 as int])); }
@at fe
proof { assert(row_of(l).take(l.0.len() as int) =~= row_of(l)); }
@fn get_a_query_full
@file groth16/src/lib.rs
@impl Parameters<E>
@wrap impl Parameters {
@header
pub fn get_a_query_full(&self) -> (ret: Result<&Vec<G1>, SynthesisError>)
    ensures ret is Ok, ret->Ok_0@ == self.a_query@,
@fn get_b_g1_query_full
@file groth16/src/lib.rs
@impl Parameters<E>
@wrap impl Parameters {
@header
pub fn get_b_g1_query_full(&self) -> (ret: Result<&Vec<G1>, SynthesisError>)
    ensures ret is Ok, ret->Ok_0@ == self.b_g1_query@,
@fn get_b_g2_query_full
@file groth16/src/lib.rs
@impl Parameters<E>
@wrap impl Parameters {
@header
pub fn get_b_g2_query_full(&self) -> (ret: Result<&Vec<G1>, SynthesisError>)
    ensures ret is Ok, ret->Ok_0@ == self.b_g2_query@,
@fn get_h_query_full
@file groth16/src/lib.rs
@impl Parameters<E>
@wrap impl Parameters {
@header
pub fn get_h_query_full(&self) -> (ret: Result<&Vec<G1>, SynthesisError>)
    ensures ret is Ok, ret->Ok_0@ == self.h_query@,
@fn get_l_query_full
@file groth16/src/lib.rs
@impl Parameters<E>
@wrap impl Parameters {
@header
pub fn get_l_query_full(&self) -> (ret: Result<&Vec<G1>, SynthesisError>)
    ensures ret is Ok, ret->Ok_0@ == self.l_query@,
@fn ka_alloc_input
@file groth16/src/generator.rs
@impl ConstraintSystem<E::Fr> for KeypairAssembly<E>
@name alloc_input
@wrap impl KeypairAssembly {
@header
pub fn alloc_input<Q: FnOnce() -> Result<F, SynthesisError>>(&mut self, f: Q) -> (ret: Result<Variable, SynthesisError>)
    requires old(self).num_inputs < usize::MAX,
    ensures ret == Ok::<Variable, SynthesisError>(Variable(Index::Input(old(self).num_inputs))), final(self).num_inputs == old(self).num_inputs + 1, final(self).num_aux == old(self).num_aux, final(self).num_constraints == old(self).num_constraints,
        final(self).at == old(self).at, final(self).bt == old(self).bt, final(self).ct == old(self).ct,
@fn ka_alloc
@file groth16/src/generator.rs
@impl ConstraintSystem<E::Fr> for KeypairAssembly<E>
@name alloc
@wrap impl KeypairAssembly {
@header
pub fn alloc<Q: FnOnce() -> Result<F, SynthesisError>>(&mut self, f: Q) -> (ret: Result<Variable, SynthesisError>)
    requires old(self).num_aux < usize::MAX,
    ensures ret == Ok::<Variable, SynthesisError>(Variable(Index::Aux(old(self).num_aux))), final(self).num_aux == old(self).num_aux + 1, final(self).num_inputs == old(self).num_inputs, final(self).num_constraints == old(self).num_constraints,
        final(self).at == old(self).at, final(self).bt == old(self).bt, final(self).ct == old(self).ct,
@fn ka_enforce
@file groth16/src/generator.rs
@impl ConstraintSystem<E::Fr> for KeypairAssembly<E>
@name enforce
@wrap impl KeypairAssembly {
@header
pub fn enforce<LA: FnOnce(LinearCombination) -> LinearCombination, LB: FnOnce(LinearCombination) -> LinearCombination, LC: FnOnce(LinearCombination) -> LinearCombination>(&mut self, a: LA, b: LB, c: LC)
    requires old(self).at.len() == old(self).num_constraints, old(self).num_constraints < usize::MAX, old(self).bt.len() == old(self).at.len(), old(self).ct.len() == old(self).at.len(), forall|l: LinearCombination| a.requires((l,)), forall|l: LinearCombination| b.requires((l,)), forall|l: LinearCombination| c.requires((l,)),
    ensures grown(old(self).at@, final(self).at@), grown(old(self).bt@, final(self).bt@), grown(old(self).ct@, final(self).ct@),
        made(a, final(self).at@.last()@), made(b, final(self).bt@.last()@), made(c, final(self).ct@.last()@),
        final(self).num_constraints == old(self).num_constraints + 1, final(self).num_inputs == old(self).num_inputs, final(self).num_aux == old(self).num_aux,
@fn pa_alloc_input
@file groth16/src/prover.rs
@impl ConstraintSystem<E::Fr> for ProvingAssignment<E>
@name alloc_input
@wrap impl ProvingAssignment {
@header
pub fn alloc_input<Q: FnOnce() -> Result<F, SynthesisError>>(&mut self, f: Q) -> (ret: Result<Variable, SynthesisError>)
    requires f.requires(()),
    ensures ret is Ok ==> ret->Ok_0 == Variable(Index::Input(old(self).input_assignment.len())) && exists|v: F| #[trigger] f.ensures((), Ok(v)) && final(self).input_assignment@ == old(self).input_assignment@.push(v),
        final(self).aux_assignment == old(self).aux_assignment, final(self).at == old(self).at, final(self).bt == old(self).bt, final(self).ct == old(self).ct,
@fn pa_alloc
@file groth16/src/prover.rs
@impl ConstraintSystem<E::Fr> for ProvingAssignment<E>
@name alloc
@wrap impl ProvingAssignment {
@header
pub fn alloc<Q: FnOnce() -> Result<F, SynthesisError>>(&mut self, f: Q) -> (ret: Result<Variable, SynthesisError>)
    requires f.requires(()),
    ensures ret is Ok ==> ret->Ok_0 == Variable(Index::Aux(old(self).aux_assignment.len())) && exists|v: F| #[trigger] f.ensures((), Ok(v)) && final(self).aux_assignment@ == old(self).aux_assignment@.push(v),
        final(self).input_assignment == old(self).input_assignment, final(self).at == old(self).at, final(self).bt == old(self).bt, final(self).ct == old(self).ct,
@fn pa_enforce
@file groth16/src/prover.rs
@impl ConstraintSystem<E::Fr> for ProvingAssignment<E>
@name enforce
@wrap impl ProvingAssignment {
@header
pub fn enforce<LA: FnOnce(LinearCombination) -> LinearCombination, LB: FnOnce(LinearCombination) -> LinearCombination, LC: FnOnce(LinearCombination) -> LinearCombination>(&mut self, a: LA, b: LB, c: LC)
    requires old(self).bt.len() == old(self).at.len(), old(self).ct.len() == old(self).at.len(), forall|l: LinearCombination| a.requires((l,)), forall|l: LinearCombination| b.requires((l,)), forall|l: LinearCombination| c.requires((l,)),
    ensures grown(old(self).at@, final(self).at@), grown(old(self).bt@, final(self).bt@), grown(old(self).ct@, final(self).ct@),
        made(a, final(self).at@.last()@), made(b, final(self).bt@.last()@), made(c, final(self).ct@.last()@),
        final(self).input_assignment == old(self).input_assignment, final(self).aux_assignment == old(self).aux_assignment,
@fn generate_parameters
@file groth16/src/generator.rs
@method alloc_input $0.alloc_input($2)
@method generate_constraints $0.gen_keys($1)
@header
pub fn generate_parameters(circuit: Circ, alpha: F, beta: F, gamma: F, delta: F, rng: &mut Rng) -> (ret: Result<Parameters, SynthesisError>)
    ensures ret is Ok ==> params_ok(circuit, alpha, beta, gamma, delta, ret->Ok_0),
@at let:assembly
proof { let ff: Seq<Vec<(F, Index)>> = Seq::empty(); assert(assembly.at@ =~= ff); }
@inv 0
        acc0 <= k0, a.len() == b.len(), end0 < a.len(),
@inv 1
        acc1 <= k1, a.len() == b.len(), end1 < b.len(),
@inv 2
        acc2.len() == k2, end2 == assembly.num_inputs, end2 <= a.len(), a.len() == b.len(), a.len() == c.len(),
        forall|i: int| 0 <= i < k2 ==> #[trigger] acc2[i] == fmul(mix(alpha, beta, a[i], b[i], c[i]), gamma_inverse),
@inv 3
        acc3.len() == k3, end3 == a.len(), a.len() == b.len(), a.len() == c.len(),
        forall|i: int| 0 <= i < k3 ==> #[trigger] acc3[i] == fmul(mix(alpha, beta, a[i], b[i], c[i]), delta_inverse),
@inv 4
        acc4.len() == k4, end4 == m_raw - 1, forall|i: int| 0 <= i < k4 ==> #[trigger] acc4[i] == fmul(fmul(zt, delta_inverse), fpow(t, i)),
@inv 5
        acc5.len() == k5, end5 == gamma_abc_g1.len(), forall|i: int| 0 <= i < k5 ==> (#[trigger] acc5[i]).lg() == gamma_abc_g1[i].lg(),
@at ty:acc5
: Vec<G1>
@inv 6
        acc6.len() == k6, end6 == a_query.len(), forall|i: int| 0 <= i < k6 ==> (#[trigger] acc6[i]).lg() == a_query[i].lg(),
@at ty:acc6
: Vec<G1>
@inv 7
        acc7.len() == k7, end7 == b_g1_query.len(), forall|i: int| 0 <= i < k7 ==> (#[trigger] acc7[i]).lg() == b_g1_query[i].lg(),
@at ty:acc7
: Vec<G1>
@inv 8
        acc8.len() == k8, end8 == b_g2_query.len(), forall|i: int| 0 <= i < k8 ==> (#[trigger] acc8[i]).lg() == b_g2_query[i].lg(),
@at ty:acc8
: Vec<G1>
@inv 9
        acc9.len() == k9, end9 == h_query.len(), forall|i: int| 0 <= i < k9 ==> (#[trigger] acc9[i]).lg() == h_query[i].lg(),
@at ty:acc9
: Vec<G1>
@inv 10
        acc10.len() == k10, end10 == l_query.len(), forall|i: int| 0 <= i < k10 ==> (#[trigger] acc10[i]).lg() == l_query[i].lg(),
@at ty:acc10
: Vec<G1>
@at fe
proof { assert(params_are(circuit, alpha, beta, gamma, delta, t, g1_generator.lg(), g2_generator.lg(), a@, b@, c@, ret_->Ok_0)); }
@fn create_proof
@file groth16/src/prover.rs
@method alloc_input $0.alloc_input($2)
@method generate_constraints $0.gen_proof($1)
@header
pub fn create_proof(params: &Parameters, circuit: Circ, r: F, s: F) -> (ret: Result<Proof, SynthesisError>)
    requires params.a_query.len() >= 1, params.b_g1_query.len() >= 1, params.b_g2_query.len() >= 1,
    ensures ret is Ok ==> proof_is(circuit, *params, r, s, ret->Ok_0),
@cl 1
|| -> (r: Result<F, SynthesisError>) ensures r == Ok::<F, SynthesisError>(f1())
@at let:h
let ghost pv = prover;
proof {
    let m = dom_of(circuit);
    assert(zof(pv) =~= circuit.z());
    assert(wit_a(pv, m) =~= cwit_a(circuit, m));
    assert(wit_b(pv, m) =~= rowsv(circuit.bt(), circuit.z(), circuit.ni(), m));
    assert(wit_c(pv, m) =~= rowsv(circuit.ct(), circuit.z(), circuit.ni(), m));
    assert(h@ == quot_of(circuit));
}
@inv 0
        acc0.len() == k0, end0 + 1 == prover.input_assignment.len(), forall|i: int| 0 <= i < k0 ==> #[trigger] acc0[i] == prover.input_assignment[1 + i],
@inv 1
        acc1.len() == k1, end1 == prover.aux_assignment.len(), forall|i: int| 0 <= i < k1 ==> #[trigger] acc1[i] == prover.aux_assignment[i],
@inv 2
        acc2.len() == k2, end2 == h.len(), forall|i: int| 0 <= i < k2 ==> #[trigger] acc2[i] == h[i],
@at let:h_assignment
proof {
    assert(input_assignment@ =~= circuit.x());
    assert(aux_assignment@ =~= circuit.w());
    assert(h_assignment@ =~= quot_of(circuit));
    assert(assignment@ =~= circuit.x() + circuit.w());
}
@text
// completeness for every satisfiable circuit, every trapdoor and every pair of blinders
pub fn theorem_g16_complete(cc: Circ, alpha: F, beta: F, gamma: F, delta: F, r: F, s: F, x: &[F], rng: &mut Rng) -> (ret: Result<bool, SynthesisError>)
    requires cc.sat(), cc.ok(), x@ == cc.x(),
    ensures ret is Ok ==> ret->Ok_0,
{
    let params = generate_parameters(cc, alpha, beta, gamma, delta, rng)?;
    let proof = create_proof(&params, cc, r, s)?;
    let pvk = prepare_verifying_key(&params.vk);
    proof {
        let (t, g, h, a, b, c) = choose|t: F, g: F, h: F, a: Seq<F>, b: Seq<F>, c: Seq<F>| #[trigger] params_are(cc, alpha, beta, gamma, delta, t, g, h, a, b, c, params);
        lemma_complete(cc, alpha, beta, gamma, delta, t, g, h, a, b, c, params, r, s, proof, pvk);
    }
    verify_proof(&pvk, &proof, x)
}

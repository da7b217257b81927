@unit marlin_cs
@prelude base field vec
@types GeneralEvaluationDomain<F>=Dom ; EvaluationsOnDomain<F>=Evals ; LabeledPolynomial<F>=LPoly ; MatrixPolynomials<F>=MatrixPolynomials ; Matrix<F>=Matrix ; LinearCombination<F>=LinearCombination ; IndexerConstraintSystem<F>=IndexerConstraintSystem
@arrays
@assume sort_by permutes the entries of a row; numbers of variables, constraints and entries stay below 2^32
@include sums.rs
@include marlincs.rs
@item r1cs/src/lib.rs Index
@item marlin/src/ahp/arithmetic.rs Matrix
@item marlin/src/ahp/indexer.rs Index
@item marlin/src/ahp/indexer.rs IndexInfo
@item marlin/src/ahp/arithmetic.rs MatrixPolynomials
@item marlin/src/ahp/constraint_systems.rs IndexerConstraintSystem
@item marlin/src/ahp/constraint_systems.rs ProverConstraintSystem
@method sort_by vsort($0)
@method as_ref $0.as_ref()
@call is_in_ascending_order vascending($1)
@call fields::batch_inversion vbatchinv($1)
@macro format vstr()
@fn matrix_density
@file marlin/src/ahp/arithmetic.rs
@refs row
@header
pub fn matrix_density(m: &Matrix) -> (ret: usize)
    requires tot(m.0@, m.0@.len() as int) < 0x1000_0000_0000_0000,
    ensures ret == tot(m.0@, m.0@.len() as int),
@inv 0
end0 == m.0@.len(), acc0 == tot(m.0@, k0 as int), tot(m.0@, m.0@.len() as int) < 0x1000_0000_0000_0000,
@at ls0
proof { tot_mono(m.0@, k0 as int + 1, m.0@.len() as int); }
@fn sort_matrix_columns
@file marlin/src/ahp/arithmetic.rs
@refs row
@header
pub fn sort_matrix_columns(m: &mut Matrix)
    ensures resorted(old(m).0@, final(m).0@), forall|i: int| 0 <= i < old(m).0@.len() ==> (#[trigger] final(m).0@[i])@.len() == old(m).0@[i]@.len(),
@inv 0
end0 == m.0@.len(), m.0@.len() == old(m).0@.len(), forall|i: int| 0 <= i < m.0@.len() ==> rowsame(old(m).0@[i], #[trigger] m.0@[i]) && m.0@[i]@.len() == old(m).0@[i]@.len(),
@fn ics_new
@file marlin/src/ahp/constraint_systems.rs
@impl IndexerConstraintSystem<F>
@name new
@wrap impl IndexerConstraintSystem {
@header
pub fn new() -> (ret: IndexerConstraintSystem)
    ensures ret.num_input_variables == 1, ret.num_witness_variables == 0, ret.num_constraints == 0, ret.a@.len() == 0, ret.b@.len() == 0, ret.c@.len() == 0, ics_ok(ret),
@fn make_row
@file marlin/src/ahp/constraint_systems.rs
@impl IndexerConstraintSystem<F>
@wrap impl IndexerConstraintSystem {
@refs var coeff
@header
pub fn make_row(l: &LinearCombination) -> (ret: Vec<(F, VariableIndex)>)
    ensures ret@ == row_of(*l),
@inv 0
end0 == l.0@.len(), acc0@ =~= row_of(*l).subrange(0, k0 as int),
@at la0
proof { assert(acc0@ =~= row_of(*l)); }
@fn ics_alloc
@file marlin/src/ahp/constraint_systems.rs
@impl ConstraintSystem<F> for IndexerConstraintSystem<F>
@name alloc
@wrap impl IndexerConstraintSystem {
@header
pub fn alloc<Q: FnOnce() -> Result<F, SynthesisError>>(&mut self, f: Q) -> (ret: Result<Variable, SynthesisError>)
    requires old(self).num_witness_variables < usize::MAX,
    ensures ret == Ok::<Variable, SynthesisError>(Variable(VariableIndex::Aux(old(self).num_witness_variables))), final(self).num_witness_variables == old(self).num_witness_variables + 1,
        final(self).num_input_variables == old(self).num_input_variables, final(self).num_constraints == old(self).num_constraints, final(self).a == old(self).a, final(self).b == old(self).b, final(self).c == old(self).c, final(self).a_matrix == old(self).a_matrix, final(self).b_matrix == old(self).b_matrix, final(self).c_matrix == old(self).c_matrix,
@fn ics_alloc_input
@file marlin/src/ahp/constraint_systems.rs
@impl ConstraintSystem<F> for IndexerConstraintSystem<F>
@name alloc_input
@wrap impl IndexerConstraintSystem {
@header
pub fn alloc_input<Q: FnOnce() -> Result<F, SynthesisError>>(&mut self, f: Q) -> (ret: Result<Variable, SynthesisError>)
    requires old(self).num_input_variables < usize::MAX,
    ensures ret == Ok::<Variable, SynthesisError>(Variable(VariableIndex::Input(old(self).num_input_variables))), final(self).num_input_variables == old(self).num_input_variables + 1,
        final(self).num_witness_variables == old(self).num_witness_variables, final(self).num_constraints == old(self).num_constraints, final(self).a == old(self).a, final(self).b == old(self).b, final(self).c == old(self).c, final(self).a_matrix == old(self).a_matrix, final(self).b_matrix == old(self).b_matrix, final(self).c_matrix == old(self).c_matrix,
@fn ics_enforce
@file marlin/src/ahp/constraint_systems.rs
@impl ConstraintSystem<F> for IndexerConstraintSystem<F>
@name enforce
@wrap impl IndexerConstraintSystem {
@header
pub fn enforce<LA: FnOnce(LinearCombination) -> LinearCombination, LB: FnOnce(LinearCombination) -> LinearCombination, LC: FnOnce(LinearCombination) -> LinearCombination>(&mut self, a: LA, b: LB, c: LC)
    requires old(self).num_constraints < usize::MAX, forall|l: LinearCombination| a.requires((l,)), forall|l: LinearCombination| b.requires((l,)), forall|l: LinearCombination| c.requires((l,)),
    ensures grown(old(self).a@, final(self).a@), grown(old(self).b@, final(self).b@), grown(old(self).c@, final(self).c@),
        made(a, final(self).a@.last()@), made(b, final(self).b@.last()@), made(c, final(self).c@.last()@),
        final(self).num_constraints == old(self).num_constraints + 1, final(self).num_input_variables == old(self).num_input_variables, final(self).num_witness_variables == old(self).num_witness_variables, final(self).a_matrix == old(self).a_matrix, final(self).b_matrix == old(self).b_matrix, final(self).c_matrix == old(self).c_matrix,
@fn ics_num_constraints
@file marlin/src/ahp/constraint_systems.rs
@impl ConstraintSystem<F> for IndexerConstraintSystem<F>
@name num_constraints
@wrap impl IndexerConstraintSystem {
@header
pub fn num_constraints(&self) -> (ret: usize)
    ensures ret == self.num_constraints,
@fn square_i
@file marlin/src/ahp/constraint_systems.rs
@name make_constraint_matrices_square
@method alloc $0.alloc($2)
@method enforce $0.enforce($2, $3, $4)
@method abs iabs($0)
@header
pub fn make_constraint_matrices_square_i(cs: &mut IndexerConstraintSystem, mut num_formatted_variables: usize)
    requires ics_ok(*old(cs)), num_formatted_variables == old(cs).num_input_variables + old(cs).num_witness_variables,
    ensures squared(*old(cs), *final(cs)),
@at let:num_paddings
let ghost nfv0 = num_formatted_variables;
@inv 0
cs.num_input_variables == old(cs).num_input_variables, cs.num_input_variables + cs.num_witness_variables == nfv0 + k0, end0 == num_paddings, num_paddings == old(cs).num_constraints - nfv0, nfv0 < old(cs).num_constraints, old(cs).num_constraints < 0x1_0000_0000, cs.num_constraints == old(cs).num_constraints, cs.a == old(cs).a, cs.b == old(cs).b, cs.c == old(cs).c,
@inv 1
cs.num_input_variables == old(cs).num_input_variables, cs.num_input_variables + cs.num_witness_variables == nfv0, nfv0 <= 0x1_0000_0000, end1 == num_paddings, num_paddings == nfv0 - old(cs).num_constraints, cs.num_constraints == old(cs).num_constraints + k1, padrows(old(cs).a@, cs.a@, cs.num_constraints as int), padrows(old(cs).b@, cs.b@, cs.num_constraints as int), padrows(old(cs).c@, cs.c@, cs.num_constraints as int),
@fn ics_square
@file marlin/src/ahp/constraint_systems.rs
@impl IndexerConstraintSystem<F>
@name make_matrices_square
@wrap impl IndexerConstraintSystem {
@call make_constraint_matrices_square make_constraint_matrices_square_i($1, $2)
@header
pub fn make_matrices_square(&mut self)
    requires ics_ok(*old(self)),
    ensures squared(*old(self), *final(self)), ics_ok(*final(self)),
@at fe
proof { lemma_squared_ok(*old(self), *self); }
@fn reindex
@file marlin/src/ahp/constraint_systems.rs
@impl IndexerConstraintSystem<F>
@wrap impl IndexerConstraintSystem {
@refs coeff id row
@header
pub fn reindex(matrix: &Vec<Vec<(F, VariableIndex)>>, num_input_variables: usize) -> (ret: Matrix)
    requires forall|i: int, j: int| 0 <= i < matrix@.len() && 0 <= j < matrix@[i]@.len() ==> vcol((#[trigger] matrix@[i]@[j]).1, num_input_variables as int) <= usize::MAX,
    ensures reindexed(matrix@, ret.0@, num_input_variables as int),
@at ty:m
: Vec<Vec<(F, usize)>>
@at ty:r
: Vec<(F, usize)>
@inv 0
end0 == matrix@.len(), m@.len() == k0, forall|i: int| 0 <= i < k0 ==> (#[trigger] m@[i])@ == reidx(matrix@[i]@, num_input_variables as int),
forall|i: int, j: int| 0 <= i < matrix@.len() && 0 <= j < matrix@[i]@.len() ==> vcol((#[trigger] matrix@[i]@[j]).1, num_input_variables as int) <= usize::MAX,
@inv 1
k0 < matrix@.len(), row == matrix@[k0 as int], end1 == row@.len(), r@ =~= reidx(row@, num_input_variables as int).subrange(0, k1 as int),
forall|i: int, j: int| 0 <= i < matrix@.len() && 0 <= j < matrix@[i]@.len() ==> vcol((#[trigger] matrix@[i]@[j]).1, num_input_variables as int) <= usize::MAX,
@at ls1
proof { assert(vcol(matrix@[k0 as int]@[k1 as int].1, num_input_variables as int) <= usize::MAX); }
@at la1
proof { assert(r@ =~= reidx(row@, num_input_variables as int)); }
@fn balance_matrices
@file marlin/src/ahp/constraint_systems.rs
@impl IndexerConstraintSystem<F>
@wrap impl IndexerConstraintSystem {
@refs a_row b_row
@header
pub fn balance_matrices(a: &mut Matrix, b: &mut Matrix)
    requires old(a).0@.len() == old(b).0@.len(), tot(old(a).0@, old(a).0@.len() as int) + tot(old(b).0@, old(b).0@.len() as int) < 0x1000_0000_0000_0000,
    ensures final(a).0@.len() == old(a).0@.len(), final(b).0@.len() == old(b).0@.len(), forall|i: int| #![trigger final(a).0@[i]] #![trigger final(b).0@[i]] 0 <= i < old(a).0@.len() ==> kept(old(a).0@, old(b).0@, final(a).0@, final(b).0@, i),
@at fs
proof { tot_pos(a.0@, a.0@.len() as int); tot_pos(b.0@, b.0@.len() as int); }
@inv 0
a.0@.len() == old(a).0@.len(), b.0@.len() == old(b).0@.len(), a.0@.len() == b.0@.len(), end0 == a.0@.len(),
a_density == tot(a.0@, a.0@.len() as int), b_density == tot(b.0@, b.0@.len() as int), a_density + b_density < 0x1000_0000_0000_0000,
forall|i: int| 0 <= i < k0 ==> #[trigger] kept(old(a).0@, old(b).0@, a.0@, b.0@, i), forall|i: int| k0 <= i < a.0@.len() ==> #[trigger] a.0@[i] == old(a).0@[i], forall|i: int| k0 <= i < a.0@.len() ==> #[trigger] b.0@[i] == old(b).0@[i],
@at ls0
let ghost (a0, b0) = (a.0@, b.0@);
proof { tot_elem(a.0@, k0 as int, a.0@.len() as int); tot_elem(b.0@, k0 as int, b.0@.len() as int); }
@at le0
proof { tot_set(a0, a.0@, k0 as int, a0.len() as int); tot_set(b0, b.0@, k0 as int, b0.len() as int);
    assert forall|i: int| 0 <= i < k0 + 1 implies #[trigger] kept(old(a).0@, old(b).0@, a.0@, b.0@, i) by { if i < k0 { assert(kept(old(a).0@, old(b).0@, a0, b0, i)); assert(a.0@[i] == a0[i] && b.0@[i] == b0[i]); } else { assert(a0[i] == old(a).0@[i] && b0[i] == old(b).0@[i]); } } }
@fn process_matrices
@file marlin/src/ahp/constraint_systems.rs
@impl IndexerConstraintSystem<F>
@wrap impl IndexerConstraintSystem {
@header
pub fn process_matrices(&mut self)
    requires ics_ok(*old(self)),
    ensures final(self).a_matrix is Some, final(self).b_matrix is Some, final(self).c_matrix is Some, processed(*final(self), final(self).a_matrix->Some_0.0@, final(self).b_matrix->Some_0.0@, final(self).c_matrix->Some_0.0@),
        final(self).num_input_variables == old(self).num_input_variables, final(self).num_witness_variables == old(self).num_witness_variables, final(self).num_constraints == old(self).num_constraints,
        final(self).a == old(self).a, final(self).b == old(self).b, final(self).c == old(self).c,
@at let:c
let ghost (ga0, gb0, gc0) = (a.0@, b.0@, c.0@);
proof { tot_cong(self.a@, ga0, ga0.len() as int); tot_cong(self.b@, gb0, gb0.len() as int); }
@at fe
proof {
    let (a, b, c) = (self.a_matrix->Some_0.0@, self.b_matrix->Some_0.0@, self.c_matrix->Some_0.0@);
    assert forall|i: int| 0 <= i < ga0.len() implies #[trigger] keptu(ga0, gb0, a, b, i) by { assert(a[i]@.len() >= 0); assert(b[i]@.len() >= 0); }
    assert(processed_by(*self, a, b, c, ga0, gb0, gc0));
}
@fn num_non_zeros
@file marlin/src/ahp/constraint_systems.rs
@impl IndexerConstraintSystem<F>
@wrap impl IndexerConstraintSystem {
@method iter $0
@method max vmax4(&$0)
@header
pub fn num_non_zeros(&self) -> (ret: usize)
    requires self.a_matrix is Some, self.b_matrix is Some, self.c_matrix is Some,
        tot(self.a_matrix->Some_0.0@, self.a_matrix->Some_0.0@.len() as int) < 0x1000_0000_0000_0000, tot(self.b_matrix->Some_0.0@, self.b_matrix->Some_0.0@.len() as int) < 0x1000_0000_0000_0000, tot(self.c_matrix->Some_0.0@, self.c_matrix->Some_0.0@.len() as int) < 0x1000_0000_0000_0000,
    ensures ret >= 2, ret >= tot(self.a_matrix->Some_0.0@, self.a_matrix->Some_0.0@.len() as int), ret >= tot(self.b_matrix->Some_0.0@, self.b_matrix->Some_0.0@.len() as int), ret >= tot(self.c_matrix->Some_0.0@, self.c_matrix->Some_0.0@.len() as int),
@fn pcs_new
@file marlin/src/ahp/constraint_systems.rs
@impl ProverConstraintSystem<F>
@name new
@wrap impl ProverConstraintSystem {
@header
pub fn new() -> (ret: ProverConstraintSystem)
    ensures ret.num_input_variables == 1, ret.num_witness_variables == 0, ret.num_constraints == 0, ret.formatted_input_assignment@ == seq![f1()], ret.witness_assignment@.len() == 0, pcs_ok(ret),
@fn pcs_alloc
@file marlin/src/ahp/constraint_systems.rs
@impl ConstraintSystem<F> for ProverConstraintSystem<F>
@name alloc
@wrap impl ProverConstraintSystem {
@header
pub fn alloc<Q: FnOnce() -> Result<F, SynthesisError>>(&mut self, f: Q) -> (ret: Result<Variable, SynthesisError>)
    requires f.requires(()), old(self).num_witness_variables < usize::MAX,
    ensures ret is Ok ==> ret->Ok_0 == Variable(VariableIndex::Aux(old(self).num_witness_variables)) && final(self).num_witness_variables == old(self).num_witness_variables + 1 && exists|v: F| #[trigger] f.ensures((), Ok(v)) && final(self).witness_assignment@ == old(self).witness_assignment@.push(v),
        final(self).num_input_variables == old(self).num_input_variables, final(self).formatted_input_assignment == old(self).formatted_input_assignment, final(self).num_constraints == old(self).num_constraints,
@fn pcs_alloc_input
@file marlin/src/ahp/constraint_systems.rs
@impl ConstraintSystem<F> for ProverConstraintSystem<F>
@name alloc_input
@wrap impl ProverConstraintSystem {
@header
pub fn alloc_input<Q: FnOnce() -> Result<F, SynthesisError>>(&mut self, f: Q) -> (ret: Result<Variable, SynthesisError>)
    requires f.requires(()), old(self).num_input_variables < usize::MAX,
    ensures ret is Ok ==> ret->Ok_0 == Variable(VariableIndex::Input(old(self).num_input_variables)) && final(self).num_input_variables == old(self).num_input_variables + 1 && exists|v: F| #[trigger] f.ensures((), Ok(v)) && final(self).formatted_input_assignment@ == old(self).formatted_input_assignment@.push(v),
        final(self).num_witness_variables == old(self).num_witness_variables, final(self).witness_assignment == old(self).witness_assignment, final(self).num_constraints == old(self).num_constraints,
@fn pcs_enforce
@file marlin/src/ahp/constraint_systems.rs
@impl ConstraintSystem<F> for ProverConstraintSystem<F>
@name enforce
@wrap impl ProverConstraintSystem {
@header
pub fn enforce<LA: FnOnce(LinearCombination) -> LinearCombination, LB: FnOnce(LinearCombination) -> LinearCombination, LC: FnOnce(LinearCombination) -> LinearCombination>(&mut self, a: LA, b: LB, c: LC)
    requires old(self).num_constraints < usize::MAX,
    ensures final(self).num_constraints == old(self).num_constraints + 1, final(self).num_input_variables == old(self).num_input_variables, final(self).num_witness_variables == old(self).num_witness_variables, final(self).formatted_input_assignment == old(self).formatted_input_assignment, final(self).witness_assignment == old(self).witness_assignment,
@fn pcs_num_constraints
@file marlin/src/ahp/constraint_systems.rs
@impl ConstraintSystem<F> for ProverConstraintSystem<F>
@name num_constraints
@wrap impl ProverConstraintSystem {
@header
pub fn num_constraints(&self) -> (ret: usize)
    ensures ret == self.num_constraints,
@fn square_p
@file marlin/src/ahp/constraint_systems.rs
@name make_constraint_matrices_square
@method alloc $0.alloc($2)
@method enforce $0.enforce($2, $3, $4)
@method abs iabs($0)
@method expect vexpect($0)
@header
pub fn make_constraint_matrices_square_p(cs: &mut ProverConstraintSystem, mut num_formatted_variables: usize)
    requires pcs_ok(*old(cs)), num_formatted_variables == old(cs).num_input_variables + old(cs).num_witness_variables,
    ensures psquared(*old(cs), *final(cs)),
@at let:num_paddings
let ghost nfv0 = num_formatted_variables;
@inv 0
cs.num_input_variables == old(cs).num_input_variables, cs.num_input_variables + cs.num_witness_variables == nfv0 + k0, end0 == num_paddings, num_paddings == old(cs).num_constraints - nfv0, nfv0 < old(cs).num_constraints, old(cs).num_constraints < 0x1_0000_0000, cs.num_constraints == old(cs).num_constraints, pcs_ok(*old(cs)), cs.formatted_input_assignment == old(cs).formatted_input_assignment, cs.witness_assignment@.len() == cs.num_witness_variables, cs.num_witness_variables >= old(cs).num_witness_variables, cs.witness_assignment@.subrange(0, old(cs).witness_assignment@.len() as int) == old(cs).witness_assignment@,
@at le0
proof { assert(cs.witness_assignment@.subrange(0, old(cs).witness_assignment@.len() as int) =~= old(cs).witness_assignment@); }
@inv 1
cs.num_input_variables == old(cs).num_input_variables, cs.num_input_variables + cs.num_witness_variables == nfv0, nfv0 <= 0x1_0000_0000, end1 == num_paddings, num_paddings == nfv0 - old(cs).num_constraints, cs.num_constraints == old(cs).num_constraints + k1, pcs_ok(*old(cs)), cs.formatted_input_assignment == old(cs).formatted_input_assignment, cs.witness_assignment@.len() == cs.num_witness_variables, cs.num_witness_variables >= old(cs).num_witness_variables, cs.witness_assignment@.subrange(0, old(cs).witness_assignment@.len() as int) == old(cs).witness_assignment@,
@fn pcs_square
@file marlin/src/ahp/constraint_systems.rs
@impl ProverConstraintSystem<F>
@name make_matrices_square
@wrap impl ProverConstraintSystem {
@call make_constraint_matrices_square make_constraint_matrices_square_p($1, $2)
@header
pub fn make_matrices_square(&mut self)
    requires pcs_ok(*old(self)),
    ensures psquared(*old(self), *final(self)),
@fn format_public_input
@file marlin/src/ahp/constraint_systems.rs
@impl ProverConstraintSystem<F>
@wrap impl ProverConstraintSystem {
@header
pub fn format_public_input(public_input: &[F]) -> (ret: Vec<F>)
    ensures ret@ == seq![f1()] + public_input@,
@fn bivariate_eval
@file marlin/src/ahp/arithmetic.rs
@impl BivariatePoly<F> for GeneralEvaluationDomain<F>
@wrap impl Dom {
@method pow vpow($0, $1)
@op / fdivx($0, $1)
@header
pub fn bivariate_eval(&self, x: F, y: F) -> (ret: F)
    requires self.m() >= 1,
    ensures x != y ==> ret == fdiv(fsub(van(self.m(), x), van(self.m(), y)), fsub(x, y)), x == y ==> ret == fmul(fsize(self.m()), fpow(x, self.m() - 1)),
@fn batch_evals
@file marlin/src/ahp/arithmetic.rs
@impl BivariatePoly<F> for GeneralEvaluationDomain<F>
@wrap impl Dom {
@header
pub fn batch_evals(&self, x: F) -> (ret: Vec<F>)
    ensures ret@.len() == self.m(), forall|i: int| 0 <= i < self.m() ==> #[trigger] ret@[i] == fmul(finv(fsub(x, root(self.m(), i))), van(self.m(), x)),
@inv 0
end0 == self.m(), acc0@.len() == k0, forall|i: int| 0 <= i < k0 ==> #[trigger] acc0@[i] == fsub(x, root(self.m(), i)),
@inv 1
end1 == self.m(), denoms@.len() == self.m(), v_x == van(self.m(), x), forall|i: int| 0 <= i < k1 ==> #[trigger] denoms@[i] == fmul(finv(fsub(x, root(self.m(), i))), v_x), forall|i: int| k1 <= i < self.m() ==> #[trigger] denoms@[i] == finv(fsub(x, root(self.m(), i))),
@fn diagonal_evals
@file marlin/src/ahp/arithmetic.rs
@impl BivariatePoly<F> for GeneralEvaluationDomain<F>
@wrap impl Dom {
@header
pub fn diagonal_evals(&self) -> (ret: Vec<F>)
    requires self.m() >= 1,
    ensures ret@ == diag(self.m()),
@inv 0
end0 == self.m(), acc0@.len() == k0, forall|i: int| 0 <= i < k0 ==> #[trigger] acc0@[i] == fmul(fsize(self.m()), root(self.m(), i)),
@at fe
proof { assert(elements@ =~= diag(self.m())); }
@fn compose_matrix_polynomials
@file marlin/src/ahp/arithmetic.rs
@call LabeledPolynomial::new_owned lpoly($2, $3, $4)
@call EvaluationsOnDomain::from_vec_and_domain Evals::from_vec_and_domain($1, $2)
@call Cow::Owned $1
@method to_string vstr()
@refs row
@header
pub fn compose_matrix_polynomials(matrix_name: &str, matrix: &Matrix, domain_x: Dom, domain_h: Dom, domain_k: Dom, domain_b: Dom) -> (ret: Result<MatrixPolynomials, Error>)
    requires mat_fits(matrix.0@, domain_h.m(), domain_k.m()),
    ensures ret is Ok, polys_ok(matrix.0@, domain_x.m(), domain_h.m(), domain_k.m(), domain_b.m(), ret->Ok_0),
@at lb1
let ghost (m, mx, mh) = (matrix.0@, domain_x.m(), domain_h.m());
proof { tot_pos(m, m.len() as int); assert(tot(m, 0) == 0); }
@at la0
proof { assert(acc0@ =~= elems(domain_h.m())); }
@inv 0
end0 == domain_h.m(), acc0@ =~= elems(domain_h.m()).subrange(0, k0 as int),
@inv 1
end1 == m.len(), m == matrix.0@, mx == domain_x.m(), mh == domain_h.m(), h_elements@ == elems(mh), h_diag_evals@ == diag(mh), mat_fits(m, mh, domain_k.m()),
count == tot(m, k1 as int), row_vec@.len() == count, col_vec@.len() == count, val_vec@.len() == count, denom_vec@.len() == count, count <= domain_k.m(), domain_k.m() <= usize::MAX,
forall|i2: int, j2: int| 0 <= i2 < k1 && 0 <= j2 < m[i2]@.len() ==> #[trigger] listed_to(m, mx, mh, row_vec@, col_vec@, val_vec@, denom_vec@, i2, j2),
@at ls1
proof { tot_mono(m, k1 as int + 1, m.len() as int); tot_pos(m, k1 as int); }
@inv 2
k1 < m.len(), *row == m[k1 as int], i == k1, end2 == row@.len(), end1 == m.len(), m == matrix.0@, mx == domain_x.m(), mh == domain_h.m(), h_elements@ == elems(mh), h_diag_evals@ == diag(mh), mat_fits(m, mh, domain_k.m()), tot(m, k1 as int + 1) <= domain_k.m(), tot(m, k1 as int) >= 0,
count == tot(m, k1 as int) + k2, row_vec@.len() == count, col_vec@.len() == count, val_vec@.len() == count, denom_vec@.len() == count, domain_k.m() <= usize::MAX,
forall|i2: int, j2: int| 0 <= i2 < m.len() && 0 <= j2 < m[i2]@.len() && (i2 < k1 || (i2 == k1 && j2 < k2)) ==> #[trigger] listed_to(m, mx, mh, row_vec@, col_vec@, val_vec@, denom_vec@, i2, j2),
@at ls2
proof { assert(m[k1 as int]@[k2 as int].1 < mh); }
let ghost (r0, c0, v0, d0) = (row_vec@, col_vec@, val_vec@, denom_vec@);
@at le2
proof {
    assert forall|i2: int, j2: int| 0 <= i2 < m.len() && 0 <= j2 < m[i2]@.len() && (i2 < k1 || (i2 == k1 && j2 < k2 + 1)) implies #[trigger] listed_to(m, mx, mh, row_vec@, col_vec@, val_vec@, denom_vec@, i2, j2) by {
        if i2 < k1 || j2 < k2 {
            assert(listed_to(m, mx, mh, r0, c0, v0, d0, i2, j2));
            if i2 < k1 { tot_mono(m, i2 + 1, k1 as int); tot_pos(m, i2); }
        }
    }
}
@at la1
let ghost (r1, c1, v1, d1) = (row_vec@, col_vec@, val_vec@, denom_vec@);
let ghost tt = count as int;
@inv 3
end3 == tt, val_vec@.len() == tt, denom_vec@.len() == tt, d1.len() == tt, v1.len() == tt, forall|k: int| 0 <= k < tt ==> #[trigger] denom_vec@[k] == finv(d1[k]),
forall|k: int| 0 <= k < k3 ==> #[trigger] val_vec@[k] == fmul(v1[k], finv(d1[k])), forall|k: int| k3 <= k < tt ==> #[trigger] val_vec@[k] == v1[k],
@inv 4
end4 == domain_k.m() - tt, h_elements@ == elems(mh), mh >= 1, tt <= domain_k.m(), r1.len() == tt, c1.len() == tt, v1.len() == tt, d1.len() == tt,
row_vec@.len() == tt + k4, col_vec@.len() == tt + k4, val_vec@.len() == tt + k4,
forall|k: int| 0 <= k < tt ==> #[trigger] val_vec@[k] == fmul(v1[k], finv(d1[k])), forall|k: int| 0 <= k < tt ==> #[trigger] row_vec@[k] == r1[k], forall|k: int| 0 <= k < tt ==> #[trigger] col_vec@[k] == c1[k],
forall|k: int| tt <= k < tt + k4 ==> #[trigger] val_vec@[k] == f0() && row_vec@[k] == root(mh, 0) && col_vec@[k] == root(mh, 0),
@inv 5
end5 == row_vec@.len(), col_vec@.len() == row_vec@.len(), acc5@.len() == k5, forall|k: int| 0 <= k < k5 ==> #[trigger] acc5@[k] == fmul(row_vec@[k], col_vec@[k]),
@at let:row_col_vec
let ghost (gr, gc, gv) = (row_vec@, col_vec@, val_vec@);
proof {
    assert(row_col_vec@ =~= Seq::new(gr.len(), |k: int| fmul(gr[k], gc[k])));
    assert forall|i2: int, j2: int| 0 <= i2 < m.len() && 0 <= j2 < m[i2]@.len() implies #[trigger] entry_at(m, mx, mh, gr, gc, gv, i2, j2) by {
        assert(listed_to(m, mx, mh, r1, c1, v1, d1, i2, j2));
        tot_mono(m, i2 + 1, m.len() as int); tot_pos(m, i2);
    }
    assert(rep(m, mx, mh, domain_k.m(), gr, gc, gv));
}
@fn index
@file marlin/src/ahp/indexer.rs
@impl AHP<F>
@method generate_constraints $0.gen_index($1)
@method ok_or vokor($0)
@call EvaluationDomain::new Dom::new($1)
@header
pub fn index(c: Circ) -> (ret: Result<Index, Error>)
    ensures ret is Ok ==> ics_ok(c.s()) && index_ok(c.s(), ret->Ok_0),
@at fs
let ghost cc = c;
@at let:num_inputs
let ghost t = ics;
let ghost (ga, gb, gc) = (ics.a_matrix->Some_0.0@, ics.b_matrix->Some_0.0@, ics.c_matrix->Some_0.0@);
proof { lemma_processed(t, ga, gb, gc); }
@at fe
proof { assert(index_by(cc.s(), t, ret_->Ok_0)); }

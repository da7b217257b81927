pub enum ConstraintVar { LC(LinearCombination), Var(Variable) }
pub use ConstraintVar::*;
// the value of a constraint variable under an assignment
pub open spec fn cve(x: ConstraintVar, w: Asg) -> F {
    match x { LC(l) => l.val(w), Var(v) => v.val(w) }
}
// values that `+`, `-` and `into` accept
pub trait Val: Sized {
    spec fn val(self, w: Asg) -> F;
    // the representation is the bare linear combination (for in-place operations)
}
impl Val for LinearCombination { open spec fn val(self, w: Asg) -> F { lce(self.0@, w) } }
impl<'a> Val for &'a LinearCombination { open spec fn val(self, w: Asg) -> F { (*self).val(w) } }
impl<'a> Val for &'a mut LinearCombination { open spec fn val(self, w: Asg) -> F { (*self).val(w) } }
impl Val for Variable { open spec fn val(self, w: Asg) -> F { w(self) } }
impl Val for (F, Variable) { open spec fn val(self, w: Asg) -> F { fmul(self.0, self.1.val(w)) } }
impl Val for (F, LinearCombination) { open spec fn val(self, w: Asg) -> F { fmul(self.0, self.1.val(w)) } }
impl<'a> Val for (F, &'a LinearCombination) { open spec fn val(self, w: Asg) -> F { fmul(self.0, (*self.1).val(w)) } }
impl Val for ConstraintVar { open spec fn val(self, w: Asg) -> F { cve(self, w) } }
impl<'a> Val for &'a ConstraintVar { open spec fn val(self, w: Asg) -> F { cve(*self, w) } }
impl<'a> Val for (F, &'a ConstraintVar) { open spec fn val(self, w: Asg) -> F { fmul(self.0, cve(*self.1, w)) } }
impl Val for (F, ConstraintVar) { open spec fn val(self, w: Asg) -> F { fmul(self.0, cve(self.1, w)) } }
pub open spec fn is_sum<A: Val, B: Val, C: Val>(r: C, a: A, b: B) -> bool {
    forall|w: Asg| #[trigger] r.val(w) == fadd(a.val(w), b.val(w))
}
pub open spec fn is_diff<A: Val, B: Val, C: Val>(r: C, a: A, b: B) -> bool {
    forall|w: Asg| #[trigger] r.val(w) == fadd(a.val(w), fmul(m1(), b.val(w)))
}
pub open spec fn same<A: Val, B: Val>(r: A, a: B) -> bool {
    forall|w: Asg| #[trigger] r.val(w) == a.val(w)
}
pub open spec fn is_mul<A: Val, B: Val>(r: B, a: A, c: F) -> bool {
    forall|w: Asg| #[trigger] r.val(w) == fmul(c, a.val(w))
}
// the contracts of LinearCombination's operators, discharged in the unit r1cs_lc
pub trait Plus<R: Val>: Val { type Out: Val; fn plus(self, r: R) -> (o: Self::Out) ensures is_sum(o, self, r); }
pub trait Minus<R: Val>: Val { type Out: Val; fn minus(self, r: R) -> (o: Self::Out) ensures is_diff(o, self, r); }
pub trait Times: Val { type Out: Val; fn times(self, c: F) -> (o: Self::Out) ensures is_mul(o, self, c); }
pub trait Conv<T: Val>: Val { fn conv(self) -> (o: T) ensures same(o, self); }
impl Plus<LinearCombination> for LinearCombination { type Out = LinearCombination; #[verifier::external_body] fn plus(self, r: LinearCombination) -> (o: LinearCombination) { unimplemented!() } }
impl Minus<LinearCombination> for LinearCombination { type Out = LinearCombination; #[verifier::external_body] fn minus(self, r: LinearCombination) -> (o: LinearCombination) { unimplemented!() } }
impl<'a> Plus<&'a LinearCombination> for LinearCombination { type Out = LinearCombination; #[verifier::external_body] fn plus(self, r: &'a LinearCombination) -> (o: LinearCombination) { unimplemented!() } }
impl<'a> Minus<&'a LinearCombination> for LinearCombination { type Out = LinearCombination; #[verifier::external_body] fn minus(self, r: &'a LinearCombination) -> (o: LinearCombination) { unimplemented!() } }
impl Plus<Variable> for LinearCombination { type Out = LinearCombination; #[verifier::external_body] fn plus(self, r: Variable) -> (o: LinearCombination) { unimplemented!() } }
impl Minus<Variable> for LinearCombination { type Out = LinearCombination; #[verifier::external_body] fn minus(self, r: Variable) -> (o: LinearCombination) { unimplemented!() } }
impl Plus<(F, Variable)> for LinearCombination { type Out = LinearCombination; #[verifier::external_body] fn plus(self, r: (F, Variable)) -> (o: LinearCombination) { unimplemented!() } }
impl Minus<(F, Variable)> for LinearCombination { type Out = LinearCombination; #[verifier::external_body] fn minus(self, r: (F, Variable)) -> (o: LinearCombination) { unimplemented!() } }
impl<'a> Plus<(F, &'a LinearCombination)> for LinearCombination { type Out = LinearCombination; #[verifier::external_body] fn plus(self, r: (F, &'a LinearCombination)) -> (o: LinearCombination) { unimplemented!() } }
impl<'a> Minus<(F, &'a LinearCombination)> for LinearCombination { type Out = LinearCombination; #[verifier::external_body] fn minus(self, r: (F, &'a LinearCombination)) -> (o: LinearCombination) { unimplemented!() } }
impl Times for LinearCombination { type Out = LinearCombination; #[verifier::external_body] fn times(self, c: F) -> (o: LinearCombination) { unimplemented!() } }
impl Conv<LinearCombination> for (F, Variable) {  #[verifier::external_body] fn conv(self) -> (o: LinearCombination) { unimplemented!() } }
impl Conv<LinearCombination> for Variable {  #[verifier::external_body] fn conv(self) -> (o: LinearCombination) { unimplemented!() } }
impl LinearCombination {
    #[verifier::external_body] pub fn lc_from(v: Variable) -> (r: LinearCombination) ensures same(r, v) { unimplemented!() }
    #[verifier::external_body] pub fn lc_zero() -> (r: LinearCombination) ensures forall|w: Asg| #[trigger] r.val(w) == f0() { unimplemented!() }
    #[verifier::external_body] pub fn negate(self) -> (r: LinearCombination) ensures is_mul(r, self, m1()) { unimplemented!() }
    #[verifier::external_body] pub fn negate_in_place(&mut self) ensures forall|w: Asg| #[trigger] (*final(self)).val(w) == fmul(m1(), (*old(self)).val(w)) { unimplemented!() }
    #[verifier::external_body] pub fn double_in_place(&mut self) ensures forall|w: Asg| #[trigger] (*final(self)).val(w) == fmul(fadd(f1(), f1()), (*old(self)).val(w)) { unimplemented!() }
    #[verifier::external_body] pub fn mul_assign(&mut self, c: F) ensures forall|w: Asg| #[trigger] (*final(self)).val(w) == fmul(c, (*old(self)).val(w)) { unimplemented!() }
    #[verifier::external_body] pub fn add_assign(&mut self, p: (F, Variable)) ensures forall|w: Asg| #[trigger] (*final(self)).val(w) == fadd((*old(self)).val(w), fmul(p.0, w(p.1))) { unimplemented!() }
}
pub proof fn cv_laws()
    ensures
        forall|c: F, x: F| #[trigger] fmul(fneg(c), x) == fmul(m1(), fmul(c, x)),
        forall|x: F| #[trigger] fmul(m1(), fmul(m1(), x)) == x,
        forall|x: F, y: F| #[trigger] fmul(m1(), fadd(x, y)) == fadd(fmul(m1(), x), fmul(m1(), y)),
{
    assert forall|c: F, x: F| #[trigger] fmul(fneg(c), x) == fmul(m1(), fmul(c, x)) by { lemma_neg(c); ax_mul_assoc(m1(), c, x); }
    assert forall|x: F| #[trigger] fmul(m1(), fmul(m1(), x)) == x by { ax_mul_assoc(m1(), m1(), x); m1_sq(); }
    assert forall|x: F, y: F| #[trigger] fmul(m1(), fadd(x, y)) == fadd(fmul(m1(), x), fmul(m1(), y)) by { ax_distr(m1(), x, y); }
}
pub proof fn m1_sq()
    ensures fmul(m1(), m1()) == f1(),
{
    lemma_neg(m1());
    // -(-1) = 1
    ax_neg(f1());
    ax_neg(m1());
    ax_add_assoc(f1(), m1(), fneg(m1()));
}

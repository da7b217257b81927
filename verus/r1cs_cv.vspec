@unit r1cs_cv
@prelude base field vec
@scalar F Variable
@include lc.rs
@include cv.rs
@include fneg.rs
@item r1cs/src/lib.rs Variable
@item r1cs/src/lib.rs Index
@item r1cs/src/lib.rs ConstraintVar
@assume the operators of LinearCombination satisfy the contracts discharged in the unit r1cs_lc
@method into $0.conv()
@call LinearCombination::zero LinearCombination::lc_zero()
@call LinearCombination::from LinearCombination::lc_from($1)
@call ConstraintVar::zero ConstraintVar::cv_zero()
@op + $0.plus($1)
@op - $0.minus($1)
@op * $0.times($1)
@op neg $0.negate()
@text
impl Conv<ConstraintVar> for Variable { fn conv(self) -> (o: ConstraintVar) { from_var(self) } }
impl Conv<ConstraintVar> for (F, Variable) { fn conv(self) -> (o: ConstraintVar) { from_pair(self) } }
impl Conv<ConstraintVar> for (F, LinearCombination) { fn conv(self) -> (o: ConstraintVar) { from_mul_lc(self) } }
@fn from_var
@file r1cs/src/impl_constraint_var.rs
@impl From<Variable> for ConstraintVar<F>
@name from
@header
pub fn from_var(var: Variable) -> (ret: ConstraintVar)
    ensures same(ret, var),
@at fs
proof { cv_laws(); }
@fn from_pair
@file r1cs/src/impl_constraint_var.rs
@impl From<(F,Variable)> for ConstraintVar<F>
@name from
@header
pub fn from_pair(coeff_var: (F, Variable)) -> (ret: ConstraintVar)
    ensures same(ret, coeff_var),
@at fs
proof { cv_laws(); }
@fn from_lc
@file r1cs/src/impl_constraint_var.rs
@impl From<LinearCombination<F>> for ConstraintVar<F>
@name from
@header
pub fn from_lc(lc: LinearCombination) -> (ret: ConstraintVar)
    ensures same(ret, lc),
@at fs
proof { cv_laws(); }
@fn from_mul_lc
@file r1cs/src/impl_constraint_var.rs
@impl From<(F,LinearCombination<F>)> for ConstraintVar<F>
@name from
@op *= $0.mul_assign($1)
@header
pub fn from_mul_lc(p0: (F, LinearCombination)) -> (ret: ConstraintVar)
    ensures same(ret, p0),
@at fs
proof { cv_laws(); }
@fn from_mul_cv
@file r1cs/src/impl_constraint_var.rs
@impl From<(F,ConstraintVar<F>)> for ConstraintVar<F>
@name from
@header
pub fn from_mul_cv(p0: (F, ConstraintVar)) -> (ret: ConstraintVar)
    ensures same(ret, p0),
@at fs
proof { cv_laws(); }
@fn cv_zero
@file r1cs/src/impl_constraint_var.rs
@impl ConstraintVar<F>
@name zero
@wrap impl ConstraintVar {
@header
pub fn cv_zero() -> (ret: ConstraintVar)
    ensures forall|w: Asg| #[trigger] ret.val(w) == f0(),
@at fs
proof { cv_laws(); }
@fn negate_in_place
@file r1cs/src/impl_constraint_var.rs
@impl ConstraintVar<F>
@name negate_in_place
@wrap impl ConstraintVar {
@header
pub fn negate_in_place(&mut self)
    ensures is_mul(*final(self), *old(self), m1()),
@at fs
proof { cv_laws(); }
@fn double_in_place
@file r1cs/src/impl_constraint_var.rs
@impl ConstraintVar<F>
@name double_in_place
@wrap impl ConstraintVar {
@header
pub fn double_in_place(&mut self)
    ensures is_mul(*final(self), *old(self), fadd(f1(), f1())),
@at fs
proof { cv_laws(); }
@fn add_lc
@file r1cs/src/impl_constraint_var.rs
@impl Add<LinearCombination<F>> for ConstraintVar<F>
@name add
@wrap impl Plus<LinearCombination> for ConstraintVar { type Out = LinearCombination;
@header
fn plus(self, other_lc: LinearCombination) -> (ret: LinearCombination)
@at fs
proof { cv_laws(); }
@fn sub_lc
@file r1cs/src/impl_constraint_var.rs
@impl Sub<LinearCombination<F>> for ConstraintVar<F>
@name sub
@wrap impl Minus<LinearCombination> for ConstraintVar { type Out = LinearCombination;
@header
fn minus(self, other_lc: LinearCombination) -> (ret: LinearCombination)
@at fs
proof { cv_laws(); }
@fn add_lc_r
@file r1cs/src/impl_constraint_var.rs
@impl Add<LinearCombination<F>> for &ConstraintVar<F>
@name add
@wrap impl<'a> Plus<LinearCombination> for &'a ConstraintVar { type Out = LinearCombination;
@header
fn plus(self, other_lc: LinearCombination) -> (ret: LinearCombination)
@at fs
proof { cv_laws(); }
@fn sub_lc_r
@file r1cs/src/impl_constraint_var.rs
@impl Sub<LinearCombination<F>> for &ConstraintVar<F>
@name sub
@wrap impl<'a> Minus<LinearCombination> for &'a ConstraintVar { type Out = LinearCombination;
@header
fn minus(self, other_lc: LinearCombination) -> (ret: LinearCombination)
@at fs
proof { cv_laws(); }
@fn add_pair
@file r1cs/src/impl_constraint_var.rs
@impl Add<(F,Variable)> for ConstraintVar<F>
@name add
@wrap impl Plus<(F, Variable)> for ConstraintVar { type Out = ConstraintVar;
@header
fn plus(self, var: (F, Variable)) -> (ret: ConstraintVar)
@at fs
proof { cv_laws(); }
@fn add_assign_pair
@file r1cs/src/impl_constraint_var.rs
@impl AddAssign<(F,Variable)> for ConstraintVar<F>
@name add_assign
@wrap impl ConstraintVar {
@op += $0.add_assign($1)
@header
pub fn add_assign(&mut self, var: (F, Variable))
    ensures is_sum(*final(self), *old(self), var),
@at fs
proof { cv_laws(); }
@fn neg
@file r1cs/src/impl_constraint_var.rs
@impl Neg for ConstraintVar<F>
@name neg
@wrap impl ConstraintVar {
@header
pub fn neg(self) -> (ret: ConstraintVar)
    ensures is_mul(ret, self, m1()),
@at fs
proof { cv_laws(); }
@fn mul
@file r1cs/src/impl_constraint_var.rs
@impl Mul<F> for ConstraintVar<F>
@name mul
@wrap impl Times for ConstraintVar { type Out = ConstraintVar;
@header
fn times(self, scalar: F) -> (ret: ConstraintVar)
@at fs
proof { cv_laws(); }
@fn mul_assign
@file r1cs/src/impl_constraint_var.rs
@impl MulAssign<F> for ConstraintVar<F>
@name mul_assign
@wrap impl ConstraintVar {
@op *= $0.mul_assign($1)
@header
pub fn mul_assign(&mut self, scalar: F)
    ensures is_mul(*final(self), *old(self), scalar),
@at fs
proof { cv_laws(); }
@fn sub_pair
@file r1cs/src/impl_constraint_var.rs
@impl Sub<(F,Variable)> for ConstraintVar<F>
@name sub
@wrap impl Minus<(F, Variable)> for ConstraintVar { type Out = ConstraintVar;
@header
fn minus(self, p1: (F, Variable)) -> (ret: ConstraintVar)
@at fs
proof { cv_laws(); }
@fn add_var
@file r1cs/src/impl_constraint_var.rs
@impl Add<Variable> for ConstraintVar<F>
@name add
@wrap impl Plus<Variable> for ConstraintVar { type Out = ConstraintVar;
@header
fn plus(self, other: Variable) -> (ret: ConstraintVar)
@at fs
proof { cv_laws(); }
@fn sub_var
@file r1cs/src/impl_constraint_var.rs
@impl Sub<Variable> for ConstraintVar<F>
@name sub
@wrap impl Minus<Variable> for ConstraintVar { type Out = ConstraintVar;
@header
fn minus(self, other: Variable) -> (ret: ConstraintVar)
@at fs
proof { cv_laws(); }
@fn add_cv
@file r1cs/src/impl_constraint_var.rs
@impl Add<&'a Self> for ConstraintVar<F>
@name add
@wrap impl<'a> Plus<&'a ConstraintVar> for ConstraintVar { type Out = ConstraintVar;
@header
fn plus(self, other: &'a ConstraintVar) -> (ret: ConstraintVar)
@at fs
proof { cv_laws(); }
@fn sub_cv
@file r1cs/src/impl_constraint_var.rs
@impl Sub<&'a Self> for ConstraintVar<F>
@name sub
@wrap impl<'a> Minus<&'a ConstraintVar> for ConstraintVar { type Out = ConstraintVar;
@header
fn minus(self, other: &'a ConstraintVar) -> (ret: ConstraintVar)
@at fs
proof { cv_laws(); }
@fn add_cv_r
@file r1cs/src/impl_constraint_var.rs
@impl Add<&ConstraintVar<F>> for &ConstraintVar<F>
@name add
@wrap impl<'a, 'b> Plus<&'a ConstraintVar> for &'b ConstraintVar { type Out = ConstraintVar;
@header
fn plus(self, other: &'a ConstraintVar) -> (ret: ConstraintVar)
@at fs
proof { cv_laws(); }
@fn sub_cv_r
@file r1cs/src/impl_constraint_var.rs
@impl Sub<&ConstraintVar<F>> for &ConstraintVar<F>
@name sub
@wrap impl<'a, 'b> Minus<&'a ConstraintVar> for &'b ConstraintVar { type Out = ConstraintVar;
@header
fn minus(self, other: &'a ConstraintVar) -> (ret: ConstraintVar)
@at fs
proof { cv_laws(); }
@fn addmul_cv
@file r1cs/src/impl_constraint_var.rs
@impl Add<(F,&'a Self)> for ConstraintVar<F>
@name add
@wrap impl<'a> Plus<(F, &'a ConstraintVar)> for ConstraintVar { type Out = ConstraintVar;
@header
fn plus(self, p1: (F, &'a ConstraintVar)) -> (ret: ConstraintVar)
@at fs
proof { cv_laws(); }
@fn submul_cv
@file r1cs/src/impl_constraint_var.rs
@impl Sub<(F,&'a Self)> for ConstraintVar<F>
@name sub
@wrap impl<'a> Minus<(F, &'a ConstraintVar)> for ConstraintVar { type Out = ConstraintVar;
@header
fn minus(self, p1: (F, &'a ConstraintVar)) -> (ret: ConstraintVar)
@at fs
proof { cv_laws(); }

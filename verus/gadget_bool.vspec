@unit gadget_bool
@prelude base field vec
@scalar F Variable
@circuit
@include lc.rs
@include cv.rs
@include cs.rs
@include bool.rs
@item r1cs/src/lib.rs Variable
@item r1cs/src/lib.rs Index
@item gadgets/src/algebra/boolean.rs AllocatedBit
@item gadgets/src/algebra/boolean.rs Boolean
@assume the operators of LinearCombination satisfy the contracts discharged in the unit r1cs_lc
@assume a constraint system records the constraint a*b=c that `enforce` states, hands out unused variables, and evaluates assignment closures exactly when it wants values (TestConstraintSystem: P02)
@method into $0.conv()
@method expect vunwrap($0)
@call LinearCombination::zero LinearCombination::lc_zero()
@op + $0.plus($1)
@op - $0.minus($1)
@op * $0.times($1)
@op neg $0.negate()
@op ^ $0.bxor($1)
@op & $0.band($1)
@op | $0.bor($1)
@fn bit_alloc
@file gadgets/src/algebra/boolean.rs
@impl AllocatedBit
@name alloc
@wrap impl AllocatedBit {
@header
pub fn alloc(cs: &mut CS, value: Option<bool>) -> (ret: Result<Self, SynthesisError>)
    ensures ret is Ok ==> new_bit(*old(cs), *final(cs), value, ret->Ok_0),
@at fs
proof { field_laws(); }
@fn bit_alloc_input
@file gadgets/src/algebra/boolean.rs
@impl AllocatedBit
@name alloc_input
@wrap impl AllocatedBit {
@header
pub fn alloc_input(cs: &mut CS, value: Option<bool>) -> (ret: Result<Self, SynthesisError>)
    ensures ret is Ok ==> new_bit(*old(cs), *final(cs), value, ret->Ok_0),
@at fs
proof { field_laws(); }
@fn bit_alloc_conditionally
@file gadgets/src/algebra/boolean.rs
@impl AllocatedBit
@name alloc_conditionally
@wrap impl AllocatedBit {
@header
pub fn alloc_conditionally(cs: &mut CS, value: Option<bool>, must_be_false: &AllocatedBit) -> (ret: Result<Self, SynthesisError>)
    ensures ret is Ok ==> grows(*old(cs), *final(cs)) && ret->Ok_0.value == value,
        ret is Ok ==> forall|w: Asg| wf(w) && #[trigger] final(cs).sat(w) && isbit(*must_be_false, w) ==> isbit(ret->Ok_0, w) && (tv(*must_be_false, w) ==> ret->Ok_0.fv(w) == f0()),
        ret is Ok ==> forall|w: Asg| wf(w) && #[trigger] old(cs).sat(w) && follows(*old(cs), *final(cs), w) && right(*must_be_false, w) && old(cs).prv()
            && !(must_be_false.value == Some(true) && value == Some(true)) ==> final(cs).sat(w) && right(ret->Ok_0, w),
@at fs
proof { field_laws(); }
@fn bit_xor
@file gadgets/src/algebra/boolean.rs
@impl AllocatedBit
@name xor
@wrap impl AllocatedBit {
@header
pub fn xor(cs: &mut CS, a: &Self, b: &Self) -> (ret: Result<Self, SynthesisError>)
    ensures ret is Ok ==> gate2(*old(cs), *final(cs), *a, *b, ret->Ok_0, |x: bool, y: bool| x != y),
@at fs
proof { field_laws(); }
@fn bit_and
@file gadgets/src/algebra/boolean.rs
@impl AllocatedBit
@name and
@wrap impl AllocatedBit {
@header
pub fn and(cs: &mut CS, a: &Self, b: &Self) -> (ret: Result<Self, SynthesisError>)
    ensures ret is Ok ==> gate2(*old(cs), *final(cs), *a, *b, ret->Ok_0, |x: bool, y: bool| x && y),
@at fs
proof { field_laws(); }
@fn bit_and_not
@file gadgets/src/algebra/boolean.rs
@impl AllocatedBit
@name and_not
@wrap impl AllocatedBit {
@header
pub fn and_not(cs: &mut CS, a: &Self, b: &Self) -> (ret: Result<Self, SynthesisError>)
    ensures ret is Ok ==> gate2(*old(cs), *final(cs), *a, *b, ret->Ok_0, |x: bool, y: bool| x && !y),
@at fs
proof { field_laws(); }
@fn bit_nor
@file gadgets/src/algebra/boolean.rs
@impl AllocatedBit
@name nor
@wrap impl AllocatedBit {
@header
pub fn nor(cs: &mut CS, a: &Self, b: &Self) -> (ret: Result<Self, SynthesisError>)
    ensures ret is Ok ==> gate2(*old(cs), *final(cs), *a, *b, ret->Ok_0, |x: bool, y: bool| !x && !y),
@at fs
proof { field_laws(); }
@fn get_value_bit
@file gadgets/src/algebra/boolean.rs
@impl AllocatedBit
@name get_value
@wrap impl AllocatedBit {
@header
pub fn get_value(&self) -> (ret: Option<bool>)
    ensures ret == self.value,
@at fs
proof { field_laws(); }
@fn get_variable
@file gadgets/src/algebra/boolean.rs
@impl AllocatedBit
@name get_variable
@wrap impl AllocatedBit {
@header
pub fn get_variable(&self) -> (ret: Variable)
    ensures ret == self.variable,
@at fs
proof { field_laws(); }
@fn from_bit
@file gadgets/src/algebra/boolean.rs
@impl From<AllocatedBit> for Boolean
@name from
@header
pub fn from_bit(b: AllocatedBit) -> (ret: Boolean)
    ensures ret == Boolean::Is(b),
@at fs
proof { field_laws(); }
@fn is_constant
@file gadgets/src/algebra/boolean.rs
@impl Boolean
@name is_constant
@wrap impl Boolean {
@header
pub fn is_constant(&self) -> (ret: bool)
    ensures ret == (self is Constant),
@at fs
proof { field_laws(); }
@fn get_value
@file gadgets/src/algebra/boolean.rs
@impl Boolean
@name get_value
@wrap impl Boolean {
@header
pub fn get_value(&self) -> (ret: Option<bool>)
    ensures ret == self.known(),
@at fs
proof { field_laws(); }
@fn constant
@file gadgets/src/algebra/boolean.rs
@impl Boolean
@name constant
@wrap impl Boolean {
@header
pub fn constant(b: bool) -> (ret: Self)
    ensures ret == Boolean::Constant(b),
@at fs
proof { field_laws(); }
@fn lc
@file gadgets/src/algebra/boolean.rs
@impl Boolean
@name lc
@wrap impl Boolean {
@header
pub fn lc(&self, one: Variable, coeff: F) -> (ret: LinearCombination)
    requires one == one_var(),
    ensures forall|w: Asg| wf(w) ==> #[trigger] ret.val(w) == fmul(coeff, self.fv(w)),
@at fs
proof {
    field_laws();
    assert forall|x: F| #![trigger fmul(coeff, fsub(f1(), x))] fadd(coeff, fmul(m1(), fmul(coeff, x))) == fmul(coeff, fsub(f1(), x)) by {
        ax_distr(coeff, f1(), fneg(x)); ax_mul_assoc(m1(), coeff, x); ax_mul_assoc(coeff, m1(), x);
    }
}
@fn not
@file gadgets/src/algebra/boolean.rs
@impl Boolean
@name not
@wrap impl Boolean {
@header
pub fn not(&self) -> (ret: Self)
    ensures forall|w: Asg| #[trigger] ret.fv(w) == fsub(f1(), self.fv(w)),
        ret.known() == match self.known() { Some(b) => Some(!b), None => None },
        ret == flip(*self),
@at fs
proof { field_laws(); }
@fn enforce_equal
@file gadgets/src/algebra/boolean.rs
@impl Boolean
@name enforce_equal
@wrap impl Boolean {
@header
pub fn enforce_equal(cs: &mut CS, a: &Self, b: &Self) -> (ret: Result<(), SynthesisError>)
    ensures ret is Err <==> (a is Constant && b is Constant && *a != *b),
        ret is Ok ==> grows(*old(cs), *final(cs)),
        ret is Ok ==> forall|w: Asg| wf(w) ==> #[trigger] final(cs).sat(w) == (old(cs).sat(w) && a.fv(w) == b.fv(w)),
@at fs
proof { field_laws(); }
@fn xor
@file gadgets/src/algebra/boolean.rs
@impl Boolean
@name xor
@wrap impl Boolean {
@header
#[verifier::exec_allows_no_decreases_clause]
pub fn xor(cs: &mut CS, a: &Self, b: &Self) -> (ret: Result<Self, SynthesisError>)
    ensures ret is Ok ==> gate2(*old(cs), *final(cs), *a, *b, ret->Ok_0, |x: bool, y: bool| x != y),
@at fs
proof { field_laws(); }
@fn and
@file gadgets/src/algebra/boolean.rs
@impl Boolean
@name and
@wrap impl Boolean {
@header
#[verifier::exec_allows_no_decreases_clause]
pub fn and(cs: &mut CS, a: &Self, b: &Self) -> (ret: Result<Self, SynthesisError>)
    ensures ret is Ok ==> gate2(*old(cs), *final(cs), *a, *b, ret->Ok_0, |x: bool, y: bool| x && y),
@at fs
proof { field_laws(); }
@fn sha256_ch
@file gadgets/src/algebra/boolean.rs
@impl Boolean
@name sha256_ch
@wrap impl Boolean {
@header
pub fn sha256_ch(cs: &mut CS, a: &Self, b: &Self, c: &Self) -> (ret: Result<Self, SynthesisError>)
    ensures ret is Ok ==> gate3(*old(cs), *final(cs), *a, *b, *c, ret->Ok_0, |x: bool, y: bool, z: bool| (x && y) != (!x && z)),
@at fs
proof { field_laws(); ch_law(); }
@fn sha256_maj
@file gadgets/src/algebra/boolean.rs
@impl Boolean
@name sha256_maj
@wrap impl Boolean {
@header
pub fn sha256_maj(cs: &mut CS, a: &Self, b: &Self, c: &Self) -> (ret: Result<Self, SynthesisError>)
    ensures ret is Ok ==> gate3(*old(cs), *final(cs), *a, *b, *c, ret->Ok_0, |x: bool, y: bool, z: bool| ((x && y) != (x && z)) != (y && z)),
@at fs
proof { field_laws(); maj_law(); }
@at let:maj
let ghost c1 = *cs;
@at let:bc
let ghost c2 = *cs;
@at fe
proof {
    let c0 = *old(cs);
    assert forall|w: Asg| wf(w) && #[trigger] c0.sat(w) && follows(c0, *cs, w) && right(*a, w) && right(*b, w) && right(*c, w) && c0.prv() implies cs.sat(w) by {
        assert(c1.sat(w));
        assert(follows(c1, c2, w));
        assert(c2.sat(w));
        assert(right(bc, w));
        let q = bc.fv(w);
        assert(q == (if b.fv(w) == f1() { c.fv(w) } else { f0() }));
        assert(w(maj) == (cs.hon())(maj));
    }
}

// ---- the scalar field: an opaque type; only the laws of a commutative ring are assumed ----
pub mod field {
use vstd::prelude::*;
#[verifier::external_body]
pub struct F { x: u8 }
impl Clone for F { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for F {}
pub uninterp spec fn f0() -> F;
pub uninterp spec fn f1() -> F;
pub uninterp spec fn fadd(a: F, b: F) -> F;
pub uninterp spec fn fsub(a: F, b: F) -> F;
pub uninterp spec fn fmul(a: F, b: F) -> F;
pub uninterp spec fn fneg(a: F) -> F;
impl vstd::std_specs::ops::AddSpecImpl<F> for F {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: F) -> bool { true }
    open spec fn add_spec(self, o: F) -> F { fadd(self, o) }
}
impl core::ops::Add<F> for F { type Output = F; #[verifier::external_body] fn add(self, o: F) -> F { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<F> for F {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: F) -> bool { true }
    open spec fn sub_spec(self, o: F) -> F { fsub(self, o) }
}
impl core::ops::Sub<F> for F { type Output = F; #[verifier::external_body] fn sub(self, o: F) -> F { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<F> for F {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: F) -> bool { true }
    open spec fn mul_spec(self, o: F) -> F { fmul(self, o) }
}
impl core::ops::Mul<F> for F { type Output = F; #[verifier::external_body] fn mul(self, o: F) -> F { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<F> for F {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &F) -> bool { *self == *o }
}
impl PartialEq for F { #[verifier::external_body] fn eq(&self, o: &F) -> bool { unimplemented!() } }
#[verifier::external_body]
pub fn vneg(a: F) -> (r: F) ensures r == fneg(a) { unimplemented!() }
impl F {
    #[verifier::external_body] pub fn zero() -> (r: F) ensures r == f0() { unimplemented!() }
    #[verifier::external_body] pub fn one() -> (r: F) ensures r == f1() { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (*self == f0()) { unimplemented!() }
    #[verifier::external_body] pub fn is_one(&self) -> (r: bool) ensures r == (*self == f1()) { unimplemented!() }
    #[verifier::external_body] pub fn double(&self) -> (r: F) ensures r == fadd(*self, *self) { unimplemented!() }
    #[verifier::external_body] pub fn square(&self) -> (r: F) ensures r == fmul(*self, *self) { unimplemented!() }
    #[verifier::external_body] pub fn neg(self) -> (r: F) ensures r == fneg(self) { unimplemented!() }
    #[verifier::external_body] pub fn double_in_place(&mut self) ensures *final(self) == fadd(*old(self), *old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn square_in_place(&mut self) ensures *final(self) == fmul(*old(self), *old(self)) { unimplemented!() }
}
// commutative ring laws (trusted)
pub broadcast axiom fn ax_add_comm(a: F, b: F) ensures #[trigger] fadd(a, b) == fadd(b, a);
pub broadcast axiom fn ax_mul_comm(a: F, b: F) ensures #[trigger] fmul(a, b) == fmul(b, a);
pub broadcast axiom fn ax_add_0(a: F) ensures #[trigger] fadd(a, f0()) == a;
pub broadcast axiom fn ax_mul_1(a: F) ensures #[trigger] fmul(a, f1()) == a;
pub broadcast axiom fn ax_mul_0(a: F) ensures #[trigger] fmul(a, f0()) == f0();
pub broadcast axiom fn ax_sub(a: F, b: F) ensures #[trigger] fsub(a, b) == fadd(a, fneg(b));
pub axiom fn ax_add_assoc(a: F, b: F, c: F) ensures fadd(fadd(a, b), c) == fadd(a, fadd(b, c));
pub axiom fn ax_mul_assoc(a: F, b: F, c: F) ensures fmul(fmul(a, b), c) == fmul(a, fmul(b, c));
pub axiom fn ax_distr(a: F, b: F, c: F) ensures fmul(a, fadd(b, c)) == fadd(fmul(a, b), fmul(a, c));
pub axiom fn ax_neg(a: F) ensures fadd(a, fneg(a)) == f0();
pub broadcast group ring_laws { ax_add_comm, ax_mul_comm, ax_add_0, ax_mul_1, ax_mul_0, ax_sub }
}
use field::*;
broadcast use field::ring_laws;

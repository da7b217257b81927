// ---- constraint systems ----
pub enum SynthesisError { AssignmentMissing, DivisionByZero, Unsatisfiable, PolynomialDegreeTooLarge, UnexpectedIdentity, MalformedVerifyingKey, UnconstrainedVariable }
pub open spec fn b2f(b: bool) -> F { if b { f1() } else { f0() } }
pub open spec fn f2b(x: F) -> bool { x == f1() }
pub open spec fn one_var() -> Variable { Variable(Index::Input(0)) }
// assignments of interest give the constant one its value
pub open spec fn wf(w: Asg) -> bool { w(one_var()) == f1() }
#[verifier::external_body]
pub struct CS { x: u8 }
impl CS {
    // which assignments satisfy the constraints stated so far; the values assigned so far; the
    // numbers of variables allocated so far; whether values are wanted
    pub uninterp spec fn sat(&self, w: Asg) -> bool;
    pub uninterp spec fn hon(&self) -> Asg;
    pub uninterp spec fn ni(&self) -> nat;
    pub uninterp spec fn na(&self) -> nat;
    pub uninterp spec fn prv(&self) -> bool;
    pub open spec fn has(&self, v: Variable) -> bool {
        match v.0 { Index::Input(i) => i < self.ni(), Index::Aux(i) => i < self.na() }
    }
    #[verifier::external_body]
    pub fn proving(&self) -> (r: bool) ensures r == self.prv() { unimplemented!() }
    #[verifier::external_body]
    pub fn one() -> (r: Variable) ensures r == one_var() { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc(&mut self, v: Option<F>) -> (r: Result<Variable, SynthesisError>)
        requires old(self).prv() ==> v is Some,
        ensures r is Ok ==> allocated(*old(self), *final(self), r->Ok_0, v) && final(self).ni() == old(self).ni() && final(self).na() == old(self).na() + 1
            && old(self).na() as usize == old(self).na() && r->Ok_0 == Variable(Index::Aux(old(self).na() as usize)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc_input(&mut self, v: Option<F>) -> (r: Result<Variable, SynthesisError>)
        requires old(self).prv() ==> v is Some,
        ensures r is Ok ==> allocated(*old(self), *final(self), r->Ok_0, v) && final(self).na() == old(self).na() && final(self).ni() == old(self).ni() + 1
            && old(self).ni() as usize == old(self).ni() && r->Ok_0 == Variable(Index::Input(old(self).ni() as usize)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn enforce(&mut self, a: LinearCombination, b: LinearCombination, c: LinearCombination)
        ensures final(self).hon() == old(self).hon(), final(self).ni() == old(self).ni(), final(self).na() == old(self).na(), final(self).prv() == old(self).prv(),
            forall|w: Asg| #[trigger] final(self).sat(w) == (old(self).sat(w) && fmul(a.val(w), b.val(w)) == c.val(w)),
    { unimplemented!() }
}
pub open spec fn allocated(o: CS, n: CS, x: Variable, v: Option<F>) -> bool {
    &&& x != one_var()
    &&& forall|u: Variable| u != x ==> #[trigger] (n.hon())(u) == (o.hon())(u)
    &&& v is Some ==> (n.hon())(x) == v->Some_0
    &&& n.prv() == o.prv()
    &&& forall|w: Asg| #[trigger] n.sat(w) == o.sat(w)
}
// constraints are only added, values only for new variables
pub open spec fn grows(o: CS, n: CS) -> bool {
    &&& n.prv() == o.prv()
    &&& o.ni() <= n.ni() && o.na() <= n.na()
    &&& forall|u: Variable| o.has(u) ==> #[trigger] (n.hon())(u) == (o.hon())(u)
    &&& forall|w: Asg| #[trigger] n.sat(w) ==> o.sat(w)
}
// w gives the variables allocated between o and n the values they were assigned
pub open spec fn follows(o: CS, n: CS, w: Asg) -> bool {
    forall|u: Variable| #![trigger w(u)] #![trigger n.has(u)] !o.has(u) && n.has(u) ==> w(u) == (n.hon())(u)
}
pub fn vres(r: Result<F, SynthesisError>) -> (o: Result<F, SynthesisError>) ensures o == r { r }

// ---- operators of the field and of machine integers (method form) ----
pub trait FOps: Sized { fn plus(self, r: F) -> F; fn minus(self, r: F) -> F; fn times(self, r: F) -> F; fn negate(self) -> F; }
impl FOps for F {
    fn plus(self, r: F) -> (o: F) ensures o == fadd(self, r) { self + r }
    fn minus(self, r: F) -> (o: F) ensures o == fsub(self, r) { self - r }
    fn times(self, r: F) -> (o: F) ensures o == fmul(self, r) { self * r }
    fn negate(self) -> (o: F) ensures o == fneg(self) { vneg(self) }
}
#[verifier::external_body]
pub fn vunwrap<T>(o: Option<T>) -> (r: T) ensures o == Some(r) { unimplemented!() }
// ---- field laws the constraints need (a field: no zero divisors) ----
pub axiom fn ax_field()
    ensures f0() != f1(), forall|a: F, b: F| #[trigger] fmul(a, b) == f0() ==> a == f0() || b == f0();
pub open spec fn laws() -> bool {
    &&& f0() != f1()
    &&& forall|a: F, b: F| #[trigger] fmul(a, b) == f0() ==> a == f0() || b == f0()
    &&& forall|x: F| #[trigger] fmul(m1(), x) == fneg(x)
    &&& fneg(f0()) == f0()
    &&& forall|x: F| #[trigger] fneg(fneg(x)) == x
    &&& forall|x: F| fadd(x, #[trigger] fneg(x)) == f0()
    &&& forall|a: F, b: F| fadd(#[trigger] fadd(a, fneg(b)), b) == a
    &&& forall|a: F, b: F| #[trigger] fadd(fadd(a, b), fneg(b)) == a
    &&& forall|a: F, c: F| #[trigger] fadd(a, c) == a ==> c == f0()
}
pub proof fn field_laws()
    ensures laws(),
{
    ax_field();
    lemma_neg_all();
    ax_neg(f0());
    assert forall|x: F| #[trigger] fneg(fneg(x)) == x by {
        ax_neg(x); ax_neg(fneg(x)); ax_add_assoc(x, fneg(x), fneg(fneg(x)));
    }
    assert forall|x: F| fadd(x, #[trigger] fneg(x)) == f0() by { ax_neg(x); }
    assert forall|a: F, b: F| fadd(#[trigger] fadd(a, fneg(b)), b) == a by { ax_add_assoc(a, fneg(b), b); ax_neg(b); }
    assert forall|a: F, b: F| #[trigger] fadd(fadd(a, b), fneg(b)) == a by { ax_add_assoc(a, b, fneg(b)); ax_neg(b); }
    assert forall|a: F, c: F| #[trigger] fadd(a, c) == a implies c == f0() by {
        ax_neg(a); ax_add_assoc(fneg(a), a, c);
        assert(fadd(fneg(a), fadd(a, c)) == f0());
    }
}

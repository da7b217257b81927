// ---- Rescue, as documented: 22 double rounds over three elements ----
pub const RESCUE_ROUNDS: usize = 22;
pub uninterp spec fn alph() -> Seq<u64>;
pub uninterp spec fn invalph() -> Seq<u64>;
#[verifier::external_body] pub fn valph() -> (r: &'static [u64]) ensures r@ == alph(), r.len() == 1 { unimplemented!() }
#[verifier::external_body] pub fn vinvalph() -> (r: &'static [u64]) ensures r@ == invalph(), r.len() == 4 { unimplemented!() }
pub struct RescueConstant { pub constants: Vec<Vec<F>>, pub mds: Vec<Vec<F>> }
pub open spec fn rc_ok(rc: RescueConstant) -> bool { m33(rc.mds@) && rc.constants.len() == 45 && forall|i: int| 0 <= i < 45 ==> (#[trigger] rc.constants[i]).len() == 3 }
pub uninterp spec fn rconsts() -> RescueConstant;
#[verifier::external_body] pub fn constants() -> (r: RescueConstant) ensures r == rconsts(), rc_ok(r) { unimplemented!() }
pub open spec fn addc(rc: RescueConstant, i: int) -> spec_fn(int, F) -> F { |t: int, x: F| fadd(x, rc.constants[i][t]) }
pub open spec fn half(i: int) -> nat { expo(if i % 2 == 1 { invalph() } else { alph() }) }
pub open spec fn powc(i: int) -> spec_fn(int, F) -> F { |t: int, x: F| fpow(x, half(i)) }
pub open spec fn rround(s: Seq<F>, rc: RescueConstant, i: int) -> Seq<F> { upto(addc(rc, i + 1), mixto(rc.mds@, upto(powc(i), s, 3), 3), 3) }
pub open spec fn rrun(s: Seq<F>, rc: RescueConstant, k: int) -> Seq<F>
    decreases k
{ if k <= 0 { s } else { rround(rrun(s, rc, k - 1), rc, k - 1) } }
pub open spec fn rblock(xl: F, xr: F, rc: RescueConstant) -> F { rrun(upto(addc(rc, 0), seq![xl, xr, f0()], 3), rc, 44)[0] }
pub open spec fn rchain(v: spec_fn(int) -> F, rc: RescueConstant, k: int) -> F
    decreases k
{ if k <= 0 { f0() } else { rblock(rchain(v, rc, k - 1), v(k - 1), rc) } }
pub open spec fn rhash(b: Seq<u8>, rc: RescueConstant) -> F { rchain(|i: int| hword(b, i), rc, nwords(b)) }
pub proof fn lemma_rlen(s: Seq<F>, rc: RescueConstant, k: int)
    ensures s.len() == 3 ==> rrun(s, rc, k).len() == 3,
    decreases k
{ if k > 0 { lemma_rlen(s, rc, k - 1); } }
pub struct AbstractHashRescueOutput { pub value: Option<F>, pub variable: Variable }
pub open spec fn frun(rc: RescueConstant, k: int) -> spec_fn(Seq<F>) -> Seq<F> { |s: Seq<F>| rrun(s, rc, k) }
// one more round
pub proof fn lemma_round(o: CS, m0: CS, m1: CS, m2: CS, n: CS, a: Seq<F>, s: Seq<Variable>, b: Seq<F>, t: Seq<Variable>, b1: Seq<F>, t1: Seq<Variable>, b2: Seq<F>, t2: Seq<Variable>, b3: Seq<F>, t3: Seq<Variable>, rc: RescueConstant, i: int)
    requires a.len() == 3, s.len() == 3, b.len() == 3, b1.len() == 3, b2.len() == 3, i >= 0,
        step_ok(o, m0, a, s, b, t, frun(rc, i)), step_ok(m0, m1, b, t, b1, t1, fupto(powc(i), 3)), step_ok(m1, m2, b1, t1, b2, t2, fmix(rc.mds@, 3)), step_ok(m2, n, b2, t2, b3, t3, fmapto(addc(rc, i + 1), 3)),
    ensures step_ok(o, n, a, s, b3, t3, frun(rc, i + 1)), b3.len() == 3, t3.len() == 3,
{
    let f1_ = |x: Seq<F>| mixto(rc.mds@, upto(powc(i), x, 3), 3);
    let f2_ = |x: Seq<F>| rround(x, rc, i);
    lemma_step_comp(m0, m1, m2, b, t, b1, t1, b2, t2, fupto(powc(i), 3), fmix(rc.mds@, 3), f1_);
    assert forall|x: Seq<F>| x.len() == 3 implies #[trigger] f2_(x) == fmapto(addc(rc, i + 1), 3)(f1_(x)) by { assert(f2_(x) =~= fmapto(addc(rc, i + 1), 3)(f1_(x))); }
    lemma_step_comp(m0, m2, n, b, t, b2, t2, b3, t3, f1_, fmapto(addc(rc, i + 1), 3), f2_);
    lemma_step_comp(o, m0, n, a, s, b, t, b3, t3, frun(rc, i), f2_, frun(rc, i + 1));
}

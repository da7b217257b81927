// ---- Poseidon as this library defines it: 91 rounds over three elements, round 4 a partial one ----
pub const RF: usize = 8;
pub const RP: usize = 83;
pub const POSEIDON_ROUNDS: usize = RF + RP;
pub uninterp spec fn alph() -> Seq<u64>;
#[verifier::external_body] pub fn valph() -> (r: &'static [u64]) ensures r@ == alph(), r.len() == 1 { unimplemented!() }
pub struct PoseidonConstant { pub ark: Vec<Vec<F>>, pub mds: Vec<Vec<F>> }
pub open spec fn pc_ok(rc: PoseidonConstant) -> bool { m33(rc.mds@) && rc.ark.len() == 91 && forall|i: int| 0 <= i < 91 ==> (#[trigger] rc.ark[i]).len() == 3 }
pub uninterp spec fn pconsts() -> PoseidonConstant;
#[verifier::external_body] pub fn constants() -> (r: PoseidonConstant) ensures r == pconsts(), pc_ok(r) { unimplemented!() }
pub open spec fn addc(rc: PoseidonConstant, i: int) -> spec_fn(int, F) -> F { |t: int, x: F| fadd(x, rc.ark[i][t]) }
pub open spec fn powc() -> spec_fn(int, F) -> F { |t: int, x: F| fpow(x, expo(alph())) }
pub open spec fn sbox(s: Seq<F>, i: int) -> Seq<F> { if i != 4 { upto(powc(), s, 3) } else { s.update(2, fpow(s[2], expo(alph()))) } }
pub open spec fn fsbox(i: int) -> spec_fn(Seq<F>) -> Seq<F> { |s: Seq<F>| sbox(s, i) }
pub open spec fn pround(s: Seq<F>, rc: PoseidonConstant, i: int) -> Seq<F> { mixto(rc.mds@, sbox(upto(addc(rc, i), s, 3), i), 3) }
pub open spec fn prun(s: Seq<F>, rc: PoseidonConstant, k: int) -> Seq<F>
    decreases k
{ if k <= 0 { s } else { pround(prun(s, rc, k - 1), rc, k - 1) } }
pub open spec fn pblock(xl: F, xr: F, rc: PoseidonConstant) -> F { prun(seq![xl, xr, f0()], rc, 91)[0] }
pub open spec fn pchain(v: spec_fn(int) -> F, rc: PoseidonConstant, k: int) -> F
    decreases k
{ if k <= 0 { f0() } else { pblock(pchain(v, rc, k - 1), v(k - 1), rc) } }
pub open spec fn phash(b: Seq<u8>, rc: PoseidonConstant) -> F { pchain(|i: int| hword(b, i), rc, nwords(b)) }
pub struct AbstractHashPoseidonOutput { pub value: Option<F>, pub variable: Variable }
pub open spec fn fprun(rc: PoseidonConstant, k: int) -> spec_fn(Seq<F>) -> Seq<F> { |s: Seq<F>| prun(s, rc, k) }
// one more round
pub proof fn lemma_round(o: CS, m0: CS, m1: CS, m2: CS, n: CS, a: Seq<F>, s: Seq<Variable>, b: Seq<F>, t: Seq<Variable>, b1: Seq<F>, t1: Seq<Variable>, b2: Seq<F>, t2: Seq<Variable>, b3: Seq<F>, t3: Seq<Variable>, rc: PoseidonConstant, i: int)
    requires a.len() == 3, s.len() == 3, b.len() == 3, b1.len() == 3, b2.len() == 3, i >= 0,
        step_ok(o, m0, a, s, b, t, fprun(rc, i)), step_ok(m0, m1, b, t, b1, t1, fupto(addc(rc, i), 3)), step_ok(m1, m2, b1, t1, b2, t2, fsbox(i)), step_ok(m2, n, b2, t2, b3, t3, fmix(rc.mds@, 3)),
    ensures step_ok(o, n, a, s, b3, t3, fprun(rc, i + 1)), b3.len() == 3, t3.len() == 3,
{
    let f1_ = |x: Seq<F>| sbox(upto(addc(rc, i), x, 3), i);
    let f2_ = |x: Seq<F>| pround(x, rc, i);
    lemma_step_comp(m0, m1, m2, b, t, b1, t1, b2, t2, fupto(addc(rc, i), 3), fsbox(i), f1_);
    lemma_step_comp(m0, m2, n, b, t, b2, t2, b3, t3, f1_, fmix(rc.mds@, 3), f2_);
    lemma_step_comp(o, m0, n, a, s, b, t, b3, t3, fprun(rc, i), f2_, fprun(rc, i + 1));
}

// ---- MiMC, as documented: 322 rounds (xl, xr) -> (xr + (xl + c)^3, xl) ----
pub const MIMC_ROUNDS: usize = 322;
pub uninterp spec fn mconsts() -> Seq<F>;
#[verifier::external_body] pub fn constants() -> (r: Vec<F>) ensures r@ == mconsts(), r.len() == 322 { unimplemented!() }
pub open spec fn mrun(xl: F, xr: F, c: Seq<F>, k: int) -> (F, F)
    decreases k
{
    if k <= 0 { (xl, xr) } else { let s = mrun(xl, xr, c, k - 1); let t = fadd(s.0, c[k - 1]); (fadd(fmul(fmul(t, t), t), s.1), s.0) }
}
pub open spec fn mblock(xl: F, xr: F, c: Seq<F>) -> F { mrun(xl, xr, c, 322).0 }
// absorbing words one after the other, from zero
pub open spec fn mchain(v: spec_fn(int) -> F, c: Seq<F>, k: int) -> F
    decreases k
{ if k <= 0 { f0() } else { mblock(mchain(v, c, k - 1), v(k - 1), c) } }
pub open spec fn mhash(b: Seq<u8>, c: Seq<F>) -> F { mchain(|i: int| hword(b, i), c, nwords(b)) }
pub struct AbstractHashMimcOutput { pub value: Option<F>, pub variable: Variable }
pub open spec fn block_ok(o: CS, n: CS, xl: (Option<F>, Variable), xr: (Option<F>, Variable), r: (Option<F>, Variable), f: spec_fn(F, F) -> F) -> bool {
    &&& grows(o, n)
    &&& forall|w: Asg| wf(w) && #[trigger] n.sat(w) ==> w(r.1) == f(w(xl.1), w(xr.1))
    &&& forall|w: Asg| wf(w) && #[trigger] o.sat(w) && follows(o, n, w) && rv(xl.0, xl.1, w) && rv(xr.0, xr.1, w) && o.prv() ==> n.sat(w) && rv(r.0, r.1, w)
    &&& xl.0 is Some && xr.0 is Some ==> r.0 == Some(f(xl.0->Some_0, xr.0->Some_0))
}

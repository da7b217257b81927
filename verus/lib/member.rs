// ---- an abstract hash: values and variables of one digest; any deterministic function of the two digests ----
#[verifier::external_body]
pub struct HOut { x: u8 }
impl HOut {
    pub uninterp spec fn vars(self) -> Seq<Variable>;
    pub uninterp spec fn vals(self) -> Seq<Option<F>>;
    #[verifier::external_body] pub fn get_variables(&self) -> (r: Vec<Variable>) ensures r@ == self.vars() { unimplemented!() }
    #[verifier::external_body] pub fn get_variable_values(&self) -> (r: Vec<Option<F>>) ensures r@ == self.vals() { unimplemented!() }
}
pub trait VClone: Sized { fn vclone(&self) -> (r: Self) ensures r == *self; }
impl VClone for HOut { #[verifier::external_body] fn vclone(&self) -> (r: HOut) { unimplemented!() } }
impl VClone for u32 { fn vclone(&self) -> (r: u32) { *self } }
impl VClone for Vec<Option<F>> { #[verifier::external_body] fn vclone(&self) -> (r: Vec<Option<F>>) { unimplemented!() } }
pub uninterp spec fn hsh(l: Seq<F>, r: Seq<F>) -> Seq<F>;
pub uninterp spec fn hlen(l: nat, r: nat) -> nat;
pub open spec fn evs(v: Seq<Variable>, w: Asg) -> Seq<F> { Seq::new(v.len(), |i: int| w(v[i])) }
// the values the prover holds are those of the assignment
pub open spec fn hon(h: HOut, w: Asg) -> bool { h.vals().len() == h.vars().len() && forall|i: int| 0 <= i < h.vars().len() ==> h.vals()[i] == Some(w(#[trigger] h.vars()[i])) }
pub open spec fn shaped(h: HOut, cs: CS) -> bool { h.vals().len() == h.vars().len() && (cs.prv() ==> forall|i: int| 0 <= i < h.vars().len() ==> (#[trigger] h.vals()[i]) is Some) }
#[verifier::external_body]
pub fn vhash(cs: &mut CS, p: &[&HOut]) -> (ret: Result<HOut, SynthesisError>)
    requires p.len() == 2,
    ensures ret is Ok ==> grows(*old(cs), *final(cs)) && shaped(ret->Ok_0, *final(cs)),
        ret is Ok ==> ret->Ok_0.vars().len() == hlen(p[0].vars().len(), p[1].vars().len()),
        ret is Ok ==> forall|w: Asg| wf(w) && #[trigger] final(cs).sat(w) ==> evs(ret->Ok_0.vars(), w) == hsh(evs(p[0].vars(), w), evs(p[1].vars(), w)),
        ret is Ok ==> forall|w: Asg| wf(w) && #[trigger] old(cs).sat(w) && follows(*old(cs), *final(cs), w) && hon(*p[0], w) && hon(*p[1], w) && old(cs).prv() ==> final(cs).sat(w) && hon(ret->Ok_0, w),
{ unimplemented!() }
pub struct MerkleProofGadget { pub index: u32, pub lemmas: Vec<HOut> }
pub struct HIter<'a> { pub s: &'a Vec<HOut>, pub pos: usize }
pub fn hiter<'a>(s: &'a Vec<HOut>) -> (r: HIter<'a>) ensures r.s == s, r.pos == 0 { HIter { s, pos: 0 } }
impl<'a> HIter<'a> {
    pub fn enumerate(self) -> (r: Self) ensures r == self { self }
    pub fn next(&mut self) -> (r: Option<(usize, &'a HOut)>)
        requires old(self).pos <= old(self).s.len(),
        ensures final(self).s == old(self).s, final(self).pos <= final(self).s.len(),
            old(self).pos < old(self).s.len() ==> r is Some && *r->Some_0.1 == old(self).s[old(self).pos as int] && final(self).pos == old(self).pos + 1,
            old(self).pos == old(self).s.len() ==> r is None && final(self).pos == old(self).pos,
    {
        if self.pos < self.s.len() { let i = self.pos; self.pos = i + 1; Some((i, &self.s[i])) } else { None }
    }
}
// what the lemmas from position p on make of cur
pub open spec fn hclimb(cur: Seq<F>, i: int, lem: Seq<HOut>, p: int, w: Asg) -> Option<Seq<F>>
    decreases lem.len() - p
{
    if p >= lem.len() { if i == 0 { Some(cur) } else { None } }
    else if i == 0 { None }
    else { let s = evs(lem[p].vars(), w); hclimb(if i % 2 == 1 { hsh(cur, s) } else { hsh(s, cur) }, par(i), lem, p + 1, w) }
}
pub open spec fn hshaped(lem: Seq<HOut>, cs: CS) -> bool { forall|i: int| 0 <= i < lem.len() ==> shaped(#[trigger] lem[i], cs) }
pub open spec fn hhon(lem: Seq<HOut>, w: Asg) -> bool { forall|i: int| 0 <= i < lem.len() ==> hon(#[trigger] lem[i], w) }
pub open spec fn sib(i: int) -> int { if i == 0 { 0 } else if i % 2 == 1 { i + 1 } else { i - 1 } }
pub open spec fn par(i: int) -> int { if i <= 0 { 0 } else { (i - 1) / 2 } }
pub proof fn lemma_follows(o: CS, m: CS, n: CS, w: Asg)
    requires grows(o, m), grows(m, n), follows(o, n, w),
    ensures follows(o, m, w), follows(m, n, w),
{
    assert forall|u: Variable| !o.has(u) && m.has(u) implies #[trigger] w(u) == (m.hon())(u) by { assert(n.has(u)); }
}

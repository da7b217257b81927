// ---- the curve crate: prime-order groups by discrete logarithm (G1, G2 and the prepared forms share one type here: rustc keeps them apart) ----
#[verifier::external_body]
pub struct G1 { x: u8 }
impl Clone for G1 { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for G1 {}
impl G1 {
    pub uninterp spec fn lg(self) -> F;
    #[verifier::external_body] pub fn mul(self, c: F) -> (r: G1) ensures r.lg() == fmul(self.lg(), c) { unimplemented!() }
    #[verifier::external_body] pub fn neg(self) -> (r: G1) ensures r.lg() == fneg(self.lg()) { unimplemented!() }
    #[verifier::external_body] pub fn into_affine(self) -> (r: G1) ensures r.lg() == self.lg() { unimplemented!() }
    #[verifier::external_body] pub fn into_projective(self) -> (r: G1) ensures r.lg() == self.lg() { unimplemented!() }
    #[verifier::external_body] pub fn vinto(self) -> (r: G1) ensures r.lg() == self.lg() { unimplemented!() }
    #[verifier::external_body] pub fn zero() -> (r: G1) ensures r.lg() == f0() { unimplemented!() }
    #[verifier::external_body] pub fn rand(rng: &mut Rng) -> (r: G1) { unimplemented!() }
    #[verifier::external_body] pub fn add_assign(&mut self, o: &G1) ensures final(self).lg() == fadd(old(self).lg(), o.lg()) { unimplemented!() }
    #[verifier::external_body] pub fn add_assign_mixed(&mut self, o: &G1) ensures final(self).lg() == fadd(old(self).lg(), o.lg()) { unimplemented!() }
}
impl vstd::std_specs::ops::AddSpecImpl<G1> for G1 {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: G1) -> bool { true }
    uninterp spec fn add_spec(self, o: G1) -> G1;
}
impl core::ops::Add<G1> for G1 { type Output = G1; #[verifier::external_body] fn add(self, o: G1) -> (r: G1) ensures r.lg() == fadd(self.lg(), o.lg()) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<G1> for G1 {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: G1) -> bool { true }
    uninterp spec fn sub_spec(self, o: G1) -> G1;
}
impl core::ops::Sub<G1> for G1 { type Output = G1; #[verifier::external_body] fn sub(self, o: G1) -> (r: G1) ensures r.lg() == fsub(self.lg(), o.lg()) { unimplemented!() } }
pub open spec fn lgs(g: Seq<G1>) -> Seq<F> { Seq::new(g.len(), |i: int| g[i].lg()) }
pub open spec fn mn(a: int, b: int) -> int { if a <= b { a } else { b } }
// VariableBaseMSM: the sum over the shorter list
#[verifier::external_body]
pub fn vbmsm(b: &[G1], e: &[F]) -> (r: G1)
    ensures r.lg() == vsum(term(lgs(b@), e@), mn(b.len() as int, e.len() as int)),
{ unimplemented!() }
// FixedBaseMSM: the table must be for the whole scalar and used with its own window
pub uninterp spec fn scalar_bits_of() -> int;
#[verifier::external_body]
pub fn size_in_bits() -> (r: usize) ensures r == scalar_bits_of() { unimplemented!() }
#[verifier::external_body]
pub struct Table { x: u8 }
impl Table {
    pub uninterp spec fn base(self) -> F;
    pub uninterp spec fn window(self) -> int;
}
#[verifier::external_body]
pub fn window_size(n: usize) -> (r: usize) { unimplemented!() }
#[verifier::external_body]
pub fn window_table(bits: usize, window: usize, g: G1) -> (r: Table)
    requires bits == scalar_bits_of(),
    ensures r.base() == g.lg(), r.window() == window,
{ unimplemented!() }
#[verifier::external_body]
pub fn fixed_msm(bits: usize, window: usize, t: &Table, v: &Vec<F>) -> (r: Vec<G1>)
    requires bits == scalar_bits_of(), window == t.window(),
    ensures r.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] r[i]).lg() == fmul(t.base(), v[i]),
{ unimplemented!() }
#[verifier::external_body]
pub fn vbatch(v: &mut Vec<G1>)
    ensures final(v).len() == old(v).len(), forall|i: int| 0 <= i < old(v).len() ==> (#[trigger] final(v)[i]).lg() == old(v)[i].lg(),
{ unimplemented!() }
// the target group, and the pairing: bilinear, not degenerate
#[verifier::external_body]
pub struct GT { x: u8 }
impl GT { pub uninterp spec fn lg(self) -> F; }
impl Clone for GT { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for GT {}
impl vstd::std_specs::cmp::PartialEqSpecImpl<GT> for GT {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &GT) -> bool { self.lg() == o.lg() }
}
impl PartialEq for GT { #[verifier::external_body] fn eq(&self, o: &GT) -> bool { unimplemented!() } }
#[verifier::external_body]
pub fn pairing(a: G1, b: G1) -> (r: GT) ensures r.lg() == fmul(a.lg(), b.lg()) { unimplemented!() }
#[verifier::external_body]
pub struct Miller { x: u8 }
impl Miller { pub uninterp spec fn lg(self) -> F; }
pub open spec fn pairs(s: Seq<(G1, G1)>) -> F { vsum(|i: int| fmul(s[i].0.lg(), s[i].1.lg()), s.len() as int) }
#[verifier::external_body]
pub fn miller_loop<const N: usize>(s: &[(G1, G1); N]) -> (r: Miller) ensures r.lg() == pairs(s@) { unimplemented!() }
#[verifier::external_body]
pub fn final_exponentiation(m: &Miller) -> (r: Option<GT>) ensures r is Some, r->Some_0.lg() == m.lg() { unimplemented!() }
// the inverse of a field element
pub uninterp spec fn finv(x: F) -> F;
pub axiom fn ax_inv(x: F) requires x != f0(), ensures fmul(x, finv(x)) == f1();
impl F {
    #[verifier::external_body] pub fn inverse(&self) -> (r: Option<F>) ensures r == (if *self == f0() { None } else { Some(finv(*self)) }) { unimplemented!() }
    pub fn vinto(self) -> (r: F) ensures r == self { self }
    pub fn into_repr(self) -> (r: F) ensures r == self { self }
    #[verifier::external_body] pub fn vpow(&self, e: [u64; 1]) -> (r: F) ensures r == fpow(*self, e[0] as int) { unimplemented!() }
}
pub trait VCl: Sized { fn vcl(&self) -> (r: Self) ensures r == *self; }
impl VCl for G1 { fn vcl(&self) -> (r: G1) { *self } }
impl<T> VCl for Vec<T> { #[verifier::external_body] fn vcl(&self) -> (r: Vec<T>) { unimplemented!() } }
impl VCl for VerifyKey { #[verifier::external_body] fn vcl(&self) -> (r: VerifyKey) { unimplemented!() } }
#[verifier::external_body]
pub fn vto_vec<T: Copy>(s: &[T]) -> (r: Vec<T>) ensures r@ == s@ { unimplemented!() }
// ---- the structures of groth16 ----
pub struct Proof { pub a: G1, pub b: G1, pub c: G1 }
pub struct VerifyKey { pub alpha_g1: G1, pub beta_g2: G1, pub gamma_g2: G1, pub delta_g2: G1, pub gamma_abc_g1: Vec<G1> }
pub struct Parameters { pub vk: VerifyKey, pub beta_g1: G1, pub delta_g1: G1, pub a_query: Vec<G1>, pub b_g1_query: Vec<G1>, pub b_g2_query: Vec<G1>, pub h_query: Vec<G1>, pub l_query: Vec<G1> }
pub struct PreparedVerifyingKey { pub vk: VerifyKey, pub alpha_g1_beta_g2: GT, pub gamma_g2_neg_pc: G1, pub delta_g2_neg_pc: G1, pub gamma_abc_g1: Vec<G1> }
// the verifier's input combination
pub open spec fn ic(g: Seq<F>, x: Seq<F>, n: int) -> F { fadd(g[0], vsum(|i: int| fmul(g[i + 1], x[i]), n)) }
pub open spec fn pvk_ok(p: PreparedVerifyingKey, vk: VerifyKey) -> bool {
    &&& p.alpha_g1_beta_g2.lg() == fmul(vk.alpha_g1.lg(), vk.beta_g2.lg())
    &&& p.gamma_g2_neg_pc.lg() == fneg(vk.gamma_g2.lg()) && p.delta_g2_neg_pc.lg() == fneg(vk.delta_g2.lg()) && p.gamma_abc_g1 == vk.gamma_abc_g1
}
pub open spec fn g16_eq(p: PreparedVerifyingKey, pr: Proof, x: Seq<F>) -> bool {
    fadd(fadd(fmul(pr.a.lg(), pr.b.lg()), fmul(ic(lgs(p.gamma_abc_g1@), x, x.len() as int), p.gamma_g2_neg_pc.lg())), fmul(pr.c.lg(), p.delta_g2_neg_pc.lg())) == p.alpha_g1_beta_g2.lg()
}
pub open spec fn pairs3(s: Seq<(G1, G1)>) -> F { fadd(fadd(fmul(s[0].0.lg(), s[0].1.lg()), fmul(s[1].0.lg(), s[1].1.lg())), fmul(s[2].0.lg(), s[2].1.lg())) }
pub proof fn lemma_pairs3(s: Seq<(G1, G1)>)
    requires s.len() == 3,
    ensures pairs(s) == pairs3(s),
{ let f = |i: int| fmul(s[i].0.lg(), s[i].1.lg()); assert(vsum(f, 3) == fadd(vsum(f, 2), f(2)) && vsum(f, 2) == fadd(vsum(f, 1), f(1)) && vsum(f, 1) == fadd(vsum(f, 0), f(0))); }
// what the generator makes: alpha, beta, gamma, delta, t and the generators g, h are the trapdoor
pub open spec fn mix(al: F, be: F, a: F, b: F, c: F) -> F { fadd(fadd(fmul(be, a), fmul(al, b)), c) }
pub open spec fn scaled(q: Seq<G1>, g: F, v: Seq<F>) -> bool { q.len() == v.len() && forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).lg() == fmul(g, v[i]) }
pub open spec fn dom_of(cc: Circ) -> int { dsize(cc.at().len() as int + cc.ni()) }
pub open spec fn cols_ok(cc: Circ, t: F, a: Seq<F>, b: Seq<F>, c: Seq<F>) -> bool {
    let (u, n, ni) = (lags(dom_of(cc), t), cc.at().len() as int, cc.ni());
    &&& a.len() == cc.z().len() && b.len() == a.len() && c.len() == a.len() && n + ni <= dom_of(cc) <= 0x1_0000_0000_0000
    &&& forall|z: Seq<F>| #[trigger] dot(a, z) == fadd(inp(u, n, z, ni), upto(cc.at(), u, z, ni, n))
    &&& forall|z: Seq<F>| #[trigger] dot(b, z) == upto(cc.bt(), u, z, ni, n)
    &&& forall|z: Seq<F>| #[trigger] dot(c, z) == upto(cc.ct(), u, z, ni, n)
}
pub open spec fn params_are(cc: Circ, al: F, be: F, ga: F, de: F, t: F, g: F, h: F, a: Seq<F>, b: Seq<F>, c: Seq<F>, p: Parameters) -> bool {
    let ni = cc.ni();
    &&& cc.ok() && cols_ok(cc, t, a, b, c) && ga != f0() && de != f0()
    &&& p.vk.alpha_g1.lg() == fmul(g, al) && p.vk.beta_g2.lg() == fmul(h, be) && p.vk.gamma_g2.lg() == fmul(h, ga) && p.vk.delta_g2.lg() == fmul(h, de)
    &&& p.beta_g1.lg() == fmul(g, be) && p.delta_g1.lg() == fmul(g, de)
    &&& scaled(p.a_query@, g, a) && scaled(p.b_g1_query@, g, b) && scaled(p.b_g2_query@, h, b)
    &&& p.vk.gamma_abc_g1.len() == ni && forall|i: int| 0 <= i < ni ==> (#[trigger] p.vk.gamma_abc_g1[i]).lg() == fmul(g, fmul(mix(al, be, a[i], b[i], c[i]), finv(ga)))
    &&& p.l_query.len() == a.len() - ni && forall|i: int| 0 <= i < a.len() - ni ==> (#[trigger] p.l_query[i]).lg() == fmul(g, fmul(mix(al, be, a[ni + i], b[ni + i], c[ni + i]), finv(de)))
    &&& p.h_query.len() == dom_of(cc) - 1 && forall|i: int| 0 <= i < dom_of(cc) - 1 ==> (#[trigger] p.h_query[i]).lg() == fmul(g, fmul(fmul(van(dom_of(cc), t), finv(de)), fpow(t, i)))
}
pub open spec fn params_ok(cc: Circ, al: F, be: F, ga: F, de: F, p: Parameters) -> bool {
    exists|t: F, g: F, h: F, a: Seq<F>, b: Seq<F>, c: Seq<F>| #[trigger] params_are(cc, al, be, ga, de, t, g, h, a, b, c, p)
}
// what the prover makes
pub open spec fn msm_of(q: Seq<G1>, e: Seq<F>) -> F { vsum(term(lgs(q), e), mn(q.len() as int, e.len() as int)) }
pub open spec fn coeff_of(initial: F, q: Seq<G1>, vk: F, e: Seq<F>) -> F { fadd(fadd(fadd(initial, q[0].lg()), msm_of(q.subrange(1, q.len() as int), e)), vk) }
pub open spec fn pa_of(cc: Circ, p: ProvingAssignment) -> bool {
    p.input_assignment@ == seq![f1()] + cc.x() && p.aux_assignment@ == cc.w() && p.at@ == cc.at() && p.bt@ == cc.bt() && p.ct@ == cc.ct()
}
pub open spec fn quot_of(cc: Circ) -> Seq<F> { quot(dom_of(cc), cwit_a(cc, dom_of(cc)), rowsv(cc.bt(), cc.z(), cc.ni(), dom_of(cc)), rowsv(cc.ct(), cc.z(), cc.ni(), dom_of(cc))) }
pub open spec fn cwit_a(cc: Circ, len: int) -> Seq<F> {
    Seq::new(len as nat, |i: int| if i < cc.at().len() { rowv(cc.at()[i]@, cc.z(), cc.ni()) } else if i < cc.at().len() + cc.ni() { cc.z()[i - cc.at().len()] } else { f0() })
}
pub open spec fn proof_is(cc: Circ, p: Parameters, r: F, s: F, pr: Proof) -> bool {
    let e = cc.x() + cc.w();
    let b1 = coeff_of(fmul(p.delta_g1.lg(), s), p.b_g1_query@, p.beta_g1.lg(), e);
    &&& cc.ok()
    &&& pr.a.lg() == coeff_of(fmul(p.delta_g1.lg(), r), p.a_query@, p.vk.alpha_g1.lg(), e)
    &&& pr.b.lg() == coeff_of(fmul(p.vk.delta_g2.lg(), s), p.b_g2_query@, p.vk.beta_g2.lg(), e)
    &&& pr.c.lg() == fadd(fadd(fsub(fadd(fmul(pr.a.lg(), s), fmul(b1, r)), fmul(fmul(p.delta_g1.lg(), r), s)), msm_of(p.l_query@, cc.w())), msm_of(p.h_query@, quot_of(cc)))
}

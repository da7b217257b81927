// ---- the curve crate: prime-order groups by discrete logarithm (G1 and G2 share one type here: rustc keeps them apart) ----
#[verifier::external_body]
pub struct G1 { x: u8 }
impl Clone for G1 { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for G1 {}
impl G1 {
    pub uninterp spec fn lg(self) -> F;
    #[verifier::external_body] pub fn mul(self, c: F) -> (r: G1) ensures r.lg() == fmul(self.lg(), c) { unimplemented!() }
    #[verifier::external_body] pub fn add(self, o: &G1) -> (r: G1) ensures r.lg() == fadd(self.lg(), o.lg()) { unimplemented!() }
    #[verifier::external_body] pub fn sub(self, o: &G1) -> (r: G1) ensures r.lg() == fsub(self.lg(), o.lg()) { unimplemented!() }
    #[verifier::external_body] pub fn neg(self) -> (r: G1) ensures r.lg() == fneg(self.lg()) { unimplemented!() }
    #[verifier::external_body] pub fn into_affine(self) -> (r: G1) ensures r.lg() == self.lg() { unimplemented!() }
    #[verifier::external_body] pub fn into_projective(self) -> (r: G1) ensures r.lg() == self.lg() { unimplemented!() }
    #[verifier::external_body] pub fn zero() -> (r: G1) ensures r.lg() == f0() { unimplemented!() }
    #[verifier::external_body] pub fn rand(rng: &mut Rng) -> (r: G1) { unimplemented!() }
    #[verifier::external_body] pub fn add_assign(&mut self, o: &G1) ensures final(self).lg() == fadd(old(self).lg(), o.lg()) { unimplemented!() }
    #[verifier::external_body] pub fn sub_assign(&mut self, o: &G1) ensures final(self).lg() == fsub(old(self).lg(), o.lg()) { unimplemented!() }
}
#[verifier::external_body]
pub struct Rng { x: u8 }
#[verifier::external_body]
pub struct GT { x: u8 }
impl GT { pub uninterp spec fn lg(self) -> F; }
impl Clone for GT { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for GT {}
impl vstd::std_specs::cmp::PartialEqSpecImpl<GT> for GT {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &GT) -> bool { self.lg() == o.lg() }
}
impl PartialEq for GT { #[verifier::external_body] fn eq(&self, o: &GT) -> bool { unimplemented!() } }
#[verifier::external_body]
pub fn pairing(a: G1, b: G1) -> (r: GT) ensures r.lg() == fmul(a.lg(), b.lg()) { unimplemented!() }
pub open spec fn lgs(g: Seq<G1>) -> Seq<F> { Seq::new(g.len(), |i: int| g[i].lg()) }
pub open spec fn mn(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn term(a: Seq<F>, b: Seq<F>) -> spec_fn(int) -> F { |i: int| fmul(a[i], b[i]) }
// VariableBaseMSM: the sum over the shorter list
#[verifier::external_body]
pub fn vbmsm(b: &[G1], e: &[F]) -> (r: G1)
    ensures r.lg() == vsum(term(lgs(b@), e@), mn(b.len() as int, e.len() as int)),
{ unimplemented!() }
// FixedBaseMSM: the table must be for the whole scalar and used with its own window
pub uninterp spec fn scalar_bits_of() -> int;
#[verifier::external_body]
pub fn size_in_bits() -> (r: usize) ensures r == scalar_bits_of() { unimplemented!() }
#[verifier::external_body]
pub struct Table { x: u8 }
impl Table {
    pub uninterp spec fn base(self) -> F;
    pub uninterp spec fn window(self) -> int;
}
#[verifier::external_body]
pub fn window_size(n: usize) -> (r: usize) { unimplemented!() }
#[verifier::external_body]
pub fn window_table(bits: usize, window: usize, g: G1) -> (r: Table)
    requires bits == scalar_bits_of(),
    ensures r.base() == g.lg(), r.window() == window,
{ unimplemented!() }
#[verifier::external_body]
pub fn fixed_msm(bits: usize, window: usize, t: &Table, v: &Vec<F>) -> (r: Vec<G1>)
    requires bits == scalar_bits_of(), window == t.window(),
    ensures r.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] r[i]).lg() == fmul(t.base(), v[i]),
{ unimplemented!() }
#[verifier::external_body]
pub fn vaffine(v: &mut Vec<G1>) -> (r: Vec<G1>)
    ensures r.len() == old(v).len(), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).lg() == old(v)[i].lg(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vclone_g(v: &Vec<G1>) -> (r: Vec<G1>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
pub fn vclone_f(v: &Vec<F>) -> (r: Vec<F>) ensures r@ == v@ { unimplemented!() }
// ---- the field ----
pub uninterp spec fn finv(x: F) -> F;
pub axiom fn ax_inv(x: F) requires x != f0(), ensures fmul(x, finv(x)) == f1();
pub axiom fn ax_nontriv() ensures f0() != f1();
pub uninterp spec fn fnat(n: int) -> F;
pub open spec fn fpow(x: F, n: int) -> F
    decreases n
{ if n <= 0 { f1() } else { fmul(fpow(x, n - 1), x) } }
pub open spec fn fdiv(a: F, b: F) -> F { fmul(a, finv(b)) }
impl F {
    // division by zero panics
    #[verifier::external_body] pub fn div(self, o: &F) -> (r: F) ensures *o != f0(), r == fdiv(self, *o) { unimplemented!() }
    #[verifier::external_body] pub fn sub(self, o: &F) -> (r: F) ensures r == fsub(self, *o) { unimplemented!() }
    #[verifier::external_body] pub fn mul_assign(&mut self, o: &F) ensures *final(self) == fmul(*old(self), *o) { unimplemented!() }
    #[verifier::external_body] pub fn vpow(&self, e: &[u64; 1]) -> (r: F) ensures r == fpow(*self, e[0] as int) { unimplemented!() }
    #[verifier::external_body] pub fn rand(rng: &mut Rng) -> (r: F) { unimplemented!() }
    pub fn into_repr(self) -> (r: F) ensures r == self { self }
}
#[verifier::external_body]
pub fn f_from_repr(n: u64) -> (r: Option<F>) ensures r is Some, r->Some_0 == fnat(n as int) { unimplemented!() }
pub trait VInto: Sized { fn vinto(self) -> (r: Self) ensures r == self; }
impl VInto for F { fn vinto(self) -> (r: F) { self } }
impl VInto for u64 { fn vinto(self) -> (r: u64) { self } }
impl VInto for Vec<F> { fn vinto(self) -> (r: Vec<F>) { self } }
#[verifier::external_body]
pub fn vcontains(s: &[u32], x: &u32) -> (r: bool) ensures r == exists|i: int| 0 <= i < s@.len() && #[trigger] s@[i] == *x { unimplemented!() }
#[verifier::external_body]
pub fn vunwrap<T>(o: Option<T>) -> (r: T) ensures o == Some(r) { o.unwrap() }
pub enum SynthesisError { AssignmentMissing, DivisionByZero, Unsatisfiable, PolynomialDegreeTooLarge, UnexpectedIdentity, MalformedVerifyingKey, UnconstrainedVariable }
pub fn vok_or<T>(o: Option<T>, e: SynthesisError) -> (r: Result<T, SynthesisError>) ensures r is Ok <==> o is Some, o is Some ==> r->Ok_0 == o->Some_0 { match o { Some(x) => Ok(x), None => Err(e) } }
// ---- polynomials: DensePolynomial is the ring F[X] (trusted) ----
#[verifier::external_body]
pub struct Pol { x: u8 }
pub uninterp spec fn dadd(a: Pol, b: Pol) -> Pol;
pub uninterp spec fn dmul(a: Pol, b: Pol) -> Pol;
pub uninterp spec fn dconst(c: F) -> Pol;
// X + c
pub uninterp spec fn dx(c: F) -> Pol;
pub open spec fn dlin(w: F) -> Pol { dx(fneg(w)) }
pub uninterp spec fn deval(p: Pol, x: F) -> F;
pub uninterp spec fn dpol(s: Seq<F>) -> Pol;
pub axiom fn ax_pmul_comm(a: Pol, b: Pol) ensures dmul(a, b) == dmul(b, a);
pub axiom fn ax_pmul_assoc(a: Pol, b: Pol, c: Pol) ensures dmul(dmul(a, b), c) == dmul(a, dmul(b, c));
pub broadcast axiom fn ax_padd_0(a: Pol) ensures #[trigger] dadd(a, dconst(f0())) == a;
pub broadcast axiom fn ax_eval_add(a: Pol, b: Pol, x: F) ensures #[trigger] deval(dadd(a, b), x) == fadd(deval(a, x), deval(b, x));
pub broadcast axiom fn ax_eval_mul(a: Pol, b: Pol, x: F) ensures #[trigger] deval(dmul(a, b), x) == fmul(deval(a, x), deval(b, x));
pub broadcast axiom fn ax_eval_c(c: F, x: F) ensures #[trigger] deval(dconst(c), x) == c;
pub broadcast axiom fn ax_eval_lin(w: F, x: F) ensures #[trigger] deval(dlin(w), x) == fsub(x, w);
pub axiom fn ax_pcancel(w: F, a: Pol, b: Pol) requires dmul(dlin(w), a) == dmul(dlin(w), b), ensures a == b;
pub open spec fn dterm(s: Seq<F>, x: F) -> spec_fn(int) -> F { |i: int| fmul(s[i], fpow(x, i)) }
pub axiom fn ax_pol_eval(s: Seq<F>, x: F) ensures deval(dpol(s), x) == vsum(dterm(s, x), s.len() as int);
pub broadcast axiom fn ax_pol_0(s: Seq<F>) requires s.len() == 0, ensures #[trigger] dpol(s) == dconst(f0());
pub broadcast axiom fn ax_pol_1(s: Seq<F>) requires s.len() == 1, ensures #[trigger] dpol(s) == dconst(s[0]);
pub broadcast axiom fn ax_pol_2(s: Seq<F>) requires s.len() == 2, s[1] == f1(), ensures #[trigger] dpol(s) == dx(s[0]);
pub open spec fn isrem(a: Seq<F>, b: Seq<F>, q: Seq<F>, r: Seq<F>) -> bool { dpol(a) == dadd(dmul(dpol(q), dpol(b)), dpol(r)) && r.len() < b.len() && q.len() <= a.len() && (a.len() >= b.len() ==> q.len() + b.len() <= a.len() + 1) && (a.len() < b.len() ==> q.len() == 0) }
pub broadcast group pol_laws { ax_padd_0, ax_eval_add, ax_eval_mul, ax_eval_c, ax_eval_lin, ax_pol_0, ax_pol_1, ax_pol_2 }
pub type DPoly = Vec<F>;
pub trait PolyOps: Sized {
    fn from_coefficients_vec(v: Vec<F>) -> (r: Vec<F>) ensures dpol(r@) == dpol(v@), r@.len() <= v@.len(), v@.len() > 0 && v@[v@.len() - 1] != f0() ==> r@ == v@;
    fn mul(&self, o: &Vec<F>) -> (r: Vec<F>);
    fn add(&self, o: Vec<F>) -> (r: Vec<F>);
    fn div(&self, o: &Vec<F>) -> (r: Vec<F>);
    fn evaluate(&self, x: &F) -> (r: F);
    fn divide_with_q_and_r(&self, o: &Vec<F>) -> (r: Option<(Vec<F>, Vec<F>)>);
}
impl PolyOps for Vec<F> {
    #[verifier::external_body] fn from_coefficients_vec(v: Vec<F>) -> (r: Vec<F>) { unimplemented!() }
    #[verifier::external_body] fn mul(&self, o: &Vec<F>) -> (r: Vec<F>)
        ensures dpol(r@) == dmul(dpol(self@), dpol(o@)), r@.len() == 0 || r@.len() + 1 <= self@.len() + o@.len() { unimplemented!() }
    #[verifier::external_body] fn add(&self, o: Vec<F>) -> (r: Vec<F>)
        ensures dpol(r@) == dadd(dpol(self@), dpol(o@)), r@.len() <= self@.len() || r@.len() <= o@.len() { unimplemented!() }
    #[verifier::external_body] fn div(&self, o: &Vec<F>) -> (r: Vec<F>)
        ensures exists|m: Seq<F>| #[trigger] isrem(self@, o@, r@, m) { unimplemented!() }
    #[verifier::external_body] fn evaluate(&self, x: &F) -> (r: F) ensures r == deval(dpol(self@), *x) { unimplemented!() }
    #[verifier::external_body] fn divide_with_q_and_r(&self, o: &Vec<F>) -> (r: Option<(Vec<F>, Vec<F>)>)
        ensures r is Some ==> isrem(self@, o@, r->Some_0.0@, r->Some_0.1@) { unimplemented!() }
}
// ---- the evaluation domain (trusted): roots of unity of order dsize(n) >= n ----
#[verifier::external_body]
pub struct Dom { x: u8 }
pub uninterp spec fn dsize(n: int) -> int;
pub uninterp spec fn dgen(m: int) -> F;
pub uninterp spec fn ifft(m: int, v: Seq<F>) -> Seq<F>;
impl Dom {
    pub uninterp spec fn m(self) -> int;
    #[verifier::external_body] pub fn new(n: usize) -> (r: Option<Dom>) ensures r is Some ==> n <= r->Some_0.m() <= 0x1_0000_0000_0000 && r->Some_0.m() >= 1 && r->Some_0.m() == dsize(n as int) { unimplemented!() }
    #[verifier::external_body] pub fn size(&self) -> (r: usize) ensures r == self.m() { unimplemented!() }
    #[verifier::external_body] pub fn ifft_in_place(&self, v: &mut Vec<F>) ensures final(v)@ == ifft(self.m(), old(v)@), final(v).len() == self.m() { unimplemented!() }
}
#[verifier::external_body]
pub fn group_gen(d: &Dom) -> (r: F) ensures r == dgen(d.m()) { unimplemented!() }
// ---- products over positions ----
pub open spec fn at(om: F, p: u32) -> F { fpow(om, p as int) }
pub open spec fn aprod(p: Seq<u32>, om: F, n: int) -> Pol
    decreases n
{ if n <= 0 { dconst(f1()) } else { dmul(aprod(p, om, n - 1), dlin(at(om, p[n - 1]))) } }
// without position i
pub open spec fn awo(p: Seq<u32>, om: F, i: int, n: int) -> Pol
    decreases n
{ if n <= 0 { dconst(f1()) } else if n - 1 == i { awo(p, om, i, n - 1) } else { dmul(awo(p, om, i, n - 1), dlin(at(om, p[n - 1]))) } }
pub open spec fn den(p: Seq<u32>, om: F, i: int) -> F { deval(awo(p, om, i, p.len() as int), at(om, p[i])) }
// the interpolant of the values at the positions
pub open spec fn interp(p: Seq<u32>, v: Seq<F>, om: F, n: int) -> Pol
    decreases n
{ if n <= 0 { dconst(f0()) } else { dadd(interp(p, v, om, n - 1), dmul(awo(p, om, n - 1, p.len() as int), dconst(fdiv(v[n - 1], den(p, om, n - 1))))) } }
pub proof fn lemma_awo_id(p: Seq<u32>, om: F, i: int, n: int)
    requires n <= i,
    ensures awo(p, om, i, n) == aprod(p, om, n),
    decreases n
{ if n > 0 { lemma_awo_id(p, om, i, n - 1); } }
pub proof fn lemma_awo(p: Seq<u32>, om: F, i: int, n: int)
    requires 0 <= i < n,
    ensures aprod(p, om, n) == dmul(dlin(at(om, p[i])), awo(p, om, i, n)), deval(aprod(p, om, n), at(om, p[i])) == f0(),
    decreases n
{
    broadcast use pol_laws;
    let l = dlin(at(om, p[i]));
    if n - 1 == i {
        lemma_awo_id(p, om, i, n - 1);
        ax_pmul_comm(aprod(p, om, n - 1), l);
    } else {
        lemma_awo(p, om, i, n - 1);
        ax_pmul_assoc(l, awo(p, om, i, n - 1), dlin(at(om, p[n - 1])));
    }
    ax_neg(at(om, p[i]));
}
// division of the product by one factor
pub proof fn lemma_quot(a: Seq<F>, b: Seq<F>, q: Seq<F>, p: Seq<u32>, om: F, i: int)
    requires 0 <= i < p.len(), dpol(a) == aprod(p, om, p.len() as int), dpol(b) == dlin(at(om, p[i])), b.len() <= 2, exists|m: Seq<F>| #[trigger] isrem(a, b, q, m),
    ensures dpol(q) == awo(p, om, i, p.len() as int),
{
    broadcast use pol_laws;
    let w = at(om, p[i]);
    let n = p.len() as int;
    let m = choose|m: Seq<F>| #[trigger] isrem(a, b, q, m);
    lemma_awo(p, om, i, n);
    let c = if m.len() == 0 { f0() } else { m[0] };
    assert(dpol(m) == dconst(c));
    ax_neg(w);
    assert(deval(dpol(a), w) == fadd(fmul(deval(dpol(q), w), f0()), c));
    assert(c == f0());
    ax_pmul_comm(dpol(q), dlin(w));
    ax_pcancel(w, dpol(q), awo(p, om, i, n));
}
// a list of distinct numbers below n has at most n elements
pub open spec fn distinct_to(p: Seq<u32>, k: int) -> bool { forall|i: int, j: int| 0 <= j < i < k ==> #[trigger] p[i] != #[trigger] p[j] }
pub proof fn lemma_pigeon(p: Seq<u32>, n: int)
    requires distinct_to(p, p.len() as int), forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]) < n, n >= 0,
    ensures p.len() <= n,
    decreases n
{
    if n == 0 { if p.len() > 0 { assert(p[0] < 0); } }
    else if exists|i: int| 0 <= i < p.len() && p[i] == n - 1 {
        let i = choose|i: int| 0 <= i < p.len() && p[i] == n - 1;
        let q = p.remove(i);
        assert forall|a: int, b: int| 0 <= b < a < q.len() implies #[trigger] q[a] != #[trigger] q[b] by { let a2 = if a < i { a } else { a + 1 }; let b2 = if b < i { b } else { b + 1 }; assert(p[a2] != p[b2]); }
        assert forall|a: int| 0 <= a < q.len() implies (#[trigger] q[a]) < n - 1 by { let a2 = if a < i { a } else { a + 1 }; assert(p[a2] < n); if a2 < i { assert(p[i] != p[a2]); } else { assert(p[a2] != p[i]); } }
        lemma_pigeon(q, n - 1);
    } else {
        assert forall|a: int| 0 <= a < p.len() implies (#[trigger] p[a]) < n - 1 by { assert(p[a] != n - 1); }
        lemma_pigeon(p, n - 1);
    }
}
// ---- the structures ----
pub struct Commitment { pub commit: G1 }
pub struct Proof { pub w: G1 }
impl Clone for Proof { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Proof {}
pub struct UpdateKey { pub ai: G1, pub ui: G1 }
pub struct ProvingKey { pub powers_of_g1: Vec<G1>, pub l_of_g1: Vec<G1>, pub update_keys: Vec<UpdateKey> }
pub struct VerificationKey { pub powers_of_g1: Vec<G1>, pub powers_of_g2: Vec<G1>, pub a: G1 }
pub struct Parameters { pub proving_key: ProvingKey, pub verification_key: VerificationKey }
// the powers of t over the base g
pub open spec fn powers(s: Seq<G1>, g: F, t: F) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).lg() == fmul(g, fpow(t, i)) }
pub open spec fn vk_of(vk: VerificationKey, g: F, h: F, t: F) -> bool { powers(vk.powers_of_g1@, g, t) && powers(vk.powers_of_g2@, h, t) && vk.powers_of_g1@.len() == vk.powers_of_g2@.len() }
// g^f(t) from the powers
pub proof fn lemma_msm(s: Seq<G1>, e: Seq<F>, g: F, t: F)
    requires powers(s, g, t), e.len() <= s.len(),
    ensures vsum(term(lgs(s), e), mn(s.len() as int, e.len() as int)) == fmul(g, deval(dpol(e), t)),
{
    let n = e.len() as int;
    ax_pol_eval(e, t);
    vsum_scale(g, dterm(e, t), n);
    let f = |i: int| fmul(g, dterm(e, t)(i));
    assert forall|i: int| 0 <= i < n implies #[trigger] term(lgs(s), e)(i) == f(i) by {
        assert(s[i].lg() == fmul(g, fpow(t, i)));
        ax_mul_assoc(g, fpow(t, i), e[i]);
    }
    vsum_cong(term(lgs(s), e), f, n);
}
pub open spec fn pos_ok(p: Seq<u32>, v: Seq<F>, n: int) -> bool { p.len() == v.len() && distinct_to(p, p.len() as int) && forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]) < n }
// e(C / g^R(t), h) = e(w, h^A(t))
pub open spec fn pos_eq(c: F, w: F, p: Seq<u32>, v: Seq<F>, om: F, g: F, h: F, t: F) -> bool {
    fmul(fsub(c, fmul(g, deval(interp(p, v, om, p.len() as int), t))), h) == fmul(w, fmul(h, deval(aprod(p, om, p.len() as int), t)))
}
// 1 / A'(w^i)
pub open spec fn ladj(om: F, i: u32, n: int) -> F { fdiv(at(om, i), fnat(n)) }
// e(a_i, g^t/g^(w^i)) = e(a, g) and e(l_i/g, g) = e(u_i, g^t/g^(w^i)) with l_i = a_i^(w^i/n)
pub open spec fn upk_eq(vk: VerificationKey, i: u32, u: UpdateKey, om: F) -> bool {
    let n = vk.powers_of_g1@.len() - 1;
    let d = fsub(vk.powers_of_g2@[1].lg(), fmul(vk.powers_of_g2@[0].lg(), at(om, i)));
    &&& i < n
    &&& fmul(u.ai.lg(), d) == fmul(vk.a.lg(), vk.powers_of_g2@[0].lg())
    &&& fmul(fsub(fmul(u.ai.lg(), ladj(om, i, n)), vk.powers_of_g1@[0].lg()), vk.powers_of_g2@[0].lg()) == fmul(u.ui.lg(), d)
}
pub open spec fn uproof(w: F, delta: F, i: u32, j: u32, ui: UpdateKey, uj: UpdateKey, om: F, n: int) -> F {
    if i == j { fadd(w, fmul(ui.ui.lg(), delta)) } else {
        let c1 = fdiv(f1(), fsub(at(om, j), at(om, i)));
        let c2 = fdiv(f1(), fsub(at(om, i), at(om, j)));
        fadd(w, fmul(fmul(fadd(fmul(uj.ai.lg(), c1), fmul(ui.ai.lg(), c2)), ladj(om, j, n)), delta))
    }
}
pub open spec fn agg(p: Seq<u32>, q: Seq<Proof>, om: F, n: int) -> F
    decreases n
{ if n <= 0 { f0() } else { fadd(agg(p, q, om, n - 1), fmul(q[n - 1].w.lg(), fdiv(f1(), den(p, om, n - 1)))) } }
// w = g^q(t) for a quotient q of the interpolant of the values by the product over the positions
pub open spec fn opened(m: int, v: Seq<F>, p: Seq<u32>, w: F, g: F, t: F) -> bool {
    exists|q: Seq<F>, r: Seq<F>| dpol(ifft(m, v)) == dadd(#[trigger] dmul(dpol(q), aprod(p, dgen(m), p.len() as int)), #[trigger] dpol(r)) && r.len() <= p.len() && w == fmul(g, deval(dpol(q), t))
}
// L_i(t) = (t^m - 1)/(t - w^i) * w^i/m
pub open spec fn aval(m: int, i: int, t: F) -> F { fmul(fsub(fpow(t, m), f1()), fdiv(f1(), fsub(t, fpow(dgen(m), i)))) }
pub open spec fn lval(m: int, i: int, t: F) -> F { fmul(aval(m, i, t), fdiv(fpow(dgen(m), i), fnat(m))) }
pub open spec fn upk_is(u: UpdateKey, i: int, m: int, g: F, t: F) -> bool {
    u.ai.lg() == fmul(g, aval(m, i, t)) && u.ui.lg() == fmul(fsub(fmul(g, lval(m, i, t)), g), fdiv(f1(), fsub(t, fpow(dgen(m), i))))
}
pub open spec fn keys_of(p: Parameters, m: int, g: F, h: F, t: F) -> bool {
    let (pk, vk) = (p.proving_key, p.verification_key);
    &&& powers(pk.powers_of_g1@, g, t) && powers(vk.powers_of_g1@, g, t) && powers(vk.powers_of_g2@, h, t)
    &&& pk.powers_of_g1@.len() == m + 1 && vk.powers_of_g1@.len() == m + 1 && vk.powers_of_g2@.len() == m + 1
    &&& vk.a.lg() == fmul(g, fsub(fpow(t, m), f1()))
    &&& pk.l_of_g1@.len() == m && pk.update_keys@.len() == m
    &&& forall|i: int| 0 <= i < m ==> (#[trigger] pk.l_of_g1@[i]).lg() == fmul(g, lval(m, i, t))
    &&& forall|i: int| 0 <= i < m ==> upk_is(#[trigger] pk.update_keys@[i], i, m, g, t)
    &&& forall|i: int| 0 <= i < m ==> t != #[trigger] fpow(dgen(m), i)
}

// ---- the theorems over these contracts ----
// the domain: the m-th roots of unity are distinct, the inverse transform interpolates over them (trusted)
pub open spec fn isdom(m: int) -> bool { dsize(m) == m && m >= 1 }
pub axiom fn ax_roots(m: int, i: int, j: int) requires isdom(m), 0 <= i < m, 0 <= j < m, i != j, ensures fpow(dgen(m), i) != fpow(dgen(m), j);
pub open spec fn vat(v: Seq<F>, i: int) -> F { if 0 <= i < v.len() { v[i] } else { f0() } }
pub axiom fn ax_ifft(m: int, v: Seq<F>, i: int)
    requires isdom(m), v.len() <= m, 0 <= i < m,
    ensures deval(dpol(ifft(m, v)), fpow(dgen(m), i)) == vat(v, i);
// the barycentric form of the same interpolant
pub axiom fn ax_lagrange(m: int, v: Seq<F>, t: F)
    requires isdom(m), v.len() <= m, forall|i: int| 0 <= i < m ==> t != #[trigger] fpow(dgen(m), i),
    ensures deval(dpol(ifft(m, v)), t) == vsum(|i: int| fmul(v[i], lval(m, i, t)), v.len() as int);
// degree: sums and products of coefficient lists are coefficient lists; a polynomial is fixed by its values at more points than its degree
pub axiom fn ax_rep_add(a: Seq<F>, b: Seq<F>) ensures exists|c: Seq<F>| #[trigger] dpol(c) == dadd(dpol(a), dpol(b)) && (c.len() <= a.len() || c.len() <= b.len());
pub axiom fn ax_rep_mul(a: Seq<F>, b: Seq<F>) ensures exists|c: Seq<F>| #[trigger] dpol(c) == dmul(dpol(a), dpol(b)) && (c.len() == 0 || c.len() + 1 <= a.len() + b.len());
pub axiom fn ax_unique(a: Seq<F>, b: Seq<F>, x: Seq<F>)
    requires a.len() <= x.len(), b.len() <= x.len(),
        forall|i: int, j: int| 0 <= j < i < x.len() ==> #[trigger] x[i] != #[trigger] x[j],
        forall|i: int| 0 <= i < x.len() ==> deval(dpol(a), #[trigger] x[i]) == deval(dpol(b), x[i]),
    ensures dpol(a) == dpol(b);
pub proof fn lemma_nz(a: F, b: F)
    requires a != f0(), b != f0(),
    ensures fmul(a, b) != f0(),
{
    ax_inv(a);
    if fmul(a, b) == f0() {
        ax_mul_assoc(finv(a), a, b);
        assert(fmul(finv(a), f0()) == f0());
    }
}
pub open spec fn cnt(i: int, n: int) -> int { if i < n { n - 1 } else { n } }
pub proof fn lemma_awo_rep(p: Seq<u32>, om: F, i: int, n: int)
    requires 0 <= n <= p.len(), i >= 0,
    ensures exists|s: Seq<F>| #[trigger] dpol(s) == awo(p, om, i, n) && s.len() <= cnt(i, n) + 1,
    decreases n
{
    broadcast use pol_laws;
    if n <= 0 { assert(dpol(seq![f1()]) == awo(p, om, i, n)); }
    else {
        lemma_awo_rep(p, om, i, n - 1);
        let s = choose|s: Seq<F>| #[trigger] dpol(s) == awo(p, om, i, n - 1) && s.len() <= cnt(i, n - 1) + 1;
        if n - 1 == i { assert(dpol(s) == awo(p, om, i, n)); }
        else {
            let l = seq![fneg(at(om, p[n - 1])), f1()];
            assert(dpol(l) == dlin(at(om, p[n - 1])));
            ax_rep_mul(s, l);
            let c = choose|c: Seq<F>| #[trigger] dpol(c) == dmul(dpol(s), dpol(l)) && (c.len() == 0 || c.len() + 1 <= s.len() + l.len());
            assert(dpol(c) == awo(p, om, i, n));
        }
    }
}
pub proof fn lemma_interp_rep(p: Seq<u32>, v: Seq<F>, om: F, n: int)
    requires 0 <= n <= p.len(),
    ensures exists|s: Seq<F>| #[trigger] dpol(s) == interp(p, v, om, n) && s.len() <= p.len(),
    decreases n
{
    broadcast use pol_laws;
    if n <= 0 { assert(dpol(Seq::<F>::empty()) == interp(p, v, om, n)); }
    else {
        lemma_interp_rep(p, v, om, n - 1);
        lemma_awo_rep(p, om, n - 1, p.len() as int);
        let a = choose|s: Seq<F>| #[trigger] dpol(s) == interp(p, v, om, n - 1) && s.len() <= p.len();
        let b = choose|s: Seq<F>| #[trigger] dpol(s) == awo(p, om, n - 1, p.len() as int) && s.len() <= cnt(n - 1, p.len() as int) + 1;
        let k = seq![fdiv(v[n - 1], den(p, om, n - 1))];
        ax_rep_mul(b, k);
        let c = choose|c: Seq<F>| #[trigger] dpol(c) == dmul(dpol(b), dpol(k)) && (c.len() == 0 || c.len() + 1 <= b.len() + k.len());
        ax_rep_add(a, c);
        let d = choose|d: Seq<F>| #[trigger] dpol(d) == dadd(dpol(a), dpol(c)) && (d.len() <= a.len() || d.len() <= c.len());
        assert(dpol(d) == interp(p, v, om, n));
    }
}
pub open spec fn roots_distinct(p: Seq<u32>, om: F) -> bool { forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j ==> at(om, #[trigger] p[i]) != at(om, #[trigger] p[j]) }
// the product without i: zero at the other positions, not zero at i
pub proof fn lemma_awo_at(p: Seq<u32>, om: F, i: int, k: int, n: int)
    requires 0 <= i < p.len(), 0 <= k < p.len(), 0 <= n <= p.len(), roots_distinct(p, om),
    ensures k != i && k < n ==> deval(awo(p, om, i, n), at(om, p[k])) == f0(),
        k == i ==> deval(awo(p, om, i, n), at(om, p[k])) != f0(),
    decreases n
{
    broadcast use pol_laws;
    let x = at(om, p[k]);
    if n <= 0 { ax_nontriv(); }
    else {
        lemma_awo_at(p, om, i, k, n - 1);
        if n - 1 != i {
            let y = at(om, p[n - 1]);
            ax_neg(y);
            if k == i {
                assert(p[n - 1] != p[i] || true);
                assert(at(om, p[n - 1]) != at(om, p[i]));
                assert(fsub(x, y) != f0()) by { if fsub(x, y) == f0() { ax_add_assoc(x, fneg(y), y); assert(fadd(fneg(y), y) == f0()); assert(fadd(f0(), y) == y); assert(fadd(x, f0()) == x); } }
                lemma_nz(deval(awo(p, om, i, n - 1), x), fsub(x, y));
            } else if n - 1 == k { assert(fsub(x, x) == f0()); }
        }
    }
}
pub proof fn lemma_interp_at(p: Seq<u32>, v: Seq<F>, om: F, k: int, n: int)
    requires 0 <= k < p.len(), 0 <= n <= p.len(), roots_distinct(p, om),
    ensures deval(interp(p, v, om, n), at(om, p[k])) == if k < n { v[k] } else { f0() },
    decreases n
{
    broadcast use pol_laws;
    if n > 0 {
        lemma_interp_at(p, v, om, k, n - 1);
        lemma_awo_at(p, om, n - 1, k, p.len() as int);
        let d = den(p, om, n - 1);
        if k == n - 1 {
            ax_inv(d);
            divc(v[k], d, finv(d));
        }
    }
}
// T1: the update keys key_gen makes satisfy the equations verify_upk checks
pub proof fn thm_update_keys(p: Parameters, m: int, g: F, h: F, t: F, i: int)
    requires keys_of(p, m, g, h, t), 0 <= i < m, m <= 0xffff_ffff,
    ensures upk_eq(p.verification_key, i as u32, p.proving_key.update_keys@[i], dgen(m)),
{
    let vk = p.verification_key;
    let u = p.proving_key.update_keys@[i];
    let w = fpow(dgen(m), i);
    let d = fsub(t, w);
    let iv = fdiv(f1(), d);
    let big = fsub(fpow(t, m), f1());
    assert(upk_is(p.proving_key.update_keys@[i], i, m, g, t));
    assert(d != f0()) by { assert(t != w); if d == f0() { ax_neg(w); ax_add_assoc(t, fneg(w), w); assert(fadd(fneg(w), w) == f0()); assert(fadd(f0(), w) == w); assert(fadd(t, f0()) == t); } }
    ax_inv(d);
    assert(iv == finv(d));
    assert(vk.powers_of_g2@[1].lg() == fmul(h, fpow(t, 1)));
    assert(vk.powers_of_g2@[0].lg() == fmul(h, fpow(t, 0)));
    assert(vk.powers_of_g1@[0].lg() == fmul(g, fpow(t, 0)));
    assert(fpow(t, 1) == fmul(fpow(t, 0), t));
    assert(fpow(t, 0) == f1());
    assert(fmul(h, f1()) == h && fmul(g, f1()) == g && fmul(f1(), t) == t);
    hd(h, t, w);
    upk1(g, big, iv, h, d);
    assert(fmul(fmul(g, fmul(big, iv)), fmul(h, d)) == fmul(fmul(fmul(g, big), h), fmul(d, iv)));
    let r = fdiv(w, fnat(m));
    ax_mul_assoc(g, aval(m, i, t), r);
    let x = fsub(fmul(g, lval(m, i, t)), g);
    upk2(x, iv, h, d);
}
// T2: update_commit's commitment is the commitment of the changed vector
pub open spec fn commits(l: Seq<G1>, v: Seq<F>) -> F { vsum(term(lgs(l), v), v.len() as int) }
pub proof fn lemma_vsum_at(f: spec_fn(int) -> F, f2: spec_fn(int) -> F, d: F, i: int, n: int)
    requires 0 <= i < n, f2(i) == fadd(f(i), d), forall|j: int| 0 <= j < n && j != i ==> #[trigger] f2(j) == f(j),
    ensures vsum(f2, n) == fadd(vsum(f, n), d),
    decreases n
{
    if i == n - 1 {
        assert forall|j: int| 0 <= j < n - 1 implies #[trigger] f2(j) == f(j) by { }
        vsum_cong(f2, f, n - 1);
        ax_add_assoc(vsum(f, n - 1), f(n - 1), d);
    } else {
        lemma_vsum_at(f, f2, d, i, n - 1);
        assert(f2(n - 1) == f(n - 1));
        addswap(vsum(f, n - 1), d, f(n - 1));
    }
}
pub proof fn thm_update_commit(p: Parameters, m: int, g: F, h: F, t: F, v: Seq<F>, i: int, delta: F)
    requires keys_of(p, m, g, h, t), 0 <= i < v.len() <= m, m <= 0xffff_ffff,
    ensures commits(p.proving_key.l_of_g1@, v.update(i, fadd(v[i], delta)))
        == fadd(commits(p.proving_key.l_of_g1@, v), fmul(fmul(p.proving_key.update_keys@[i].ai.lg(), ladj(dgen(m), i as u32, m)), delta)),
{
    let l = p.proving_key.l_of_g1@;
    let v2 = v.update(i, fadd(v[i], delta));
    assert(upk_is(p.proving_key.update_keys@[i], i, m, g, t));
    assert(l[i].lg() == fmul(g, lval(m, i, t)));
    ax_mul_assoc(g, aval(m, i, t), fdiv(fpow(dgen(m), i), fnat(m)));
    ax_distr(l[i].lg(), v[i], delta);
    lemma_vsum_at(term(lgs(l), v), term(lgs(l), v2), fmul(l[i].lg(), delta), i, v.len() as int);
}
// T3: the opening prove_pos makes of a committed vector satisfies the equation verify_pos checks, and with the true values only
pub proof fn thm_complete(p: Parameters, m: int, g: F, h: F, t: F, v: Seq<F>, pos: Seq<u32>, vals: Seq<F>, w: F)
    requires keys_of(p, m, g, h, t), isdom(m), m <= 0xffff_ffff, v.len() <= m, pos_ok(pos, vals, m),
        opened(m, v, pos, w, g, t),
        forall|k: int| 0 <= k < pos.len() ==> #[trigger] vals[k] == vat(v, pos[k] as int),
    ensures pos_eq(commits(p.proving_key.l_of_g1@, v), w, pos, vals, dgen(m), g, h, t),
{
    broadcast use pol_laws;
    let om = dgen(m);
    let n = pos.len() as int;
    let ap = aprod(pos, om, n);
    let phi = dpol(ifft(m, v));
    let (q, r) = choose|q: Seq<F>, r: Seq<F>| phi == dadd(#[trigger] dmul(dpol(q), ap), #[trigger] dpol(r)) && r.len() <= pos.len() && w == fmul(g, deval(dpol(q), t));
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j implies at(om, #[trigger] pos[i]) != at(om, #[trigger] pos[j]) by {
        if i > j { assert(pos[i] != pos[j]); } else { assert(pos[j] != pos[i]); }
        assert(pos[i] < m && pos[j] < m);
        ax_roots(m, pos[i] as int, pos[j] as int);
    }
    lemma_interp_rep(pos, vals, om, n);
    let s = choose|s: Seq<F>| #[trigger] dpol(s) == interp(pos, vals, om, n) && s.len() <= pos.len();
    let x = Seq::new(pos.len(), |i: int| at(om, pos[i]));
    assert forall|i: int, j: int| 0 <= j < i < x.len() implies #[trigger] x[i] != #[trigger] x[j] by { assert(at(om, pos[i]) != at(om, pos[j])); }
    assert forall|k: int| 0 <= k < x.len() implies deval(dpol(r), #[trigger] x[k]) == deval(dpol(s), x[k]) by {
        lemma_interp_at(pos, vals, om, k, n);
        lemma_awo(pos, om, k, n);
        assert(pos[k] < m);
        ax_ifft(m, v, pos[k] as int);
        assert(vals[k] == vat(v, pos[k] as int));
        assert(deval(phi, x[k]) == fadd(fmul(deval(dpol(q), x[k]), f0()), deval(dpol(r), x[k])));
        assert(fmul(deval(dpol(q), x[k]), f0()) == f0());
        assert(fadd(f0(), deval(dpol(r), x[k])) == deval(dpol(r), x[k]));
    }
    ax_unique(r, s, x);
    // the commitment is g^phi(t)
    ax_lagrange(m, v, t);
    let l = p.proving_key.l_of_g1@;
    let f = |i: int| fmul(v[i], lval(m, i, t));
    vsum_scale(g, f, v.len() as int);
    let f2 = |i: int| fmul(g, f(i));
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] term(lgs(l), v)(i) == f2(i) by {
        assert(l[i].lg() == fmul(g, lval(m, i, t)));
        glv(g, lval(m, i, t), v[i]);
    }
    vsum_cong(term(lgs(l), v), f2, v.len() as int);
    openeq(g, h, deval(dpol(q), t), deval(ap, t), deval(dpol(r), t));
}

// T4: a proof aggregated from proofs that verify one by one verifies for all the positions together
pub open spec fn one_eq(c: F, w: F, i: u32, v: F, om: F, g: F, h: F, t: F) -> bool {
    fmul(fsub(c, fmul(g, v)), h) == fmul(w, fmul(h, fsub(t, at(om, i))))
}
pub proof fn lemma_single(c: F, w: F, p: Seq<u32>, v: Seq<F>, om: F, g: F, h: F, t: F)
    requires p.len() == 1, v.len() == 1,
    ensures pos_eq(c, w, p, v, om, g, h, t) == one_eq(c, w, p[0], v[0], om, g, h, t),
{
    broadcast use pol_laws;
    assert(aprod(p, om, 0) == dconst(f1()));
    assert(aprod(p, om, 1) == dmul(aprod(p, om, 0), dlin(at(om, p[0]))));
    let x = fsub(t, at(om, p[0]));
    assert(deval(aprod(p, om, 1), t) == fmul(f1(), x));
    assert(fmul(f1(), x) == x) by { mulone(x); }
    assert(awo(p, om, 0, 0) == dconst(f1()));
    assert(awo(p, om, 0, 1) == awo(p, om, 0, 0));
    assert(den(p, om, 0) == f1());
    ax_nontriv();
    ax_inv(f1());
    mulone(finv(f1()));
    assert(finv(f1()) == f1());
    assert(interp(p, v, om, 0) == dconst(f0()));
    let y = fmul(v[0], f1());
    assert(deval(interp(p, v, om, 1), t) == fadd(f0(), fmul(f1(), y)));
    mulone(v[0]);
    mulone(y);
    addz(v[0]);
}
pub open spec fn ones(n: int) -> Seq<F> { Seq::new(n as nat, |i: int| f1()) }
pub proof fn lemma_agg(c: F, p: Seq<u32>, v: Seq<F>, q: Seq<Proof>, om: F, g: F, h: F, t: F, n: int)
    requires 0 <= n <= p.len(), v.len() == p.len(), q.len() == p.len(),
        forall|i: int| 0 <= i < p.len() ==> one_eq(c, (#[trigger] q[i]).w.lg(), p[i], v[i], om, g, h, t),
    ensures fmul(h, fsub(fmul(c, deval(interp(p, ones(p.len() as int), om, n), t)), fmul(g, deval(interp(p, v, om, n), t))))
        == fmul(agg(p, q, om, n), fmul(h, deval(aprod(p, om, p.len() as int), t))),
    decreases n
{
    broadcast use pol_laws;
    let m = p.len() as int;
    let one = ones(m);
    if n <= 0 {
        agg0(h, c, g, fmul(h, deval(aprod(p, om, m), t)));
    } else {
        lemma_agg(c, p, v, q, om, g, h, t, n - 1);
        lemma_awo(p, om, n - 1, m);
        let aw = deval(awo(p, om, n - 1, m), t);
        let l = fsub(t, at(om, p[n - 1]));
        let i = finv(den(p, om, n - 1));
        let w = q[n - 1].w.lg();
        mulone(i);
        assert(one[n - 1] == f1());
        let o = deval(interp(p, one, om, n - 1), t);
        let r = deval(interp(p, v, om, n - 1), t);
        let ag = agg(p, q, om, n - 1);
        assert(deval(aprod(p, om, m), t) == fmul(l, aw));
        assert(deval(interp(p, one, om, n), t) == fadd(o, fmul(aw, fmul(f1(), i))));
        assert(deval(interp(p, v, om, n), t) == fadd(r, fmul(aw, fmul(v[n - 1], i))));
        aggl(h, c, g, v[n - 1], aw, i, o, r);
        aggr(h, w, l, aw, i, ag);
        assert(one_eq(c, q[n - 1].w.lg(), p[n - 1], v[n - 1], om, g, h, t));
    }
}
pub proof fn thm_aggregate(m: int, c: F, p: Seq<u32>, v: Seq<F>, q: Seq<Proof>, g: F, h: F, t: F)
    requires isdom(m), pos_ok(p, v, m), q.len() == p.len(), p.len() >= 1,
        forall|i: int| 0 <= i < p.len() ==> one_eq(c, (#[trigger] q[i]).w.lg(), p[i], v[i], dgen(m), g, h, t),
    ensures pos_eq(c, agg(p, q, dgen(m), p.len() as int), p, v, dgen(m), g, h, t),
{
    broadcast use pol_laws;
    let om = dgen(m);
    let n = p.len() as int;
    lemma_agg(c, p, v, q, om, g, h, t, n);
    let one = ones(n);
    lemma_roots(p, m);
    lemma_interp_rep(p, one, om, n);
    let s = choose|s: Seq<F>| #[trigger] dpol(s) == interp(p, one, om, n) && s.len() <= p.len();
    let x = Seq::new(p.len(), |i: int| at(om, p[i]));
    assert forall|i: int, j: int| 0 <= j < i < x.len() implies #[trigger] x[i] != #[trigger] x[j] by { assert(at(om, p[i]) != at(om, p[j])); }
    let k = seq![f1()];
    assert forall|i: int| 0 <= i < x.len() implies deval(dpol(k), #[trigger] x[i]) == deval(dpol(s), x[i]) by { lemma_interp_at(p, one, om, i, n); }
    ax_unique(k, s, x);
    let r = deval(interp(p, v, om, n), t);
    aggone(h, c, g, r);
}
pub proof fn lemma_roots(p: Seq<u32>, m: int)
    requires isdom(m), distinct_to(p, p.len() as int), forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]) < m,
    ensures roots_distinct(p, dgen(m)),
{
    let om = dgen(m);
    assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies at(om, #[trigger] p[i]) != at(om, #[trigger] p[j]) by {
        if i > j { assert(p[i] != p[j]); } else { assert(p[j] != p[i]); }
        assert(p[i] < m && p[j] < m);
        ax_roots(m, p[i] as int, p[j] as int);
    }
}
// T5: after the vector changes at j, update_proof's proof of position i verifies against update_commit's commitment
pub proof fn lemma_nonzero(a: F, b: F)
    requires a != b,
    ensures fsub(a, b) != f0(),
{
    if fsub(a, b) == f0() { ax_neg(b); ax_add_assoc(a, fneg(b), b); assert(fadd(fneg(b), b) == f0()); assert(fadd(f0(), b) == b); assert(fadd(a, f0()) == a); }
}
pub proof fn thm_update_proof(p: Parameters, m: int, g: F, h: F, t: F, c: F, w: F, v: F, i: u32, j: u32, delta: F)
    requires keys_of(p, m, g, h, t), isdom(m), i < m, j < m, m <= 0xffff_ffff, one_eq(c, w, i, v, dgen(m), g, h, t),
    ensures ({
        let uk = p.proving_key.update_keys@;
        let c2 = fadd(c, fmul(fmul(uk[j as int].ai.lg(), ladj(dgen(m), j, m)), delta));
        one_eq(c2, uproof(w, delta, i, j, uk[i as int], uk[j as int], dgen(m), m), i, if i == j { fadd(v, delta) } else { v }, dgen(m), g, h, t)
    }),
{
    let uk = p.proving_key.update_keys@;
    let om = dgen(m);
    let (wi, wj) = (at(om, i), at(om, j));
    assert(upk_is(uk[i as int], i as int, m, g, t));
    assert(upk_is(uk[j as int], j as int, m, g, t));
    assert(t != fpow(om, i as int) && t != fpow(om, j as int));
    lemma_nonzero(t, wi); lemma_nonzero(t, wj);
    let (di, dj) = (fsub(t, wi), fsub(t, wj));
    ax_inv(di); ax_inv(dj);
    mulone(finv(di)); mulone(finv(dj));
    let lj = ladj(om, j, m);
    let big = fsub(fpow(t, m), f1());
    let x = fmul(uk[j as int].ai.lg(), lj);
    if i == j {
        glj(g, aval(m, i as int, t), lj);
        let u = uk[i as int].ui.lg();
        let s = fsub(x, g);
        assert(u == fmul(s, finv(di)));
        // (c + x d - g (v + d)) h = (c - g v) h + d (x - g) h ; (w + u d)(h di) = w (h di) + d s (1/di) h di
        upl(c, x, delta, g, v, h);
        upr(w, s, finv(di), delta, h, di);
        assert(fmul(finv(di), di) == f1()) by { ax_mul_comm(finv(di), di); }
        mulone(fmul(delta, fmul(s, h)));
    } else {
        ax_roots(m, i as int, j as int);
        lemma_nonzero(wj, wi); lemma_nonzero(wi, wj);
        let (e1, e2) = (fsub(wj, wi), fsub(wi, wj));
        ax_inv(e1); ax_inv(e2);
        mulone(finv(e1)); mulone(finv(e2));
        // 1/(wi - wj) = -1/(wj - wi)
        let n1 = fneg(finv(e1));
        negprod(wi, wj, finv(e1));
        assert(fmul(e2, n1) == f1());
        ax_mul_assoc(finv(e2), e2, n1);
        ax_mul_comm(finv(e2), e2);
        mulone(n1); mulone(finv(e2));
        ax_mul_comm(finv(e2), f1());
        assert(finv(e2) == n1);
        let (a, b) = (finv(di), finv(dj));
        let gb = fmul(g, big);
        assert(uk[i as int].ai.lg() == fmul(gb, a)) by { ax_mul_assoc(g, big, a); }
        assert(uk[j as int].ai.lg() == fmul(gb, b)) by { ax_mul_assoc(g, big, b); }
        // (b c1 - a c1) di = c1 (b di - 1) = c1 b (di - dj) = c1 b e1 = b
        let c1 = finv(e1);
        upn(gb, a, b, c1, lj, delta, w, h, t, wi);
        // b di - a di = b (di - dj) = b e1
        fracd(a, b, t, wi, wj);
        assert(fmul(a, di) == f1() && fmul(b, dj) == f1()) by { ax_mul_comm(a, di); ax_mul_comm(b, dj); }
        frac3(c1, b, e1);
        assert(fmul(e1, c1) == f1());
        mulone(b);
        assert(fmul(c1, fsub(fmul(b, di), fmul(a, di))) == b);
        upl2(c, x, delta, g, v, h);
    }
}

// ---- the prime-order group: an opaque type with a discrete logarithm (trusted: a cyclic group whose order is that of the field) ----
#[verifier::external_body]
pub struct G1 { x: u8 }
impl Clone for G1 { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for G1 {}
impl G1 {
    pub uninterp spec fn lg(self) -> F;
    #[verifier::external_body] pub fn mul(self, c: F) -> (r: G1) ensures r.lg() == fmul(self.lg(), c) { unimplemented!() }
    #[verifier::external_body] pub fn into_affine(self) -> (r: G1) ensures r == self { unimplemented!() }
    #[verifier::external_body] pub fn zero() -> (r: G1) ensures r.lg() == f0() { unimplemented!() }
}
impl vstd::std_specs::ops::AddSpecImpl<G1> for G1 {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: G1) -> bool { true }
    uninterp spec fn add_spec(self, o: G1) -> G1;
}
impl core::ops::Add<G1> for G1 { type Output = G1; #[verifier::external_body] fn add(self, o: G1) -> (r: G1) ensures r.lg() == fadd(self.lg(), o.lg()) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<G1> for G1 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &G1) -> bool { self.lg() == o.lg() }
}
impl PartialEq for G1 { #[verifier::external_body] fn eq(&self, o: &G1) -> bool { unimplemented!() } }
pub open spec fn lgs(g: Seq<G1>) -> Seq<F> { Seq::new(g.len(), |i: int| g[i].lg()) }
pub open spec fn mn(a: int, b: int) -> int { if a <= b { a } else { b } }
// the multi-scalar multiplication of the curve crate: the sum over the shorter list
#[verifier::external_body]
pub fn vmsm(e: &Vec<F>, b: &Vec<G1>) -> (r: G1)
    ensures r.lg() == vsum(term(e@, lgs(b@)), mn(e.len() as int, b.len() as int)),
{ unimplemented!() }
// ---- the transcript: the sequence of what was absorbed; challenges are an unknown function of it ----
pub enum Item { Msg(Seq<char>, Seq<u8>), Num(Seq<char>, u64), Chal(Seq<char>, nat) }
pub uninterp spec fn chal(log: Seq<Item>) -> Seq<u8>;
pub uninterp spec fn fr_of(b: Seq<u8>) -> F;
#[verifier::external_body]
pub struct Transcript { x: u8 }
impl Transcript {
    pub uninterp spec fn log(self) -> Seq<Item>;
    #[verifier::external_body] pub fn append_u64(&mut self, l: &str, n: u64) ensures final(self).log() == old(self).log().push(Item::Num(l@, n)) { unimplemented!() }
    #[verifier::external_body] pub fn append_message(&mut self, l: &str, m: &Bytes) ensures final(self).log() == old(self).log().push(Item::Msg(l@, m@)) { unimplemented!() }
    #[verifier::external_body] pub fn challenge_bytes<const N: usize>(&mut self, l: &str, b: &mut [u8; N])
        ensures final(self).log() == old(self).log().push(Item::Chal(l@, N as nat)), final(b)@ == chal(final(self).log()) { unimplemented!() }
}
#[verifier::external_body]
pub struct Bytes { x: u8 }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub trait Enc { spec fn enc(&self) -> Seq<u8>; }
impl Enc for G1 { uninterp spec fn enc(&self) -> Seq<u8>; }
impl Enc for F { uninterp spec fn enc(&self) -> Seq<u8>; }
impl<T: Enc> Enc for Vec<T> { uninterp spec fn enc(&self) -> Seq<u8>; }
#[verifier::external_body]
pub fn venc<T: Enc>(t: &T) -> (r: Option<Bytes>) ensures r is Some, r->Some_0@ == t.enc() { unimplemented!() }
#[verifier::external_body]
pub fn random_bytes_to_fr<const N: usize>(b: &[u8; N]) -> (r: F) ensures r == fr_of(b@) { unimplemented!() }
#[verifier::external_body]
pub fn vunwrap<T>(o: Option<T>) -> (r: T) ensures o == Some(r) { o.unwrap() }

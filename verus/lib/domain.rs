// ---- the evaluation domain of the FFT crate: named functions, and the one fact about them that is used (trusted) ----
#[verifier::external_body]
pub struct Dom { x: u8 }
pub uninterp spec fn lag(m: int, t: F, i: int) -> F;
pub uninterp spec fn van(m: int, t: F) -> F;
pub uninterp spec fn ifft(m: int, v: Seq<F>) -> Seq<F>;
pub uninterp spec fn cfft(m: int, v: Seq<F>) -> Seq<F>;
pub uninterp spec fn icfft(m: int, v: Seq<F>) -> Seq<F>;
pub uninterp spec fn cdiv(m: int, v: Seq<F>) -> Seq<F>;
pub open spec fn had(a: Seq<F>, b: Seq<F>) -> Seq<F> { Seq::new(a.len(), |i: int| fmul(a[i], b[i])) }
pub open spec fn subs(a: Seq<F>, b: Seq<F>) -> Seq<F> { Seq::new(a.len(), |i: int| fsub(a[i], b[i])) }
pub open spec fn quot(m: int, a: Seq<F>, b: Seq<F>, c: Seq<F>) -> Seq<F> {
    icfft(m, cdiv(m, subs(had(cfft(m, ifft(m, a)), cfft(m, ifft(m, b))), cfft(m, ifft(m, c)))))
}
pub uninterp spec fn fpow(t: F, e: int) -> F;
// the value at t of the polynomial with the values v on the domain
pub open spec fn lval(m: int, t: F, v: Seq<F>) -> F { vsum(|i: int| fmul(v[i], lag(m, t, i)), m) }
pub axiom fn ax_quot(m: int, a: Seq<F>, b: Seq<F>, c: Seq<F>, t: F)
    requires a.len() == m, b.len() == m, c.len() == m, m >= 1, forall|i: int| 0 <= i < m ==> #[trigger] c[i] == fmul(a[i], b[i]),
    ensures quot(m, a, b, c).len() == m, quot(m, a, b, c)[m - 1] == f0(),
        fmul(van(m, t), vsum(|i: int| fmul(quot(m, a, b, c)[i], fpow(t, i)), m - 1)) == fsub(fmul(lval(m, t, a), lval(m, t, b)), lval(m, t, c));
impl Dom {
    pub uninterp spec fn m(self) -> int;
    #[verifier::external_body] pub fn new(n: usize) -> (r: Option<Dom>) ensures r is Some ==> n <= r->Some_0.m() <= 0x1_0000_0000_0000 && r->Some_0.m() == dsize(n as int) { unimplemented!() }
    #[verifier::external_body] pub fn size(&self) -> (r: usize) ensures r == self.m() { unimplemented!() }
    #[verifier::external_body] pub fn evaluate_vanishing_polynomial(&self, t: F) -> (r: F) ensures r == van(self.m(), t) { unimplemented!() }
    #[verifier::external_body] pub fn evaluate_all_lagrange_coefficients(&self, t: F) -> (r: Vec<F>) ensures r.len() == self.m(), forall|i: int| 0 <= i < self.m() ==> #[trigger] r[i] == lag(self.m(), t, i) { unimplemented!() }
    #[verifier::external_body] pub fn ifft_in_place(&self, v: &mut Vec<F>) ensures final(v)@ == ifft(self.m(), old(v)@), final(v).len() == self.m() { unimplemented!() }
    #[verifier::external_body] pub fn coset_fft_in_place(&self, v: &mut Vec<F>) ensures final(v)@ == cfft(self.m(), old(v)@), final(v).len() == self.m() { unimplemented!() }
    #[verifier::external_body] pub fn coset_ifft_in_place(&self, v: &mut Vec<F>) ensures final(v)@ == icfft(self.m(), old(v)@), final(v).len() == self.m() { unimplemented!() }
    #[verifier::external_body] pub fn divide_by_vanishing_poly_on_coset_in_place(&self, v: &mut Vec<F>) ensures final(v)@ == cdiv(self.m(), old(v)@), final(v).len() == old(v).len() { unimplemented!() }
    #[verifier::external_body] pub fn mul_polynomials_in_evaluation_domain(&self, a: &Vec<F>, b: &Vec<F>) -> (r: Vec<F>) requires a.len() == b.len(), ensures r@ == had(a@, b@) { unimplemented!() }
    #[verifier::external_body] pub fn sample_element_outside_domain(&self, rng: &mut Rng) -> (r: F) ensures van(self.m(), r) != f0() { unimplemented!() }
}
pub uninterp spec fn dsize(n: int) -> int;
#[verifier::external_body]
pub struct Rng { x: u8 }

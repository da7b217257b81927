// ---- values next to their variables ----
pub open spec fn rv(v: Option<F>, x: Variable, w: Asg) -> bool { v == Some(w(x)) }
pub proof fn lemma_follows(o: CS, m: CS, n: CS, w: Asg)
    requires grows(o, m), grows(m, n), follows(o, n, w),
    ensures follows(o, m, w), follows(m, n, w),
{
    assert forall|u: Variable| !o.has(u) && m.has(u) implies #[trigger] w(u) == (m.hon())(u) by { assert(n.has(u)); }
}
// ---- field elements of bytes: any function of them ----
#[verifier::external_body]
pub struct BigInt { x: u8 }
pub uninterp spec fn repr_of(b: Seq<u8>) -> Option<BigInt>;
pub uninterp spec fn fr_of(b: BigInt) -> Option<F>;
pub uninterp spec fn repr0() -> BigInt;
pub uninterp spec fn limbs() -> nat;
#[verifier::external_body] pub fn vread(b: &[u8]) -> (r: Option<BigInt>) ensures r == repr_of(b@) { unimplemented!() }
#[verifier::external_body] pub fn vfrom_repr(b: BigInt) -> (r: Option<F>) ensures r == fr_of(b) { unimplemented!() }
#[verifier::external_body] pub fn vrepr0() -> (r: BigInt) ensures r == repr0() { unimplemented!() }
#[verifier::external_body] pub fn vlimbs() -> (r: usize) ensures r == limbs(), 0 < r <= 64 { unimplemented!() }
pub open spec fn orelse<T>(a: Option<T>, b: T) -> T { if a is Some { a->Some_0 } else { b } }
pub fn vunwrap_or<T>(a: Option<T>, b: T) -> (r: T) ensures r == orelse(a, b) { match a { Some(x) => x, None => b } }
pub open spec fn word_of(b: Seq<u8>) -> F { orelse(fr_of(orelse(repr_of(b), repr0())), f0()) }
pub open spec fn nwords(b: Seq<u8>) -> int { let n = 8 * limbs() as int; b.len() as int / n + if b.len() as int % n == 0 { 0int } else { 1 } }
pub open spec fn hword(b: Seq<u8>, i: int) -> F { let n = 8 * limbs() as int; word_of(b.subrange(i * n, if (i + 1) * n <= b.len() { (i + 1) * n } else { b.len() as int })) }
pub proof fn lemma_words(b: Seq<u8>)
    ensures ({ let n = 8 * limbs() as int; n > 0 ==> (forall|i: int| 0 <= i < b.len() as int / n ==> 0 <= #[trigger] (i * n) && (i + 1) * n == i * n + n && (i + 1) * n <= b.len()) && (b.len() as int / n) * n <= b.len() && (b.len() as int / n + 1) * n > b.len() && (b.len() as int % n == 0 ==> (b.len() as int / n) * n == b.len()) })
{
    let n = 8 * limbs() as int; let l = b.len() as int;
    if n > 0 {
        let q = l / n;
        assert(l == q * n + l % n && 0 <= l % n < n) by (nonlinear_arith) requires n > 0, l >= 0, q == l / n;
        assert((q + 1) * n == q * n + n) by (nonlinear_arith);
        assert forall|i: int| 0 <= i < q implies 0 <= #[trigger] (i * n) && (i + 1) * n == i * n + n && (i + 1) * n <= b.len() by {
            assert(0 <= i * n && (i + 1) * n == i * n + n && (i + 1) * n <= q * n) by (nonlinear_arith) requires 0 <= i < q, n > 0;
        }
    }
}

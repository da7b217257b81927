// ---- accumulated equalities of small numbers ----
use vstd::arithmetic::power2::*;
pub struct MultiEq { pub cs: CS, pub ops: usize, pub bits_used: usize, pub lhs: LinearCombination, pub rhs: LinearCombination }
pub uninterp spec fn cap() -> nat;
// numbers of less than `capacity` bits are different field elements
pub axiom fn ax_cap(a: int, b: int)
    requires 0 <= a < pow2(cap()), 0 <= b < pow2(cap()), fint(a) == fint(b),
    ensures a == b;
#[verifier::external_body]
pub fn vcapacity() -> (r: u32) ensures r == cap() { unimplemented!() }
#[verifier::external_body]
pub fn vsize_in_bits() -> (r: usize) ensures r == cap() + 1 { unimplemented!() }
#[verifier::external_body]
pub fn ffrom(n: u32) -> (r: F) ensures r == fint(n as int) { unimplemented!() }
pub open spec fn fpowi(x: F, e: int) -> F
    decreases e,
{
    if e <= 0 { f1() } else { fmul(x, fpowi(x, e - 1)) }
}
#[verifier::external_body]
pub fn fpow1(x: F, e: u64) -> (r: F) ensures r == fpowi(x, e as int) { unimplemented!() }
pub proof fn lemma_pow(e: nat)
    ensures fpowi(fint(2), e as int) == fint(pow2(e) as int),
    decreases e,
{
    if e == 0 { lemma2_to64(); lemma_fint_succ(0); } else {
        lemma_pow((e - 1) as nat);
        lemma_pow2_unfold(e);
        lemma_fint_mul(2, pow2((e - 1) as nat) as int);
    }
}
// what the constraints say once the pending equality is enforced
pub open spec fn pend(m: MultiEq, w: Asg) -> bool { m.cs.sat(w) && m.lhs.val(w) == m.rhs.val(w) }
// the pending sides are numbers of bits_used bits
pub open spec fn small2(m: MultiEq, w: Asg, l: int, r: int) -> bool {
    0 <= l < pow2(m.bits_used as nat) && 0 <= r < pow2(m.bits_used as nat) && m.lhs.val(w) == fint(l) && m.rhs.val(w) == fint(r)
}
pub open spec fn small(m: MultiEq, w: Asg) -> bool { exists|l: int, r: int| #[trigger] small2(m, w, l, r) }
pub open spec fn meq_ok(m: MultiEq) -> bool { m.bits_used < cap() || m.bits_used == 0 }
pub proof fn lemma_pending(m: MultiEq, n: MultiEq, w: Asg, k: nat, c: F, l: int, r: int, a: F, b: F)
    requires small(m, w), n.cs.sat(w) == m.cs.sat(w), n.bits_used == m.bits_used + k, n.bits_used < cap(), c == fint(pow2(m.bits_used as nat) as int),
        n.lhs.val(w) == fadd(m.lhs.val(w), fmul(c, a)), n.rhs.val(w) == fadd(m.rhs.val(w), fmul(c, b)),
        0 <= l < pow2(k), 0 <= r < pow2(k), a == fint(l), b == fint(r),
    ensures small(n, w), pend(n, w) <==> pend(m, w) && l == r,
{
    let (x, y) = choose|x: int, y: int| #[trigger] small2(m, w, x, y);
    let p = pow2(m.bits_used as nat) as int;
    let q = pow2(k) as int;
    lemma_pow2_adds(m.bits_used as nat, k);
    lemma_fint_mul(p, l); lemma_fint_mul(p, r);
    lemma_fint_add(x, p * l); lemma_fint_add(y, p * r);
    let (s, t) = (x + p * l, y + p * r);
    assert(0 <= s < p * q && 0 <= t < p * q) by (nonlinear_arith)
        requires s == x + p * l, t == y + p * r, 0 <= x < p, 0 <= y < p, 0 <= l < q, 0 <= r < q;
    assert(small2(n, w, s, t));
    lemma_pow2_strictly_increases(n.bits_used as nat, cap());
    if m.bits_used as nat == n.bits_used as nat { } else { lemma_pow2_strictly_increases(m.bits_used as nat, n.bits_used as nat); }
    if fint(s) == fint(t) {
        ax_cap(s, t);
        if l < r { assert(p * r - p * l >= p) by (nonlinear_arith) requires l + 1 <= r, p >= 0; }
        if l > r { assert(p * l - p * r >= p) by (nonlinear_arith) requires r + 1 <= l, p >= 0; }
    }
    if fint(x) == fint(y) { ax_cap(x, y); }
}

// `+` and `*` of machine integers (method form)
pub trait IntOps: Sized {
    spec fn iv(self) -> int;
    spec fn mx() -> int;
    fn plus(self, r: Self) -> (o: Self) requires 0 <= self.iv() + r.iv() <= Self::mx(), ensures o.iv() == self.iv() + r.iv();
    fn times(self, r: Self) -> (o: Self) requires 0 <= self.iv() * r.iv() <= Self::mx(), ensures o.iv() == self.iv() * r.iv();
}
impl IntOps for usize {
    open spec fn iv(self) -> int { self as int }
    open spec fn mx() -> int { usize::MAX as int }
    fn plus(self, r: usize) -> (o: usize) { self + r }
    fn times(self, r: usize) -> (o: usize) { self * r }
}
impl IntOps for u64 {
    open spec fn iv(self) -> int { self as int }
    open spec fn mx() -> int { u64::MAX as int }
    fn plus(self, r: u64) -> (o: u64) { self + r }
    fn times(self, r: u64) -> (o: u64) { self * r }
}
pub fn vmust(c: bool) requires c { }

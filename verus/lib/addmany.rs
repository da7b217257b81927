use vstd::arithmetic::div_mod::*;
use vstd::bits::*;
// the number the first j bits spell under w
pub open spec fn psum(bits: Seq<Boolean>, w: Asg, j: int) -> int
    decreases j,
{
    if j <= 0 { 0 } else { psum(bits, w, j - 1) + if tv(bits[j - 1], w) { pow2((j - 1) as nat) as int } else { 0 } }
}
pub open spec fn wval(u: UInt32, w: Asg) -> int { psum(u.bits@, w, 32) }
pub open spec fn osum(ops: Seq<UInt32>, w: Asg, k: int) -> int
    decreases k,
{
    if k <= 0 { 0 } else { osum(ops, w, k - 1) + wval(ops[k - 1], w) }
}
pub open spec fn wsum(ops: Seq<UInt32>, k: int) -> int
    decreases k,
{
    if k <= 0 { 0 } else { wsum(ops, k - 1) + ops[k - 1].value->Some_0 as int }
}
pub open spec fn allbits(ops: Seq<UInt32>, w: Asg) -> bool { forall|i: int| 0 <= i < ops.len() ==> wbits(#[trigger] ops[i], w) }
pub open spec fn allright(ops: Seq<UInt32>, w: Asg) -> bool { forall|i: int| 0 <= i < ops.len() ==> wright(#[trigger] ops[i], w) }
pub open spec fn allsome(ops: Seq<UInt32>, k: int) -> bool { forall|i: int| 0 <= i < k ==> (#[trigger] ops[i]).value is Some }
pub open spec fn isconst(u: UInt32, k: int) -> bool { forall|i: int| 0 <= i < k ==> (#[trigger] u.bits@[i]).cst() is Some }
pub open spec fn lsum(lc: LinearCombination, ops: Seq<UInt32>, k: int, j: int) -> bool {
    forall|w: Asg| wf(w) && #[trigger] allbits(ops, w) ==> lc.val(w) == fint(osum(ops, w, k) + psum(ops[k].bits@, w, j))
}
pub proof fn lemma_psum_bound(bits: Seq<Boolean>, w: Asg, j: int)
    requires j >= 0,
    ensures 0 <= psum(bits, w, j) < pow2(j as nat),
    decreases j,
{
    lemma2_to64();
    if j > 0 { lemma_psum_bound(bits, w, j - 1); lemma_pow2_unfold(j as nat); }
}
pub proof fn lemma_psum_ext(a: Seq<Boolean>, b: Seq<Boolean>, w: Asg, j: int)
    requires forall|i: int| 0 <= i < j ==> #[trigger] a[i] == b[i],
    ensures psum(a, w, j) == psum(b, w, j),
    decreases j,
{ if j > 0 { lemma_psum_ext(a, b, w, j - 1); assert(a[j - 1] == b[j - 1]); } }
pub proof fn lemma_osum_bound(ops: Seq<UInt32>, w: Asg, k: int)
    requires 0 <= k,
    ensures 0 <= osum(ops, w, k) <= k * 0xffff_ffff,
    decreases k,
{
    lemma2_to64();
    if k > 0 { lemma_osum_bound(ops, w, k - 1); lemma_psum_bound(ops[k - 1].bits@, w, 32); }
}
pub open spec fn ubit(v: u64, i: int) -> bool { (v >> (i as u64)) & 1u64 == 1u64 }
pub proof fn lemma_ubit(v: u64, i: int)
    requires 0 <= i < 64,
    ensures ubit(v, i) == ((v as int / pow2(i as nat) as int) % 2 == 1),
{
    let s = i as u64;
    lemma_u64_shr_is_div(v, s);
    let x = v >> s;
    assert((x & 1u64 == 1u64) == (x % 2 == 1)) by (bit_vector);
}
pub proof fn lemma_psum_ubit(bits: Seq<Boolean>, w: Asg, v: u64, n: int)
    requires 0 <= n <= 64, forall|j: int| 0 <= j < n ==> tv(#[trigger] bits[j], w) == ubit(v, j),
    ensures psum(bits, w, n) == v as int % pow2(n as nat) as int,
    decreases n,
{
    lemma2_to64();
    if n > 0 {
        let p = pow2((n - 1) as nat) as int;
        lemma_psum_ubit(bits, w, v, n - 1);
        assert(tv(bits[n - 1], w) == ubit(v, n - 1));
        lemma_ubit(v, n - 1);
        lemma_pow2_unfold(n as nat);
        lemma_pow2_pos((n - 1) as nat);
        lemma_mod_breakdown(v as int, p, 2);
        assert(p * ((v as int / p) % 2) == if ubit(v, n - 1) { p } else { 0 }) by (nonlinear_arith)
            requires (v as int / p) % 2 == 1 || (v as int / p) % 2 == 0, ubit(v, n - 1) == ((v as int / p) % 2 == 1);
        assert(p * 2 == pow2(n as nat) as int);
    }
}
pub proof fn lemma_psum_mod(bits: Seq<Boolean>, w: Asg, n: int)
    requires n >= 32,
    ensures psum(bits, w, n) % 0x1_0000_0000 == psum(bits, w, 32),
    decreases n,
{
    lemma2_to64();
    if n == 32 { lemma_psum_bound(bits, w, 32); } else {
        lemma_psum_mod(bits, w, n - 1);
        if tv(bits[n - 1], w) {
            lemma_pow2_adds(32, (n - 33) as nat);
            lemma_mod_multiples_vanish(pow2((n - 33) as nat) as int, psum(bits, w, n - 1), 0x1_0000_0000);
        }
    }
}
pub proof fn lemma_vbit_ubit(v: u32, i: int)
    requires 0 <= i < 32,
    ensures vbit(v, i) == ubit(v as u64, i),
{
    let k = i as u32;
    assert(((v >> k) & 1u32 == 1u32) == (((v as u64) >> (k as u64)) & 1u64 == 1u64)) by (bit_vector) requires k < 32;
    assert(k as u64 == i as u64);
}
pub proof fn lemma_low(v: u64, i: int)
    requires 0 <= i < 32,
    ensures vbit(v as u32, i) == ubit(v, i),
{
    let k = i as u32;
    assert((((v as u32) >> k) & 1u32 == 1u32) == ((v >> (k as u64)) & 1u64 == 1u64)) by (bit_vector) requires k < 32;
    assert(k as u64 == i as u64);
}
pub proof fn lemma_trunc(v: u64)
    ensures (v as u32) as int == v as int % 0x1_0000_0000,
{
    assert((v as u32) as u64 == v % 0x1_0000_0000u64) by (bit_vector);
}
// a word whose bits have the values of the bits of v is v
pub proof fn lemma_wval(u: UInt32, w: Asg, v: u32)
    requires u.bits@.len() == 32, forall|i: int| 0 <= i < 32 ==> (#[trigger] u.bits@[i]).fv(w) == b2f(vbit(v, i)),
    ensures wval(u, w) == v as int,
{
    field_laws();
    assert forall|j: int| 0 <= j < 32 implies tv(#[trigger] u.bits@[j], w) == ubit(v as u64, j) by { lemma_vbit_ubit(v, j); }
    lemma_psum_ubit(u.bits@, w, v as u64, 32);
    lemma2_to64();
    lemma_small_mod(v as nat, pow2(32));
}
pub open spec fn meant(ops: Seq<UInt32>, w: Asg) -> bool {
    forall|i: int, j: int| 0 <= i < ops.len() && 0 <= j < 32 ==> (#[trigger] ops[i].bits@[j]).fv(w) == b2f(vbit(ops[i].value->Some_0, j))
}
pub proof fn lemma_osum(ops: Seq<UInt32>, w: Asg, k: int)
    requires 0 <= k <= ops.len(), forall|i: int| 0 <= i < ops.len() ==> (#[trigger] ops[i]).bits@.len() == 32, meant(ops, w),
    ensures osum(ops, w, k) == wsum(ops, k),
    decreases k,
{
    if k > 0 {
        lemma_osum(ops, w, k - 1);
        assert forall|i: int| 0 <= i < 32 implies (#[trigger] ops[k - 1].bits@[i]).fv(w) == b2f(vbit(ops[k - 1].value->Some_0, i)) by { }
        lemma_wval(ops[k - 1], w, ops[k - 1].value->Some_0);
    }
}
pub proof fn lemma_addbit(a: int, j: nat, t: bool, x: F)
    requires x == b2f(t),
    ensures fadd(fint(a), fmul(fint(pow2(j) as int), x)) == fint(a + if t { pow2(j) as int } else { 0 }),
{ lemma_fint_add(a, pow2(j) as int); }
pub proof fn lemma_dbl(j: nat)
    ensures fadd(fint(pow2(j) as int), fint(pow2(j) as int)) == fint(pow2(j + 1) as int),
{ lemma_pow2_unfold(j + 1); lemma_fint_add(pow2(j) as int, pow2(j) as int); }
pub proof fn lemma_shr64(v: u64, k: int)
    requires 0 <= k < 63,
    ensures (v >> (k as u64)) >> 1u64 == v >> ((k + 1) as u64), v >> 0u64 == v,
{
    let j = k as u64;
    assert((v >> j) >> 1u64 == v >> ((j + 1) as u64)) by (bit_vector) requires j < 63;
    assert(v >> 0u64 == v) by (bit_vector);
    assert((k + 1) as u64 == (j + 1) as u64);
}
// how many bits a sum of n words has
pub proof fn lemma_bits(m: u64, n: int, i: int)
    requires m == n * 0xffff_ffff, 2 <= n <= 10, 0 <= i < 64,
    ensures (m >> (i as u64)) == 0 ==> i >= 33 && m < pow2(i as nat), i >= 36 ==> (m >> (i as u64)) == 0,
{
    lemma2_to64();
    lemma_u64_shr_is_div(m, i as u64);
    let p = pow2(i as nat) as int;
    lemma_pow2_pos(i as nat);
    if i <= 32 {
        if i < 32 { lemma_pow2_strictly_increases(i as nat, 32); }
        assert(m as int / p >= 1) by (nonlinear_arith) requires m >= p, p > 0;
    }
    lemma_fundamental_div_mod(m as int, p);
    if m as int / p == 0 { lemma_mod_bound(m as int, p); assert(p * 0 == 0); }
    if i >= 36 {
        if i > 36 { lemma_pow2_strictly_increases(36, i as nat); }
        assert(pow2(36) == 0x10_0000_0000) by { lemma_pow2_adds(32, 4); }
        assert(m < p);
        lemma_basic_div(m as int, p);
    }
}
pub open spec fn added(o: MultiEq, n: MultiEq, ops: Seq<UInt32>, r: UInt32) -> bool {
    &&& meq_ok(n) && grows(o.cs, n.cs) && winv(r, o.cs.prv())
    &&& forall|w: Asg| wf(w) && #[trigger] small(o, w) && n.cs.sat(w) && allbits(ops, w) ==> small(n, w) && wbits(r, w)
            && (pend(n, w) ==> pend(o, w) && wval(r, w) == osum(ops, w, ops.len() as int) % 0x1_0000_0000)
    &&& forall|w: Asg| wf(w) && #[trigger] small(o, w) && pend(o, w) && follows(o.cs, n.cs, w) && allright(ops, w) && o.cs.prv() ==> small(n, w) && pend(n, w) && wright(r, w)
    &&& allsome(ops, ops.len() as int) ==> r.value is Some && r.value->Some_0 as int == wsum(ops, ops.len() as int) % 0x1_0000_0000
}

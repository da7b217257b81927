// ---- SHA-256 over the words of a circuit ----
// gw: any assignment; gc: the system the circuit starts with; gb / gr: the inputs are bits / have
// their known values under gw.  All four are uninterpreted: what is proved holds for every choice.
pub uninterp spec fn gw() -> Asg;
pub uninterp spec fn gc() -> CS;
pub uninterp spec fn gb() -> bool;
pub uninterp spec fn gr() -> bool;
#[verifier::opaque]
pub open spec fn hs(c: CS) -> bool { gb() && wf(gw()) && c.sat(gw()) }
#[verifier::opaque]
pub open spec fn hc(c: CS) -> bool { gr() && wf(gw()) && gc().prv() && gc().sat(gw()) && follows(gc(), c, gw()) }
#[verifier::opaque]
pub open spec fn hp(m: MultiEq) -> bool { gb() && wf(gw()) && pend(m, gw()) }
#[verifier::opaque]
pub open spec fn okcs(c: CS) -> bool { grows(gc(), c) && (hc(c) ==> c.sat(gw())) }
#[verifier::opaque]
pub open spec fn okm(m: MultiEq) -> bool {
    meq_ok(m) && grows(gc(), m.cs) && (hs(m.cs) ==> small(m, gw())) && (hc(m.cs) ==> small(m, gw()) && pend(m, gw()))
}
#[verifier::opaque]
pub open spec fn ginv(u: UInt32) -> bool { winv(u, gc().prv()) }
#[verifier::opaque]
pub open spec fn gbits(u: UInt32) -> bool { wbits(u, gw()) }
#[verifier::opaque]
pub open spec fn gright(u: UInt32) -> bool { wright(u, gw()) }
pub open spec fn good(c: CS, u: UInt32) -> bool { ginv(u) && (hs(c) ==> gbits(u)) && (hc(c) ==> gright(u)) }
pub open spec fn gbit(c: CS, b: Boolean) -> bool { (hs(c) ==> isbit(b, gw())) && (hc(c) ==> right(b, gw())) }
// everything known about o is still known about n
pub open spec fn later(o: CS, n: CS) -> bool { (hs(n) ==> hs(o)) && (hc(n) ==> hc(o)) }
pub open spec fn step(o: MultiEq, n: MultiEq) -> bool { okm(n) && later(o.cs, n.cs) && (hp(n) ==> hp(o)) }
// the word u spells under gw
pub open spec fn U(u: UInt32) -> u32 { wval(u, gw()) as u32 }
pub open spec fn us(s: Seq<UInt32>) -> Seq<u32> { Seq::new(s.len(), |i: int| U(s[i])) }
pub open spec fn bv(s: Seq<Boolean>) -> Seq<bool> { Seq::new(s.len(), |i: int| tv(s[i], gw())) }
// ---- the reference (FIPS 180-4) ----
#[verifier::opaque]
pub open spec fn m32(x: int) -> u32 { (x % 0x1_0000_0000) as u32 }
pub open spec fn rr(x: u32, n: u32) -> u32 { (x >> n) | (x << ((32 - n) as u32)) }
#[verifier::opaque]
pub open spec fn iv() -> Seq<u32> { seq![0x6a09e667u32, 0xbb67ae85u32, 0x3c6ef372u32, 0xa54ff53au32, 0x510e527fu32, 0x9b05688cu32, 0x1f83d9abu32, 0x5be0cd19u32] }
// the word 32 bits spell, most significant first
pub open spec fn isword(s: Seq<bool>, x: u32) -> bool { forall|i: int| 0 <= i < 32 ==> #[trigger] vbit(x, i) == s[31 - i] }
pub open spec fn wordof(s: Seq<bool>) -> u32 { choose|x: u32| isword(s, x) }
pub open spec fn bitsof(h: Seq<u32>) -> Seq<bool> { Seq::new((32 * h.len()) as nat, |j: int| vbit(h[j / 32], 31 - j % 32)) }
// ---- words and their bits ----
pub proof fn lemma_psum_bit(bits: Seq<Boolean>, w: Asg, n: int, j: int)
    requires 0 <= j < n,
    ensures ((psum(bits, w, n) / pow2(j as nat) as int) % 2 == 1) == tv(bits[j], w),
    decreases n,
{
    let p = psum(bits, w, n - 1);
    let q = pow2((n - 1) as nat) as int;
    let b: int = if tv(bits[n - 1], w) { 1 } else { 0 };
    let d = pow2(j as nat) as int;
    lemma_pow2_pos(j as nat);
    lemma_psum_bound(bits, w, n - 1);
    assert(psum(bits, w, n) == p + b * q) by (nonlinear_arith) requires b == 0 || b == 1, psum(bits, w, n) == p + (if b == 1 { q } else { 0 });
    if j == n - 1 {
        assert((p + b * q) / q == b) by (nonlinear_arith) requires 0 <= p < q, b == 0 || b == 1;
    } else {
        lemma_psum_bit(bits, w, n - 1, j);
        let e = pow2((n - 2 - j) as nat) as int;
        lemma_pow2_adds(j as nat, (n - 2 - j) as nat);
        lemma_pow2_unfold((n - 1) as nat);
        let z = b * e;
        let y = 2 * z;
        assert(b * q == y * d) by (nonlinear_arith) requires q == 2 * (d * e), z == b * e, y == 2 * z;
        lemma_hoist_over_denominator(p, y, d as nat);
        assert((p + b * q) / d == p / d + y);
        lemma_mod_multiples_vanish(z, p / d, 2);
    }
}
pub proof fn lemma_bits_of(u: UInt32)
    requires u.bits@.len() == 32,
    ensures U(u) as int == wval(u, gw()), forall|i: int| 0 <= i < 32 ==> #[trigger] vbit(U(u), i) == tv(u.bits@[i], gw()),
{
    lemma2_to64();
    lemma_psum_bound(u.bits@, gw(), 32);
    assert forall|i: int| 0 <= i < 32 implies #[trigger] vbit(U(u), i) == tv(u.bits@[i], gw()) by {
        lemma_vbit_ubit(U(u), i);
        lemma_ubit(U(u) as u64, i);
        lemma_psum_bit(u.bits@, gw(), 32, i);
    }
}
pub proof fn lemma_ext(x: u32, y: u32)
    requires forall|i: int| 0 <= i < 32 ==> #[trigger] vbit(x, i) == vbit(y, i),
    ensures x == y,
{
    assert(vbit(x, 0) == vbit(y, 0));
    assert(vbit(x, 1) == vbit(y, 1));
    assert(vbit(x, 2) == vbit(y, 2));
    assert(vbit(x, 3) == vbit(y, 3));
    assert(vbit(x, 4) == vbit(y, 4));
    assert(vbit(x, 5) == vbit(y, 5));
    assert(vbit(x, 6) == vbit(y, 6));
    assert(vbit(x, 7) == vbit(y, 7));
    assert(vbit(x, 8) == vbit(y, 8));
    assert(vbit(x, 9) == vbit(y, 9));
    assert(vbit(x, 10) == vbit(y, 10));
    assert(vbit(x, 11) == vbit(y, 11));
    assert(vbit(x, 12) == vbit(y, 12));
    assert(vbit(x, 13) == vbit(y, 13));
    assert(vbit(x, 14) == vbit(y, 14));
    assert(vbit(x, 15) == vbit(y, 15));
    assert(vbit(x, 16) == vbit(y, 16));
    assert(vbit(x, 17) == vbit(y, 17));
    assert(vbit(x, 18) == vbit(y, 18));
    assert(vbit(x, 19) == vbit(y, 19));
    assert(vbit(x, 20) == vbit(y, 20));
    assert(vbit(x, 21) == vbit(y, 21));
    assert(vbit(x, 22) == vbit(y, 22));
    assert(vbit(x, 23) == vbit(y, 23));
    assert(vbit(x, 24) == vbit(y, 24));
    assert(vbit(x, 25) == vbit(y, 25));
    assert(vbit(x, 26) == vbit(y, 26));
    assert(vbit(x, 27) == vbit(y, 27));
    assert(vbit(x, 28) == vbit(y, 28));
    assert(vbit(x, 29) == vbit(y, 29));
    assert(vbit(x, 30) == vbit(y, 30));
    assert(vbit(x, 31) == vbit(y, 31));
    assert(x == y) by (bit_vector) requires ((x >> 0u32) & 1u32 == 1u32) == ((y >> 0u32) & 1u32 == 1u32), ((x >> 1u32) & 1u32 == 1u32) == ((y >> 1u32) & 1u32 == 1u32), ((x >> 2u32) & 1u32 == 1u32) == ((y >> 2u32) & 1u32 == 1u32), ((x >> 3u32) & 1u32 == 1u32) == ((y >> 3u32) & 1u32 == 1u32), ((x >> 4u32) & 1u32 == 1u32) == ((y >> 4u32) & 1u32 == 1u32), ((x >> 5u32) & 1u32 == 1u32) == ((y >> 5u32) & 1u32 == 1u32), ((x >> 6u32) & 1u32 == 1u32) == ((y >> 6u32) & 1u32 == 1u32), ((x >> 7u32) & 1u32 == 1u32) == ((y >> 7u32) & 1u32 == 1u32), ((x >> 8u32) & 1u32 == 1u32) == ((y >> 8u32) & 1u32 == 1u32), ((x >> 9u32) & 1u32 == 1u32) == ((y >> 9u32) & 1u32 == 1u32), ((x >> 10u32) & 1u32 == 1u32) == ((y >> 10u32) & 1u32 == 1u32), ((x >> 11u32) & 1u32 == 1u32) == ((y >> 11u32) & 1u32 == 1u32), ((x >> 12u32) & 1u32 == 1u32) == ((y >> 12u32) & 1u32 == 1u32), ((x >> 13u32) & 1u32 == 1u32) == ((y >> 13u32) & 1u32 == 1u32), ((x >> 14u32) & 1u32 == 1u32) == ((y >> 14u32) & 1u32 == 1u32), ((x >> 15u32) & 1u32 == 1u32) == ((y >> 15u32) & 1u32 == 1u32), ((x >> 16u32) & 1u32 == 1u32) == ((y >> 16u32) & 1u32 == 1u32), ((x >> 17u32) & 1u32 == 1u32) == ((y >> 17u32) & 1u32 == 1u32), ((x >> 18u32) & 1u32 == 1u32) == ((y >> 18u32) & 1u32 == 1u32), ((x >> 19u32) & 1u32 == 1u32) == ((y >> 19u32) & 1u32 == 1u32), ((x >> 20u32) & 1u32 == 1u32) == ((y >> 20u32) & 1u32 == 1u32), ((x >> 21u32) & 1u32 == 1u32) == ((y >> 21u32) & 1u32 == 1u32), ((x >> 22u32) & 1u32 == 1u32) == ((y >> 22u32) & 1u32 == 1u32), ((x >> 23u32) & 1u32 == 1u32) == ((y >> 23u32) & 1u32 == 1u32), ((x >> 24u32) & 1u32 == 1u32) == ((y >> 24u32) & 1u32 == 1u32), ((x >> 25u32) & 1u32 == 1u32) == ((y >> 25u32) & 1u32 == 1u32), ((x >> 26u32) & 1u32 == 1u32) == ((y >> 26u32) & 1u32 == 1u32), ((x >> 27u32) & 1u32 == 1u32) == ((y >> 27u32) & 1u32 == 1u32), ((x >> 28u32) & 1u32 == 1u32) == ((y >> 28u32) & 1u32 == 1u32), ((x >> 29u32) & 1u32 == 1u32) == ((y >> 29u32) & 1u32 == 1u32), ((x >> 30u32) & 1u32 == 1u32) == ((y >> 30u32) & 1u32 == 1u32), ((x >> 31u32) & 1u32 == 1u32) == ((y >> 31u32) & 1u32 == 1u32);
}
pub proof fn lemma_rr(x: u32, n: u32, i: int)
    requires 0 < n < 32, 0 <= i < 32,
    ensures vbit(rr(x, n), i) == vbit(x, (i + n as int) % 32),
{
    let k = i as u32;
    let c = (32 - n) as u32;
    if i + n < 32 {
        let s = (k + n) as u32;
        assert(((((x >> n) | (x << c)) >> k) & 1u32 == 1u32) == ((x >> s) & 1u32 == 1u32)) by (bit_vector) requires 0 < n < 32, k < 32, s == k + n, s < 32, c == sub(32u32, n);
        assert((i + n as int) % 32 == s as int);
    } else {
        let s = (k + n - 32) as u32;
        assert(((((x >> n) | (x << c)) >> k) & 1u32 == 1u32) == ((x >> s) & 1u32 == 1u32)) by (bit_vector) requires 0 < n < 32, k < 32, s < 32, k < n || k >= c, add(s, 32u32) == add(k, n), add(k, n) >= 32, add(k, n) < 64, c == sub(32u32, n);
        assert((i + n as int) % 32 == s as int);
    }
}
// ---- the word gadgets inside a system of accumulated equalities ----
pub proof fn lemma_inner(o: MultiEq, n: MultiEq)
    requires okm(o), grows(o.cs, n.cs), n.lhs == o.lhs, n.rhs == o.rhs, n.bits_used == o.bits_used, n.ops == o.ops, hc(n.cs) && hc(o.cs) ==> n.cs.sat(gw()),
    ensures step(o, n),
{
    reveal(hs); reveal(hc); reveal(hp); reveal(okcs); reveal(okm); reveal(ginv); reveal(gbits); reveal(gright);
    if hc(n.cs) { lemma_follows(gc(), o.cs, n.cs, gw()); }
    if hs(n.cs) || hc(n.cs) {
        assert(hs(o.cs) || hc(o.cs));
        let (l, r) = choose|l: int, r: int| #[trigger] small2(o, gw(), l, r);
        assert(small2(n, gw(), l, r));
    }
}
pub fn m_xor(cs: &mut MultiEq, a: &UInt32, b: &UInt32) -> (ret: Result<UInt32, SynthesisError>)
    requires okm(*old(cs)), good(old(cs).cs, *a), good(old(cs).cs, *b),
    ensures ret is Ok ==> step(*old(cs), *final(cs)) && final(cs).ops == old(cs).ops && good(final(cs).cs, ret->Ok_0) && (hp(*final(cs)) ==> U(ret->Ok_0) == U(*a) ^ U(*b)),
{
    let ghost o = *cs;
    proof { reveal(hs); reveal(hc); reveal(hp); reveal(okcs); reveal(okm); reveal(ginv); reveal(gbits); reveal(gright); }
    let ret = a.xor(&mut cs.cs, b);
    proof {
        if ret is Ok {
            field_laws();
            let r = ret->Ok_0;
            if hc(cs.cs) { lemma_follows(gc(), o.cs, cs.cs, gw()); assert(o.cs.sat(gw())); assert(cs.cs.sat(gw())); assert(wright(r, gw())); }
            lemma_inner(o, *cs);
            if hs(cs.cs) {
                assert(hs(o.cs));
                assert forall|i: int| 0 <= i < 32 implies isbit(#[trigger] r.bits@[i], gw()) by { }
                lemma_bits_of(*a); lemma_bits_of(*b); lemma_bits_of(r); lemma_xor(U(*a), U(*b));
                assert forall|i: int| 0 <= i < 32 implies #[trigger] vbit(U(r), i) == vbit(U(*a) ^ U(*b), i) by { assert(tv(r.bits@[i], gw()) == (wtv(*a, gw(), i) != wtv(*b, gw(), i))); }
                lemma_ext(U(r), U(*a) ^ U(*b));
            }
        }
    }
    ret
}
// the sum of the words as numbers
pub open spec fn isum(s: Seq<UInt32>, k: int) -> int
    decreases k,
{
    if k <= 0 { 0 } else { isum(s, k - 1) + U(s[k - 1]) as int }
}
pub proof fn lemma_isum(s: Seq<UInt32>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).bits@.len() == 32,
    ensures osum(s, gw(), k) == isum(s, k),
    decreases k,
{ if k > 0 { lemma_isum(s, k - 1); lemma_bits_of(s[k - 1]); } }
pub fn m_addmany(cs: &mut MultiEq, ops: &[UInt32]) -> (ret: Result<UInt32, SynthesisError>)
    requires okm(*old(cs)), old(cs).ops < usize::MAX, forall|i: int| 0 <= i < ops@.len() ==> good(old(cs).cs, #[trigger] ops@[i]),
    ensures ret is Ok ==> step(*old(cs), *final(cs)) && final(cs).ops <= old(cs).ops + 1 && good(final(cs).cs, ret->Ok_0) && (hp(*final(cs)) ==> U(ret->Ok_0) == m32(isum(ops@, ops@.len() as int))),
{
    let ghost o = *cs;
    proof { reveal(hs); reveal(hc); reveal(hp); reveal(okcs); reveal(okm); reveal(ginv); reveal(gbits); reveal(gright); }
    let ret = UInt32::addmany(cs, ops);
    proof {
        if ret is Ok {
            let r = ret->Ok_0;
            let n = *cs;
            let w = gw();
            if hc(n.cs) {
                lemma_follows(gc(), o.cs, n.cs, w);
                assert(hc(o.cs));
                assert(allright(ops@, w)) by { assert forall|i: int| 0 <= i < ops@.len() implies wright(#[trigger] ops@[i], w) by { assert(good(o.cs, ops@[i])); } }
                assert(small(o, w) && pend(o, w));
            }
            reveal(m32);
            if hs(n.cs) {
                assert(hs(o.cs));
                assert(allbits(ops@, w)) by { assert forall|i: int| 0 <= i < ops@.len() implies wbits(#[trigger] ops@[i], w) by { assert(good(o.cs, ops@[i])); } }
                assert(small(o, w));
                assert forall|i: int| 0 <= i < ops@.len() implies (#[trigger] ops@[i]).bits@.len() == 32 by { assert(good(o.cs, ops@[i])); }
                lemma_isum(ops@, ops@.len() as int);
                lemma_bits_of(r);
            }
        }
    }
    ret
}
pub fn w_rotr(u: &UInt32, by: usize) -> (r: UInt32)
    requires 0 < by < 32, ginv(*u),
    ensures forall|c: CS| #![trigger good(c, r)] good(c, *u) ==> good(c, r), U(r) == rr(U(*u), by as u32),
{
    proof { reveal(hs); reveal(hc); reveal(hp); reveal(okcs); reveal(okm); reveal(ginv); reveal(gbits); reveal(gright); }
    let r = u.rotr(by);
    proof {
        lemma_bits_of(*u); lemma_bits_of(r);
        assert forall|i: int| 0 <= i < 32 implies #[trigger] vbit(U(r), i) == vbit(rr(U(*u), by as u32), i) by { lemma_rr(U(*u), by as u32, i); assert(r.bits@[i] == u.bits@[(i + by as int) % 32]); }
        lemma_ext(U(r), rr(U(*u), by as u32));
        assert forall|c: CS| #![trigger good(c, r)] good(c, *u) implies good(c, r) by {
            assert(winv(*u, gc().prv()));
            assert(winv(r, gc().prv()));
            if hs(c) { assert forall|i: int| 0 <= i < 32 implies isbit(#[trigger] r.bits@[i], gw()) by { assert(isbit(u.bits@[(i + by as int) % 32], gw())); } }
            if hc(c) { assert forall|i: int| 0 <= i < 32 implies right(#[trigger] r.bits@[i], gw()) by { assert(right(u.bits@[(i + by as int) % 32], gw())); } }
        }
    }
    r
}
pub fn w_shr(u: &UInt32, by: usize) -> (r: UInt32)
    requires 0 < by < 32, ginv(*u),
    ensures forall|c: CS| #![trigger good(c, r)] good(c, *u) ==> good(c, r), U(r) == U(*u) >> (by as u32),
{
    proof { reveal(hs); reveal(hc); reveal(hp); reveal(okcs); reveal(okm); reveal(ginv); reveal(gbits); reveal(gright); }
    let r = u.shr(by);
    proof {
        field_laws();
        lemma_bits_of(*u); lemma_bits_of(r);
        assert forall|i: int| 0 <= i < 32 implies #[trigger] vbit(U(r), i) == vbit(U(*u) >> (by as u32), i) by { lemma_shr2(U(*u), by as u32, i); }
        lemma_ext(U(r), U(*u) >> (by as u32));
        assert forall|c: CS| #![trigger good(c, r)] good(c, *u) implies good(c, r) by {
            assert(winv(*u, gc().prv()));
            assert(winv(r, gc().prv()));
            if hs(c) { assert forall|i: int| 0 <= i < 32 implies isbit(#[trigger] r.bits@[i], gw()) by { if i + by < 32 { assert(isbit(u.bits@[i + by as int], gw())); } } }
            if hc(c) { assert forall|i: int| 0 <= i < 32 implies right(#[trigger] r.bits@[i], gw()) by { if i + by < 32 { assert(right(u.bits@[i + by as int], gw())); } } }
        }
    }
    r
}
pub fn w_const(v: u32) -> (r: UInt32)
    ensures forall|c: CS| #![trigger good(c, r)] good(c, r), U(r) == v,
{
    proof { reveal(hs); reveal(hc); reveal(hp); reveal(okcs); reveal(okm); reveal(ginv); reveal(gbits); reveal(gright); }
    let r = UInt32::constant(v);
    proof {
        field_laws();
        lemma_wval(r, gw(), v);
        assert forall|c: CS| #![trigger good(c, r)] good(c, r) by { }
    }
    r
}
pub fn w_from_be(b: &[Boolean]) -> (r: UInt32)
    ensures b@.len() == 32, forall|c: CS| #![trigger good(c, r)] (forall|i: int| 0 <= i < 32 ==> gbit(c, #[trigger] b@[i])) ==> good(c, r), U(r) == wordof(bv(b@)),
{
    proof { reveal(hs); reveal(hc); reveal(hp); reveal(okcs); reveal(okm); reveal(ginv); reveal(gbits); reveal(gright); }
    let r = UInt32::from_bits_be(b);
    proof {
        lemma_bits_of(r);
        let s = bv(b@);
        assert(isword(s, U(r))) by { assert forall|i: int| 0 <= i < 32 implies #[trigger] vbit(U(r), i) == s[31 - i] by { assert(r.bits@[i] == b@[31 - i]); } }
        let x = wordof(s);
        assert(isword(s, x));
        assert forall|i: int| 0 <= i < 32 implies #[trigger] vbit(x, i) == vbit(U(r), i) by { assert(vbit(x, i) == s[31 - i]); assert(vbit(U(r), i) == s[31 - i]); }
        lemma_ext(x, U(r));
        assert forall|c: CS| #![trigger good(c, r)] (forall|i: int| 0 <= i < 32 ==> gbit(c, #[trigger] b@[i])) implies good(c, r) by {
            if hs(c) { assert forall|i: int| 0 <= i < 32 implies isbit(#[trigger] r.bits@[i], gw()) by { assert(gbit(c, b@[31 - i])); } }
            if hc(c) { assert forall|i: int| 0 <= i < 32 implies right(#[trigger] r.bits@[i], gw()) by { assert(gbit(c, b@[31 - i])); } }
        }
    }
    r
}
pub fn w_into_be(u: UInt32) -> (r: Vec<Boolean>)
    requires ginv(u),
    ensures r@.len() == 32, bv(r@) == bitsof(seq![U(u)]), forall|c: CS| #![trigger good(c, u)] good(c, u) ==> forall|i: int| 0 <= i < 32 ==> gbit(c, #[trigger] r@[i]),
{
    let ghost v = u;
    proof { reveal(hs); reveal(hc); reveal(hp); reveal(okcs); reveal(okm); reveal(ginv); reveal(gbits); reveal(gright); }
    let r = u.into_bits_be();
    proof {
        lemma_bits_of(v);
        assert forall|i: int| 0 <= i < 32 implies #[trigger] bv(r@)[i] == bitsof(seq![U(v)])[i] by { assert(r@[i] == v.bits@[31 - i]); assert(vbit(U(v), 31 - i) == tv(v.bits@[31 - i], gw())); }
        assert(bv(r@) =~= bitsof(seq![U(v)]));
        assert forall|c: CS| #![trigger good(c, v)] good(c, v) implies forall|i: int| 0 <= i < 32 ==> gbit(c, #[trigger] r@[i]) by {
            assert forall|i: int| 0 <= i < 32 implies gbit(c, #[trigger] r@[i]) by { if hs(c) { assert(isbit(v.bits@[31 - i], gw())); } if hc(c) { assert(right(v.bits@[31 - i], gw())); } }
        }
    }
    r
}
// ---- slices and vectors of the standard library ----
pub open spec fn cdiv(l: int, n: int) -> int { (l + n - 1) / n }
#[verifier::external_body]
pub fn vnchunks(l: usize, n: usize) -> (r: usize) ensures n > 0, r == cdiv(l as int, n as int) { unimplemented!() }
#[verifier::external_body]
pub fn vchunk<T>(p: &[T], n: usize, k: usize) -> (r: &[T])
    requires n > 0, k < cdiv(p@.len() as int, n as int),
    ensures r@ == p@.subrange(k * n, if (k + 1) * n <= p@.len() { (k + 1) * n } else { p@.len() as int }),
{ unimplemented!() }
#[verifier::external_body]
pub fn vappend<T>(a: &mut Vec<T>, b: Vec<T>) ensures final(a)@ == old(a)@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn vext_words(a: &mut Vec<UInt32>, b: &[UInt32]) ensures final(a)@ == old(a)@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn vtake(cs: &mut CS) -> (r: CS) ensures r == *old(cs) { unimplemented!() }
pub open spec fn allgood(c: CS, v: Seq<UInt32>) -> bool { forall|i: int| 0 <= i < v.len() ==> good(c, #[trigger] v[i]) }
pub proof fn lemma_later(o: CS, n: CS)
    requires later(o, n),
    ensures forall|u: UInt32| #![trigger good(n, u)] #![trigger good(o, u)] good(o, u) ==> good(n, u),
        forall|b: Boolean| #![trigger gbit(n, b)] #![trigger gbit(o, b)] gbit(o, b) ==> gbit(n, b),
{ }
pub proof fn lemma_isum_cat(a: Seq<UInt32>, b: Seq<UInt32>, k: int)
    requires 0 <= k <= b.len(),
    ensures isum(a + b, a.len() + k) == isum(a, a.len() as int) + isum(b, k),
    decreases k,
{
    if k > 0 { lemma_isum_cat(a, b, k - 1); assert((a + b)[a.len() + k - 1] == b[k - 1]); } else { lemma_isum_pre(a, b, a.len() as int); }
}
pub proof fn lemma_isum_pre(a: Seq<UInt32>, b: Seq<UInt32>, k: int)
    requires 0 <= k <= a.len(),
    ensures isum(a + b, k) == isum(a, k),
    decreases k,
{ if k > 0 { lemma_isum_pre(a, b, k - 1); assert((a + b)[k - 1] == a[k - 1]); } }
pub proof fn lemma_isum_nat(s: Seq<UInt32>, k: int)
    ensures isum(s, k) >= 0,
    decreases k,
{ if k > 0 { lemma_isum_nat(s, k - 1); } }
pub proof fn lemma_meq_new(o: CS, m: MultiEq)
    requires okcs(o), m.cs == o, meq_ok(m), forall|w: Asg| #[trigger] small(m, w), forall|w: Asg| #[trigger] pend(m, w) == o.sat(w),
    ensures okm(m), later(o, m.cs),
{ reveal(hs); reveal(hc); reveal(okcs); reveal(okm); assert(small(m, gw())); }
pub proof fn lemma_meq_drop(m: MultiEq, n: CS)
    requires okm(m), grows(m.cs, n), forall|w: Asg| wf(w) && #[trigger] small(m, w) ==> n.sat(w) == pend(m, w),
    ensures okcs(n), later(m.cs, n), hs(n) ==> hp(m),
{
    reveal(hs); reveal(hc); reveal(hp); reveal(okcs); reveal(okm);
    if hc(n) { lemma_follows(gc(), m.cs, n, gw()); assert(small(m, gw())); assert(pend(m, gw())); }
    if hs(n) { assert(hs(m.cs)); assert(small(m, gw())); assert(pend(m, gw())); }
}

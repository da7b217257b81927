// ---- the reference (RFC 7693) ----
#[verifier::opaque]
pub open spec fn sigma(r: int) -> Seq<usize> {
    if r == 0 { seq![0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15] }
    else if r == 1 { seq![14usize, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3] }
    else if r == 2 { seq![11usize, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4] }
    else if r == 3 { seq![7usize, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8] }
    else if r == 4 { seq![9usize, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13] }
    else if r == 5 { seq![2usize, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9] }
    else if r == 6 { seq![12usize, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11] }
    else if r == 7 { seq![13usize, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10] }
    else if r == 8 { seq![6usize, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5] }
    else { seq![10usize, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0] }
}
#[verifier::opaque]
pub open spec fn gmix(v: Seq<u32>, a: int, b: int, c: int, d: int, x: u32, y: u32) -> Seq<u32> {
    let v = v.update(a, m32(v[a] + v[b] + x));
    let v = v.update(d, rr(v[d] ^ v[a], 16));
    let v = v.update(c, m32(v[c] + v[d]));
    let v = v.update(b, rr(v[b] ^ v[c], 12));
    let v = v.update(a, m32(v[a] + v[b] + y));
    let v = v.update(d, rr(v[d] ^ v[a], 8));
    let v = v.update(c, m32(v[c] + v[d]));
    v.update(b, rr(v[b] ^ v[c], 7))
}
pub open spec fn bround(v: Seq<u32>, m: Seq<u32>, s: Seq<usize>) -> Seq<u32> {
    let v = gmix(v, 0, 4, 8, 12, m[s[0] as int], m[s[1] as int]);
    let v = gmix(v, 1, 5, 9, 13, m[s[2] as int], m[s[3] as int]);
    let v = gmix(v, 2, 6, 10, 14, m[s[4] as int], m[s[5] as int]);
    let v = gmix(v, 3, 7, 11, 15, m[s[6] as int], m[s[7] as int]);
    let v = gmix(v, 0, 5, 10, 15, m[s[8] as int], m[s[9] as int]);
    let v = gmix(v, 1, 6, 11, 12, m[s[10] as int], m[s[11] as int]);
    let v = gmix(v, 2, 7, 8, 13, m[s[12] as int], m[s[13] as int]);
    gmix(v, 3, 4, 9, 14, m[s[14] as int], m[s[15] as int])
}
pub open spec fn brounds(v: Seq<u32>, m: Seq<u32>, i: int) -> Seq<u32>
    decreases i,
{
    if i <= 0 { v } else { bround(brounds(v, m, i - 1), m, sigma(i - 1)) }
}
pub open spec fn bstart(h: Seq<u32>, t: u64, f: bool) -> Seq<u32> {
    let v = h + iv();
    let v = v.update(12, v[12] ^ (t as u32));
    let v = v.update(13, v[13] ^ ((t >> 32) as u32));
    if f { v.update(14, v[14] ^ 0xffff_ffffu32) } else { v }
}
pub open spec fn bfin(h: Seq<u32>, v: Seq<u32>) -> Seq<u32> { Seq::new(8, |i: int| (h[i] ^ v[i]) ^ v[i + 8]) }
pub open spec fn bcomp(h: Seq<u32>, m: Seq<u32>, t: u64, f: bool) -> Seq<u32> { bfin(h, brounds(bstart(h, t, f), m, 10)) }
pub open spec fn le32(b: Seq<u8>) -> u32 { (b[0] as u32) | ((b[1] as u32) << 8) | ((b[2] as u32) << 16) | ((b[3] as u32) << 24) }
#[verifier::external_body]
pub fn vread_u32(b: &[u8]) -> (r: u32) ensures b@.len() >= 4, r == le32(b@) { unimplemented!() }
// digest length 32, no key, fanout and depth 1, the given personalization
pub open spec fn bh0(p: Seq<u8>) -> Seq<u32> {
    seq![(iv()[0] ^ 0x01010000u32) ^ 32u32, iv()[1], iv()[2], iv()[3], iv()[4], iv()[5], iv()[6] ^ le32(p.subrange(0, 4)), iv()[7] ^ le32(p.subrange(4, 8))]
}
// the words of the message followed by zeros
pub open spec fn mbit(m: Seq<bool>, j: int) -> bool { 0 <= j < m.len() && m[j] }
pub open spec fn ismw(m: Seq<bool>, t: int, x: u32) -> bool { forall|i: int| 0 <= i < 32 ==> #[trigger] vbit(x, i) == mbit(m, 32 * t + i) }
pub open spec fn mword(m: Seq<bool>, t: int) -> u32 { choose|x: u32| ismw(m, t, x) }
pub open spec fn mblock(m: Seq<bool>, k: int) -> Seq<u32> { Seq::new(16, |t: int| mword(m, 16 * k + t)) }
pub open spec fn nblocks(l: int) -> int { if l == 0 { 1 } else { cdiv(l, 512) } }
pub open spec fn bchain(m: Seq<bool>, p: Seq<u8>, k: int) -> Seq<u32>
    decreases k,
{
    if k <= 0 { bh0(p) } else { bcomp(bchain(m, p, k - 1), mblock(m, k - 1), (64 * k) as u64, false) }
}
pub open spec fn bitsle(h: Seq<u32>) -> Seq<bool> { Seq::new((32 * h.len()) as nat, |j: int| vbit(h[j / 32], j % 32)) }
pub open spec fn blake(m: Seq<bool>, p: Seq<u8>) -> Seq<bool> {
    let n = nblocks(m.len() as int);
    bitsle(bcomp(bchain(m, p, n - 1), mblock(m, n - 1), (m.len() / 8) as u64, true))
}
pub proof fn lemma_mword(m: Seq<bool>, t: int, x: u32)
    requires ismw(m, t, x),
    ensures mword(m, t) == x,
{
    let y = mword(m, t);
    assert(ismw(m, t, y));
    assert forall|i: int| 0 <= i < 32 implies #[trigger] vbit(x, i) == vbit(y, i) by { assert(vbit(y, i) == mbit(m, 32 * t + i)); }
    lemma_ext(x, y);
}
pub proof fn lemma_zero(i: int)
    requires 0 <= i < 32,
    ensures !vbit(0u32, i),
{ let k = i as u32; assert((0u32 >> k) & 1u32 != 1u32) by (bit_vector) requires k < 32; }
pub proof fn lemma_zword(m: Seq<bool>, t: int)
    requires m.len() <= 32 * t,
    ensures mword(m, t) == 0,
{
    assert(ismw(m, t, 0u32)) by { assert forall|i: int| 0 <= i < 32 implies #[trigger] vbit(0u32, i) == mbit(m, 32 * t + i) by { lemma_zero(i); } }
    lemma_mword(m, t, 0u32);
}
pub fn c_xor(cs: &mut CS, a: &UInt32, b: &UInt32) -> (ret: Result<UInt32, SynthesisError>)
    requires okcs(*old(cs)), good(*old(cs), *a), good(*old(cs), *b),
    ensures ret is Ok ==> okcs(*final(cs)) && later(*old(cs), *final(cs)) && good(*final(cs), ret->Ok_0) && (hs(*final(cs)) ==> U(ret->Ok_0) == U(*a) ^ U(*b)),
{
    let ghost o = *cs;
    proof { reveal(hs); reveal(hc); reveal(okcs); reveal(ginv); reveal(gbits); reveal(gright); }
    let ret = a.xor(cs, b);
    proof {
        if ret is Ok {
            field_laws();
            let r = ret->Ok_0;
            if hc(*cs) { lemma_follows(gc(), o, *cs, gw()); assert(hc(o)); assert(o.sat(gw())); assert(cs.sat(gw())); assert(wright(r, gw())); }
            if hs(*cs) {
                assert(hs(o));
                assert forall|i: int| 0 <= i < 32 implies isbit(#[trigger] r.bits@[i], gw()) by { }
                lemma_bits_of(*a); lemma_bits_of(*b); lemma_bits_of(r); lemma_xor(U(*a), U(*b));
                assert forall|i: int| 0 <= i < 32 implies #[trigger] vbit(U(r), i) == vbit(U(*a) ^ U(*b), i) by { assert(tv(r.bits@[i], gw()) == (wtv(*a, gw(), i) != wtv(*b, gw(), i))); }
                lemma_ext(U(r), U(*a) ^ U(*b));
            }
        }
    }
    ret
}
pub fn w_from_le(b: &[Boolean]) -> (r: UInt32)
    ensures b@.len() == 32, forall|c: CS| #![trigger good(c, r)] (forall|i: int| 0 <= i < 32 ==> gbit(c, #[trigger] b@[i])) ==> good(c, r), forall|i: int| 0 <= i < 32 ==> #[trigger] vbit(U(r), i) == tv(b@[i], gw()),
{
    proof { reveal(ginv); reveal(gbits); reveal(gright); }
    let r = UInt32::from_bits(b);
    proof {
        lemma_bits_of(r);
        assert forall|i: int| 0 <= i < 32 implies #[trigger] vbit(U(r), i) == tv(b@[i], gw()) by { assert(r.bits@[i] == b@[i]); }
        assert forall|c: CS| #![trigger good(c, r)] (forall|i: int| 0 <= i < 32 ==> gbit(c, #[trigger] b@[i])) implies good(c, r) by {
            if hs(c) { assert forall|i: int| 0 <= i < 32 implies isbit(#[trigger] r.bits@[i], gw()) by { assert(gbit(c, b@[i])); } }
            if hc(c) { assert forall|i: int| 0 <= i < 32 implies right(#[trigger] r.bits@[i], gw()) by { assert(gbit(c, b@[i])); } }
        }
    }
    r
}
pub fn w_into_le(u: UInt32) -> (r: Vec<Boolean>)
    requires ginv(u),
    ensures r@.len() == 32, forall|i: int| 0 <= i < 32 ==> tv(#[trigger] r@[i], gw()) == vbit(U(u), i), forall|c: CS| #![trigger good(c, u)] good(c, u) ==> forall|i: int| 0 <= i < 32 ==> gbit(c, #[trigger] r@[i]),
{
    proof { reveal(ginv); reveal(gbits); reveal(gright); }
    let ghost v = u;
    let r = u.into_bits();
    proof {
        lemma_bits_of(v);
        assert forall|i: int| 0 <= i < 32 implies tv(#[trigger] r@[i], gw()) == vbit(U(v), i) by { }
        assert forall|c: CS| #![trigger good(c, v)] good(c, v) implies forall|i: int| 0 <= i < 32 ==> gbit(c, #[trigger] r@[i]) by {
            assert forall|i: int| 0 <= i < 32 implies gbit(c, #[trigger] r@[i]) by { if hs(c) { assert(isbit(v.bits@[i], gw())); } if hc(c) { assert(right(v.bits@[i], gw())); } }
        }
    }
    r
}
pub open spec fn isblk(c: CS, s: Seq<UInt32>, m: Seq<bool>, b: int) -> bool { s.len() == 16 && allgood(c, s) && us(s) == mblock(m, b) }
pub proof fn lemma_cdiv(l: int, n: int, k: int)
    requires l >= 0, n > 0, k >= 0,
    ensures k < cdiv(l, n) ==> n * k < l, k >= cdiv(l, n) ==> n * k >= l, cdiv(l, n) <= l, l > 0 ==> cdiv(l, n) >= 1, n == 512 ==> cdiv(l, n) <= l / 512 + 1, n == 32 && l <= 512 ==> cdiv(l, n) <= 16,
{
    let q = cdiv(l, n);
    assert(n * q <= l + n - 1 < n * q + n) by (nonlinear_arith) requires q == (l + n - 1) / n, n > 0;
    if k < q { assert(n * k <= n * q - n) by (nonlinear_arith) requires k <= q - 1, n > 0; }
    if k >= q { assert(n * k >= n * q) by (nonlinear_arith) requires k >= q, n > 0; }
    assert(q <= l) by (nonlinear_arith) requires n * q <= l + n - 1, n > 0, l >= 0;
    if n == 512 { assert(q == (l + 511) / 512); }
    if n == 32 { assert(q == (l + 31) / 32); }
    if l > 0 { assert(q >= 1) by (nonlinear_arith) requires l + n - 1 < n * q + n, n > 0, l > 0; }
}
pub proof fn lemma_allgood(o: CS, n: CS, v: Seq<UInt32>)
    requires later(o, n), allgood(o, v),
    ensures allgood(n, v),
{ lemma_later(o, n); assert forall|i: int| 0 <= i < v.len() implies good(n, #[trigger] v[i]) by { assert(good(o, v[i])); } }

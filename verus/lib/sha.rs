pub open spec fn md(m: Maybe) -> Seq<UInt32> { match m { Maybe::Deferred(v) => v@, Maybe::Concrete(_) => Seq::empty() } }
pub open spec fn bs0(x: u32) -> u32 { rr(x, 2) ^ rr(x, 13) ^ rr(x, 22) }
pub open spec fn bs1(x: u32) -> u32 { rr(x, 6) ^ rr(x, 11) ^ rr(x, 25) }
pub open spec fn ss0(x: u32) -> u32 { rr(x, 7) ^ rr(x, 18) ^ (x >> 3) }
pub open spec fn ss1(x: u32) -> u32 { rr(x, 17) ^ rr(x, 19) ^ (x >> 10) }
pub open spec fn chw(x: u32, y: u32, z: u32) -> u32 { (x & y) ^ (!x & z) }
pub open spec fn majw(x: u32, y: u32, z: u32) -> u32 { (x & y) ^ (x & z) ^ (y & z) }
pub open spec fn sched(m: Seq<u32>, t: int) -> u32
    decreases t,
{
    if t < 16 { m[t] } else { m32(ss1(sched(m, t - 2)) + sched(m, t - 7) + ss0(sched(m, t - 15)) + sched(m, t - 16)) }
}
pub open spec fn round(s: Seq<u32>, k: u32, w: u32) -> Seq<u32> {
    let t1 = s[7] + bs1(s[4]) + chw(s[4], s[5], s[6]) + k + w;
    let t2 = bs0(s[0]) + majw(s[0], s[1], s[2]);
    seq![m32(t1 + t2), s[0], s[1], s[2], m32(s[3] + t1), s[4], s[5], s[6]]
}
pub open spec fn rounds(h: Seq<u32>, m: Seq<u32>, i: int) -> Seq<u32>
    decreases i,
{
    if i <= 0 { h } else { round(rounds(h, m, i - 1), kk()[i - 1], sched(m, i - 1)) }
}
pub open spec fn compress(h: Seq<u32>, m: Seq<u32>) -> Seq<u32> { Seq::new(8, |i: int| m32(h[i] + rounds(h, m, 64)[i])) }
// the first 32 bits of the fractional parts of the cube roots (square roots) of the first primes
#[verifier::opaque]
pub open spec fn kk() -> Seq<u32> { seq![0x428a2f98u32, 0x71374491u32, 0xb5c0fbcfu32, 0xe9b5dba5u32, 0x3956c25bu32, 0x59f111f1u32, 0x923f82a4u32, 0xab1c5ed5u32, 0xd807aa98u32, 0x12835b01u32, 0x243185beu32, 0x550c7dc3u32, 0x72be5d74u32, 0x80deb1feu32, 0x9bdc06a7u32, 0xc19bf174u32, 0xe49b69c1u32, 0xefbe4786u32, 0x0fc19dc6u32, 0x240ca1ccu32, 0x2de92c6fu32, 0x4a7484aau32, 0x5cb0a9dcu32, 0x76f988dau32, 0x983e5152u32, 0xa831c66du32, 0xb00327c8u32, 0xbf597fc7u32, 0xc6e00bf3u32, 0xd5a79147u32, 0x06ca6351u32, 0x14292967u32, 0x27b70a85u32, 0x2e1b2138u32, 0x4d2c6dfcu32, 0x53380d13u32, 0x650a7354u32, 0x766a0abbu32, 0x81c2c92eu32, 0x92722c85u32, 0xa2bfe8a1u32, 0xa81a664bu32, 0xc24b8b70u32, 0xc76c51a3u32, 0xd192e819u32, 0xd6990624u32, 0xf40e3585u32, 0x106aa070u32, 0x19a4c116u32, 0x1e376c08u32, 0x2748774cu32, 0x34b0bcb5u32, 0x391c0cb3u32, 0x4ed8aa4au32, 0x5b9cca4fu32, 0x682e6ff3u32, 0x748f82eeu32, 0x78a5636fu32, 0x84c87814u32, 0x8cc70208u32, 0x90befffau32, 0xa4506cebu32, 0xbef9a3f7u32, 0xc67178f2u32] }
pub open spec fn words(s: Seq<bool>) -> Seq<u32> { Seq::new(16, |t: int| wordof(s.subrange(32 * t, 32 * t + 32))) }
pub open spec fn padlen(l: int) -> int { ((l + 64) / 512 + 1) * 512 }
pub open spec fn padbits(m: Seq<bool>) -> Seq<bool> {
    Seq::new(padlen(m.len() as int) as nat, |i: int| if i < m.len() { m[i] } else if i == m.len() { true } else if i < padlen(m.len() as int) - 64 { false }
        else { ((m.len() as u64) >> ((padlen(m.len() as int) - 1 - i) as u64)) & 1u64 == 1u64 })
}
pub open spec fn chain(p: Seq<bool>, n: int) -> Seq<u32>
    decreases n,
{
    if n <= 0 { iv() } else { compress(chain(p, n - 1), words(p.subrange(512 * (n - 1), 512 * n))) }
}
pub open spec fn sha(m: Seq<bool>) -> Seq<bool> { bitsof(chain(padbits(m), padlen(m.len() as int) / 512)) }
pub fn m_ch(cs: &mut MultiEq, a: &UInt32, b: &UInt32, c: &UInt32) -> (ret: Result<UInt32, SynthesisError>)
    requires okm(*old(cs)), good(old(cs).cs, *a), good(old(cs).cs, *b), good(old(cs).cs, *c),
    ensures ret is Ok ==> step(*old(cs), *final(cs)) && final(cs).ops == old(cs).ops && good(final(cs).cs, ret->Ok_0) && (hp(*final(cs)) ==> U(ret->Ok_0) == chw(U(*a), U(*b), U(*c))),
{
    let ghost o = *cs;
    proof { reveal(hs); reveal(hc); reveal(hp); reveal(okcs); reveal(okm); reveal(ginv); reveal(gbits); reveal(gright); }
    let ret = UInt32::sha256_ch(&mut cs.cs, a, b, c);
    proof {
        if ret is Ok {
            field_laws();
            let r = ret->Ok_0;
            if hc(cs.cs) { lemma_follows(gc(), o.cs, cs.cs, gw()); assert(o.cs.sat(gw())); assert(cs.cs.sat(gw())); assert(wright(r, gw())); }
            lemma_inner(o, *cs);
            if hs(cs.cs) {
                assert(hs(o.cs));
                assert forall|i: int| 0 <= i < 32 implies isbit(#[trigger] r.bits@[i], gw()) by { }
                lemma_bits_of(*a); lemma_bits_of(*b); lemma_bits_of(*c); lemma_bits_of(r);
                let (x, y, z) = (U(*a), U(*b), U(*c));
                lemma_xor(x, y); lemma_not(x); lemma_xor(!x, z); lemma_xor(x & y, !x & z);
                assert forall|i: int| 0 <= i < 32 implies #[trigger] vbit(U(r), i) == vbit(chw(x, y, z), i) by { assert(tv(r.bits@[i], gw()) == ((wtv(*a, gw(), i) && wtv(*b, gw(), i)) != (!wtv(*a, gw(), i) && wtv(*c, gw(), i)))); }
                lemma_ext(U(r), chw(x, y, z));
            }
        }
    }
    ret
}
pub fn m_maj(cs: &mut MultiEq, a: &UInt32, b: &UInt32, c: &UInt32) -> (ret: Result<UInt32, SynthesisError>)
    requires okm(*old(cs)), good(old(cs).cs, *a), good(old(cs).cs, *b), good(old(cs).cs, *c),
    ensures ret is Ok ==> step(*old(cs), *final(cs)) && final(cs).ops == old(cs).ops && good(final(cs).cs, ret->Ok_0) && (hp(*final(cs)) ==> U(ret->Ok_0) == majw(U(*a), U(*b), U(*c))),
{
    let ghost o = *cs;
    proof { reveal(hs); reveal(hc); reveal(hp); reveal(okcs); reveal(okm); reveal(ginv); reveal(gbits); reveal(gright); }
    let ret = UInt32::sha256_maj(&mut cs.cs, a, b, c);
    proof {
        if ret is Ok {
            field_laws();
            let r = ret->Ok_0;
            if hc(cs.cs) { lemma_follows(gc(), o.cs, cs.cs, gw()); assert(o.cs.sat(gw())); assert(cs.cs.sat(gw())); assert(wright(r, gw())); }
            lemma_inner(o, *cs);
            if hs(cs.cs) {
                assert(hs(o.cs));
                assert forall|i: int| 0 <= i < 32 implies isbit(#[trigger] r.bits@[i], gw()) by { }
                lemma_bits_of(*a); lemma_bits_of(*b); lemma_bits_of(*c); lemma_bits_of(r);
                let (x, y, z) = (U(*a), U(*b), U(*c));
                lemma_xor(x, y); lemma_xor(x, z); lemma_xor(y, z); lemma_xor(x & y, x & z); lemma_xor((x & y) ^ (x & z), y & z);
                assert forall|i: int| 0 <= i < 32 implies #[trigger] vbit(U(r), i) == vbit(majw(x, y, z), i) by { assert(tv(r.bits@[i], gw()) == (((wtv(*a, gw(), i) && wtv(*b, gw(), i)) != (wtv(*a, gw(), i) && wtv(*c, gw(), i))) != (wtv(*b, gw(), i) && wtv(*c, gw(), i)))); }
                lemma_ext(U(r), majw(x, y, z));
            }
        }
    }
    ret
}
// ---- the compression function ----
pub enum Maybe { Deferred(Vec<UInt32>), Concrete(UInt32) }
pub open spec fn MU(m: Maybe) -> u32 {
    match m { Maybe::Concrete(v) => U(v), Maybe::Deferred(v) => m32(isum(v@, v@.len() as int)) }
}
pub open spec fn mgood(c: CS, m: Maybe) -> bool {
    match m { Maybe::Concrete(v) => good(c, v), Maybe::Deferred(v) => allgood(c, v@) }
}
pub proof fn lemma_m32(x: int, y: int)
    requires x >= 0, y >= 0,
    ensures m32(m32(x) + y) == m32(x + y),
{ reveal(m32); lemma_add_mod_noop(x, y, 0x1_0000_0000); lemma_add_mod_noop(x % 0x1_0000_0000, y, 0x1_0000_0000); lemma_mod_twice(x, 0x1_0000_0000); }
// the function consumes the constraint system it extends
pub fn vcompress(cs: &mut CS, input: &[Boolean], cur: &[UInt32]) -> (ret: Result<Vec<UInt32>, SynthesisError>)
    requires okcs(*old(cs)), input@.len() == 512, forall|i: int| 0 <= i < 512 ==> gbit(*old(cs), #[trigger] input@[i]), cur@.len() == 8, allgood(*old(cs), cur@),
    ensures ret is Ok ==> okcs(*final(cs)) && later(*old(cs), *final(cs)) && ret->Ok_0@.len() == 8 && allgood(*final(cs), ret->Ok_0@),
        ret is Ok && hs(*final(cs)) ==> us(ret->Ok_0@) == compress(us(cur@), words(bv(input@))),
{
    let c = vtake(cs);
    sha256_compression_function(c, input, cur, cs)
}
pub proof fn lemma_padlen(l: int)
    requires 0 <= l < 0x1000_0000_0000_0000,
    ensures padlen(l) % 512 == 0, l + 65 <= padlen(l) < 0x2000_0000_0000_0000,
{ }
pub proof fn lemma_padmin(l: int, n: int)
    requires 0 <= l, l < n <= padlen(l) - 64, (n + 64) % 512 == 0,
    ensures n == padlen(l) - 64,
{ }
// ---- the outputs ----
pub struct AbstractHashSha256Output { pub value: Option<Vec<Boolean>>, pub variables: Vec<Variable> }
#[verifier::external_body]
pub fn vclone_ob(x: &Option<Vec<Boolean>>) -> (r: Option<Vec<Boolean>>) ensures r == *x { unimplemented!() }
#[verifier::external_body]
pub fn vclone_v(x: &Vec<Variable>) -> (r: Vec<Variable>) ensures r == *x { unimplemented!() }
// bit j of the bytes, most significant first
pub open spec fn ebit(b: Seq<u8>, j: int) -> bool { (b[j / 8] >> ((7 - j % 8) as u8)) & 1u8 == 1u8 }
pub open spec fn outof(o: CS, n: CS, r: AbstractHashSha256Output, b: Seq<u8>) -> bool {
    &&& r.value is Some && r.value->Some_0@.len() == 8 * b.len() && r.variables@.len() == 8 * b.len()
    &&& forall|j: int| 0 <= j < 8 * b.len() ==> r.value->Some_0@[j] is Is && (#[trigger] r.value->Some_0@[j]).known() == Some(ebit(b, j)) && r.value->Some_0@[j]->Is_0.variable == r.variables@[j]
    &&& forall|w: Asg| wf(w) && #[trigger] n.sat(w) ==> forall|j: int| 0 <= j < 8 * b.len() ==> isbit(#[trigger] r.value->Some_0@[j], w)
    &&& forall|w: Asg| wf(w) && #[trigger] o.sat(w) && follows(o, n, w) && o.prv() ==> n.sat(w) && forall|j: int| 0 <= j < 8 * b.len() ==> right(#[trigger] r.value->Some_0@[j], w)
}
pub open spec fn pcat(p: Seq<&AbstractHashSha256Output>, k: int) -> Seq<Boolean>
    decreases k,
{
    if k <= 0 { Seq::empty() } else { pcat(p, k - 1) + p[k - 1].value->Some_0@ }
}
pub open spec fn plen(p: Seq<&AbstractHashSha256Output>, k: int) -> int
    decreases k,
{
    if k <= 0 { 0 } else { plen(p, k - 1) + p[k - 1].value->Some_0@.len() }
}

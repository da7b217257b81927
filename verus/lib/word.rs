// ---- 32-bit words of Booleans ----
pub struct UInt32 { pub bits: Vec<Boolean>, pub value: Option<u32> }
impl Clone for UInt32 {
    #[verifier::external_body]
    fn clone(&self) -> (r: UInt32) ensures r == *self { unimplemented!() }
}
pub open spec fn vbit(v: u32, i: int) -> bool { (v >> (i as u32)) & 1u32 == 1u32 }
// 32 bits; under p their values are those of the word
pub open spec fn winv(u: UInt32, p: bool) -> bool {
    &&& u.bits@.len() == 32
    &&& p && u.value is Some ==> forall|i: int| 0 <= i < 32 ==> (#[trigger] u.bits@[i]).known() == Some(vbit(u.value->Some_0, i))
    &&& u.value is Some ==> forall|i: int| 0 <= i < 32 ==> okc((#[trigger] u.bits@[i]).cst(), vbit(u.value->Some_0, i))
}
pub open spec fn wbits(u: UInt32, w: Asg) -> bool { forall|i: int| 0 <= i < 32 ==> isbit(#[trigger] u.bits@[i], w) }
pub open spec fn wright(u: UInt32, w: Asg) -> bool { forall|i: int| 0 <= i < 32 ==> right(#[trigger] u.bits@[i], w) }
pub open spec fn wtv(u: UInt32, w: Asg, i: int) -> bool { tv(u.bits@[i], w) }
// bitwise operations on words
pub open spec fn wgate2(o: CS, n: CS, a: UInt32, b: UInt32, r: UInt32, f: spec_fn(bool, bool) -> bool) -> bool {
    &&& grows(o, n)
    &&& winv(r, o.prv())
    &&& forall|w: Asg| wf(w) && #[trigger] n.sat(w) && wbits(a, w) && wbits(b, w) ==> forall|i: int| 0 <= i < 32 ==> (#[trigger] r.bits@[i]).fv(w) == b2f(f(wtv(a, w, i), wtv(b, w, i)))
    &&& forall|w: Asg| wf(w) && #[trigger] o.sat(w) && follows(o, n, w) && wright(a, w) && wright(b, w) && o.prv() ==> n.sat(w) && wright(r, w)
    &&& a.value is Some && b.value is Some ==> r.value is Some && forall|i: int| 0 <= i < 32 ==> #[trigger] vbit(r.value->Some_0, i) == f(vbit(a.value->Some_0, i), vbit(b.value->Some_0, i))
}
pub open spec fn wgate3(o: CS, n: CS, a: UInt32, b: UInt32, c: UInt32, r: UInt32, f: spec_fn(bool, bool, bool) -> bool) -> bool {
    &&& grows(o, n)
    &&& winv(r, o.prv())
    &&& forall|w: Asg| wf(w) && #[trigger] n.sat(w) && wbits(a, w) && wbits(b, w) && wbits(c, w) ==> forall|i: int| 0 <= i < 32 ==> (#[trigger] r.bits@[i]).fv(w) == b2f(f(wtv(a, w, i), wtv(b, w, i), wtv(c, w, i)))
    &&& forall|w: Asg| wf(w) && #[trigger] o.sat(w) && follows(o, n, w) && wright(a, w) && wright(b, w) && wright(c, w) && o.prv() ==> n.sat(w) && wright(r, w)
    &&& a.value is Some && b.value is Some && c.value is Some ==> r.value is Some && forall|i: int| 0 <= i < 32 ==> #[trigger] vbit(r.value->Some_0, i) == f(vbit(a.value->Some_0, i), vbit(b.value->Some_0, i), vbit(c.value->Some_0, i))
}
pub proof fn lemma_follows(o: CS, m: CS, n: CS, w: Asg)
    requires grows(o, m), grows(m, n), follows(o, n, w),
    ensures follows(o, m, w), follows(m, n, w),
{
    assert forall|u: Variable| !o.has(u) && #[trigger] m.has(u) implies w(u) == (m.hon())(u) by { assert(n.has(u)); assert((n.hon())(u) == (m.hon())(u)); }
    assert forall|u: Variable| !m.has(u) && #[trigger] n.has(u) implies w(u) == (n.hon())(u) by { assert(!o.has(u)); }
}
pub proof fn lemma_shl(v: u32)
    ensures forall|i: int| #![trigger vbit(v << 1u32, i)] #![trigger vbit(v, i - 1)] 0 < i < 32 ==> vbit(v << 1u32, i) == vbit(v, i - 1),
        forall|i: int| #![trigger vbit((v << 1u32) | 1u32, i)] 0 < i < 32 ==> vbit((v << 1u32) | 1u32, i) == vbit(v, i - 1),
        !vbit(v << 1u32, 0), vbit((v << 1u32) | 1u32, 0),
{
    assert forall|i: int| #![trigger vbit(v << 1u32, i)] #![trigger vbit(v, i - 1)] 0 < i < 32 implies vbit(v << 1u32, i) == vbit(v, i - 1) by {
        let k = i as u32;
        assert(((v << 1u32) >> k) & 1u32 == (v >> ((k - 1) as u32)) & 1u32) by (bit_vector) requires 0 < k < 32;
        assert((i - 1) as u32 == (k - 1) as u32);
    }
    assert forall|i: int| #![trigger vbit((v << 1u32) | 1u32, i)] 0 < i < 32 implies vbit((v << 1u32) | 1u32, i) == vbit(v, i - 1) by {
        let k = i as u32;
        assert((((v << 1u32) | 1u32) >> k) & 1u32 == (v >> ((k - 1) as u32)) & 1u32) by (bit_vector) requires 0 < k < 32;
        assert((i - 1) as u32 == (k - 1) as u32);
    }
    assert(((v << 1u32) >> 0u32) & 1u32 == 0u32) by (bit_vector);
    assert((((v << 1u32) | 1u32) >> 0u32) & 1u32 == 1u32) by (bit_vector);
}
pub proof fn lemma_shr(v: u32, k: int)
    requires 0 <= k < 32,
    ensures (v >> (k as u32)) >> 1u32 == v >> ((k + 1) as u32), v >> 0u32 == v,
{
    let j = k as u32;
    assert((v >> j) >> 1u32 == v >> ((j + 1) as u32)) by (bit_vector) requires j < 32;
    assert(v >> 0u32 == v) by (bit_vector);
    assert((k + 1) as u32 == (j + 1) as u32);
}
// u32::rotate_right
#[verifier::external_body]
pub fn rotr32(v: u32, by: u32) -> (r: u32)
    ensures by < 32 ==> forall|i: int| 0 <= i < 32 ==> #[trigger] vbit(r, i) == vbit(v, (i + by as int) % 32),
{ unimplemented!() }
pub proof fn lemma_xor(a: u32, b: u32)
    ensures forall|i: int| 0 <= i < 32 ==> #[trigger] vbit(a ^ b, i) == (vbit(a, i) != vbit(b, i)),
        forall|i: int| 0 <= i < 32 ==> #[trigger] vbit(a & b, i) == (vbit(a, i) && vbit(b, i)),
{
    assert forall|i: int| 0 <= i < 32 implies #[trigger] vbit(a ^ b, i) == (vbit(a, i) != vbit(b, i)) by {
        let k = i as u32;
        assert(((a ^ b) >> k) & 1u32 == 1u32 <==> ((a >> k) & 1u32 == 1u32 <==> !((b >> k) & 1u32 == 1u32))) by (bit_vector) requires k < 32;
    }
    assert forall|i: int| 0 <= i < 32 implies #[trigger] vbit(a & b, i) == (vbit(a, i) && vbit(b, i)) by {
        let k = i as u32;
        assert(((a & b) >> k) & 1u32 == 1u32 <==> ((a >> k) & 1u32 == 1u32 && (b >> k) & 1u32 == 1u32)) by (bit_vector) requires k < 32;
    }
}
// the operation triop is given (its two closures are extracted below)
pub trait TriOp: Sized {
    spec fn f(&self) -> spec_fn(bool, bool, bool) -> bool;
    fn word(&self, a: u32, b: u32, c: u32) -> (r: u32)
        ensures forall|i: int| 0 <= i < 32 ==> #[trigger] vbit(r, i) == (self.f())(vbit(a, i), vbit(b, i), vbit(c, i));
    fn bit(&self, cs: &mut CS, i: usize, a: &Boolean, b: &Boolean, c: &Boolean) -> (ret: Result<Boolean, SynthesisError>)
        ensures ret is Ok ==> gate3(*old(cs), *final(cs), *a, *b, *c, ret->Ok_0, self.f());
}
pub struct Maj;
pub struct Ch;
pub open spec fn majf(x: bool, y: bool, z: bool) -> bool { ((x && y) != (x && z)) != (y && z) }
pub open spec fn chf(x: bool, y: bool, z: bool) -> bool { (x && y) != (!x && z) }
impl TriOp for Maj {
    open spec fn f(&self) -> spec_fn(bool, bool, bool) -> bool { |x: bool, y: bool, z: bool| ((x && y) != (x && z)) != (y && z) }
    fn word(&self, a: u32, b: u32, c: u32) -> (r: u32) { maj_word(a, b, c) }
    fn bit(&self, cs: &mut CS, i: usize, a: &Boolean, b: &Boolean, c: &Boolean) -> (ret: Result<Boolean, SynthesisError>) { maj_bit(cs, i, a, b, c) }
}
impl TriOp for Ch {
    open spec fn f(&self) -> spec_fn(bool, bool, bool) -> bool { |x: bool, y: bool, z: bool| (x && y) != (!x && z) }
    fn word(&self, a: u32, b: u32, c: u32) -> (r: u32) { ch_word(a, b, c) }
    fn bit(&self, cs: &mut CS, i: usize, a: &Boolean, b: &Boolean, c: &Boolean) -> (ret: Result<Boolean, SynthesisError>) { ch_bit(cs, i, a, b, c) }
}
pub proof fn lemma_not(a: u32)
    ensures forall|i: int| 0 <= i < 32 ==> #[trigger] vbit(!a, i) == !vbit(a, i),
{
    assert forall|i: int| 0 <= i < 32 implies #[trigger] vbit(!a, i) == !vbit(a, i) by {
        let k = i as u32;
        assert(((!a) >> k) & 1u32 == 1u32 <==> !((a >> k) & 1u32 == 1u32)) by (bit_vector) requires k < 32;
    }
}
pub proof fn lemma_shr2(v: u32, by: u32, i: int)
    requires by < 32, 0 <= i < 32,
    ensures vbit(v >> by, i) == (i + by < 32 && vbit(v, i + by)),
{
    let k = i as u32;
    if i + by < 32 {
        let s = (k + by) as u32;
        assert(((v >> by) >> k) & 1u32 == (v >> s) & 1u32) by (bit_vector) requires k < 32, by < 32, s == (k + by) as u32, k + by < 32;
        assert((i + by) as u32 == s);
    } else {
        assert((v >> by) >> k == 0u32) by (bit_vector) requires k < 32, by < 32, k + by >= 32;
        assert(0u32 & 1u32 == 0u32) by (bit_vector);
    }
}
pub fn vto_vec(v: &[Boolean]) -> (r: Vec<Boolean>) ensures r@ == v@ {
    let mut r: Vec<Boolean> = Vec::new();
    let n = v.len();
    for i in 0..n
        invariant n == v@.len(), r@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] r@[j] == v@[j],
    { r.push(v[i]); }
    assert(r@ =~= v@);
    r
}

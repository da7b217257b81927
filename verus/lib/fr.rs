// ---- allocated field elements ----
pub struct AllocatedFr { pub value: Option<F>, pub variable: Variable }
pub open spec fn new_fr(o: CS, n: CS, value: Option<F>, r: AllocatedFr) -> bool {
    &&& grows(o, n) && n.has(r.variable) && !o.has(r.variable)
    &&& o.prv() ==> value is Some && r.value == value && (n.hon())(r.variable) == value->Some_0
    &&& forall|w: Asg| #[trigger] n.sat(w) == o.sat(w)
}
pub fn vlazy(v: Option<F>) -> (r: Result<F, SynthesisError>)
    requires v is Some, ensures r == Ok::<F, SynthesisError>(v->Some_0),
{ Ok(v.unwrap()) }
impl F {
    #[verifier::external_body]
    pub fn inverse(&self) -> (r: Option<F>)
        ensures (r is None) == (*self == f0()), r is Some ==> fmul(*self, r->Some_0) == f1(),
    { unimplemented!() }
}
// the entry addressed by the bits, first bit least significant
pub open spec fn at1(b0: bool) -> int { if b0 { 1 } else { 0 } }
pub open spec fn at2(b0: bool, b1: bool) -> int { at1(b0) + 2 * at1(b1) }
pub open spec fn at3(b0: bool, b1: bool, b2: bool) -> int { at1(b0) + 2 * at1(b1) + 4 * at1(b2) }
pub open spec fn looks2(o: CS, n: CS, b: Seq<Boolean>, c: Seq<F>, r: AllocatedFr) -> bool {
    &&& forall|w: Asg| wf(w) && #[trigger] n.sat(w) && isbit(b[0], w) && isbit(b[1], w) ==> w(r.variable) == c[at2(tv(b[0], w), tv(b[1], w))]
    &&& o.prv() && b[0].known() is Some && b[1].known() is Some ==> r.value == Some(c[at2(b[0].known()->Some_0, b[1].known()->Some_0)])
}
pub proof fn lemma_diff(a: F, b: F)
    ensures fsub(a, b) == f0() <==> a == b,
{ ax_neg(b); ax_add_assoc(a, fneg(b), b); }
// ---- subset sums: what `synth` inverts ----
pub open spec fn sub(j: int, k: int) -> bool { (k as usize) & (j as usize) == j as usize }
pub open spec fn ssum(a: Seq<F>, k: int, n: int) -> F
    decreases n,
{
    if n <= 0 { f0() } else { fadd(ssum(a, k, n - 1), if sub(n - 1, k) { a[n - 1] } else { f0() }) }
}
pub proof fn lemma_ssum_eq(a: Seq<F>, b: Seq<F>, k: int, n: int)
    requires forall|j: int| 0 <= j < n ==> a[j] == b[j],
    ensures ssum(a, k, n) == ssum(b, k, n),
    decreases n,
{ if n > 0 { lemma_ssum_eq(a, b, k, n - 1); } }
pub proof fn lemma_sub_self(k: int)
    requires 0 <= k <= usize::MAX, ensures sub(k, k),
{ let x = k as usize; assert(x & x == x) by (bit_vector); }
pub open spec fn moebius(a: Seq<F>, c: Seq<F>) -> bool { a.len() == c.len() && forall|k: int| 0 <= k < c.len() ==> #[trigger] ssum(a, k, k + 1) == c[k] }
pub proof fn lemma_sub8()
    ensures
        sub(0, 0), sub(0, 1), sub(0, 2), sub(0, 3), sub(0, 4), sub(0, 5), sub(0, 6), sub(0, 7),
        sub(1, 1), !sub(1, 2), sub(1, 3), !sub(1, 4), sub(1, 5), !sub(1, 6), sub(1, 7),
        sub(2, 2), sub(2, 3), !sub(2, 4), !sub(2, 5), sub(2, 6), sub(2, 7),
        sub(3, 3), !sub(3, 4), !sub(3, 5), !sub(3, 6), sub(3, 7),
        sub(4, 4), sub(4, 5), sub(4, 6), sub(4, 7), sub(5, 5), !sub(5, 6), sub(5, 7), sub(6, 6), sub(6, 7), sub(7, 7),
{
    assert(0usize & 0 == 0 && 1usize & 0 == 0 && 2usize & 0 == 0 && 3usize & 0 == 0 && 4usize & 0 == 0 && 5usize & 0 == 0 && 6usize & 0 == 0 && 7usize & 0 == 0
        && 1usize & 1 == 1 && 2usize & 1 == 0 && 3usize & 1 == 1 && 4usize & 1 == 0 && 5usize & 1 == 1 && 6usize & 1 == 0 && 7usize & 1 == 1
        && 2usize & 2 == 2 && 3usize & 2 == 2 && 4usize & 2 == 0 && 5usize & 2 == 0 && 6usize & 2 == 2 && 7usize & 2 == 2
        && 3usize & 3 == 3 && 4usize & 3 == 0 && 5usize & 3 == 1 && 6usize & 3 == 2 && 7usize & 3 == 3
        && 4usize & 4 == 4 && 5usize & 4 == 4 && 6usize & 4 == 4 && 7usize & 4 == 4 && 5usize & 5 == 5 && 6usize & 5 == 4 && 7usize & 5 == 5
        && 6usize & 6 == 6 && 7usize & 6 == 6 && 7usize & 7 == 7) by (bit_vector);
}
pub proof fn lemma_ssum8(a: Seq<F>)
    ensures
        ssum(a, 0, 1) == a[0], ssum(a, 1, 2) == fadd(a[0], a[1]), ssum(a, 2, 3) == fadd(a[0], a[2]), ssum(a, 3, 4) == fadd(fadd(fadd(a[0], a[1]), a[2]), a[3]),
        ssum(a, 4, 5) == fadd(a[0], a[4]), ssum(a, 5, 6) == fadd(fadd(fadd(a[0], a[1]), a[4]), a[5]), ssum(a, 6, 7) == fadd(fadd(fadd(a[0], a[2]), a[4]), a[6]),
        ssum(a, 7, 8) == fadd(fadd(fadd(fadd(fadd(fadd(fadd(a[0], a[1]), a[2]), a[3]), a[4]), a[5]), a[6]), a[7]),
{ lemma_sub8(); reveal_with_fuel(ssum, 10); }
pub open spec fn looks3(o: CS, n: CS, b: Seq<Boolean>, c: Seq<F>, r: AllocatedFr) -> bool {
    &&& forall|w: Asg| wf(w) && #[trigger] n.sat(w) && isbit(b[0], w) && isbit(b[1], w) && isbit(b[2], w) ==> w(r.variable) == c[at3(tv(b[0], w), tv(b[1], w), tv(b[2], w))]
    &&& o.prv() && b[0].known() is Some && b[1].known() is Some && b[2].known() is Some
        ==> r.value == Some(c[at3(b[0].known()->Some_0, b[1].known()->Some_0, b[2].known()->Some_0)])
}

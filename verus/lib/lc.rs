#[derive(Clone, Copy)]
pub enum Index { Input(usize), Aux(usize) }
pub struct Variable(pub Index);
impl Clone for Variable { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Variable {}
pub open spec fn ikey(x: Index) -> (int, int) {
    match x { Index::Input(i) => (0int, i as int), Index::Aux(i) => (1int, i as int) }
}
pub open spec fn icmp(a: Index, b: Index) -> core::cmp::Ordering {
    let (x, y) = (ikey(a), ikey(b));
    if x == y { core::cmp::Ordering::Equal }
    else if x.0 < y.0 || (x.0 == y.0 && x.1 < y.1) { core::cmp::Ordering::Less }
    else { core::cmp::Ordering::Greater }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl<Variable> for Variable {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Variable) -> bool { *self == *o }
}
impl PartialEq for Variable { #[verifier::external_body] fn eq(&self, o: &Variable) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl<Variable> for Variable {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Variable) -> Option<core::cmp::Ordering> { Some(icmp(self.0, o.0)) }
}
impl PartialOrd for Variable { #[verifier::external_body] fn partial_cmp(&self, o: &Variable) -> Option<core::cmp::Ordering> { unimplemented!() } }

pub struct LinearCombination(pub Vec<(Variable, F)>);
impl Clone for LinearCombination {
    fn clone(&self) -> (r: Self) ensures r.0@ == self.0@ {
        let mut r: Vec<(Variable, F)> = Vec::new();
        let mut i: usize = 0;
        while i < self.0.len()
            invariant i <= self.0.len(), r@ == self.0@.subrange(0, i as int),
            decreases self.0.len() - i,
        {
            r.push(self.0[i]);
            i = i + 1;
            proof { assert(self.0@.subrange(0, i as int) =~= self.0@.subrange(0, i as int - 1).push(self.0@[i as int - 1])); }
        }
        proof { assert(self.0@.subrange(0, i as int) =~= self.0@); }
        LinearCombination(r)
    }
}
pub type Asg = spec_fn(Variable) -> F;
// the value of a linear combination under an assignment
pub open spec fn lce(s: Seq<(Variable, F)>, w: Asg) -> F
    decreases s.len()
{
    if s.len() == 0 { f0() } else { fadd(lce(s.drop_last(), w), fmul(s.last().1, w(s.last().0))) }
}
pub proof fn lce_push(s: Seq<(Variable, F)>, t: (Variable, F), w: Asg)
    ensures lce(s.push(t), w) == fadd(lce(s, w), fmul(t.1, w(t.0))),
{ assert(s.push(t).drop_last() =~= s); }
pub proof fn lce_one(t: (Variable, F), w: Asg)
    ensures lce(seq![t], w) == fmul(t.1, w(t.0)),
{
    lce_push(Seq::<(Variable, F)>::empty(), t, w);
    assert(Seq::<(Variable, F)>::empty().push(t) =~= seq![t]);
}
pub proof fn lce_cat(a: Seq<(Variable, F)>, b: Seq<(Variable, F)>, w: Asg)
    ensures lce(a + b, w) == fadd(lce(a, w), lce(b, w)),
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        lce_cat(a, b.drop_last(), w);
        assert((a + b).drop_last() =~= a + b.drop_last());
        ax_add_assoc(lce(a, w), lce(b.drop_last(), w), fmul(b.last().1, w(b.last().0)));
    }
}
pub proof fn lce_insert(a: Seq<(Variable, F)>, i: int, t: (Variable, F), w: Asg)
    requires 0 <= i <= a.len(),
    ensures lce(a.insert(i, t), w) == fadd(lce(a, w), fmul(t.1, w(t.0))),
{
    let l = a.subrange(0, i);
    let r = a.subrange(i, a.len() as int);
    assert(a =~= l + r);
    assert(a.insert(i, t) =~= l.push(t) + r);
    lce_push(l, t, w);
    lce_cat(l.push(t), r, w);
    lce_cat(l, r, w);
    ax_add_assoc(lce(l, w), fmul(t.1, w(t.0)), lce(r, w));
    ax_add_assoc(lce(l, w), lce(r, w), fmul(t.1, w(t.0)));
}
pub proof fn lce_update(a: Seq<(Variable, F)>, i: int, c: F, w: Asg)
    requires 0 <= i < a.len(),
    ensures lce(a.update(i, (a[i].0, fadd(a[i].1, c))), w) == fadd(lce(a, w), fmul(c, w(a[i].0))),
{
    let l = a.subrange(0, i);
    let r = a.subrange(i + 1, a.len() as int);
    let t = (a[i].0, fadd(a[i].1, c));
    let v = w(a[i].0);
    assert(a =~= l.push(a[i]) + r);
    assert(a.update(i, t) =~= l.push(t) + r);
    lce_push(l, a[i], w);
    lce_push(l, t, w);
    lce_cat(l.push(t), r, w);
    lce_cat(l.push(a[i]), r, w);
    let (x, y, z, q) = (lce(l, w), fmul(a[i].1, v), fmul(c, v), lce(r, w));
    ax_distr(v, a[i].1, c);
    assert(fmul(t.1, v) == fadd(y, z));
    ax_add_assoc(x, fadd(y, z), q);
    ax_add_assoc(x, y, q);
    ax_add_assoc(x, fadd(y, q), z);
    ax_add_assoc(y, z, q);
    ax_add_assoc(y, q, z);
}
pub proof fn lce_scaled(a: Seq<(Variable, F)>, b: Seq<(Variable, F)>, c: F, w: Asg)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == (a[i].0, fmul(c, a[i].1)),
    ensures lce(b, w) == fmul(c, lce(a, w)),
    decreases a.len()
{
    if a.len() > 0 {
        lce_scaled(a.drop_last(), b.drop_last(), c, w);
        let v = w(a.last().0);
        ax_mul_assoc(c, a.last().1, v);
        ax_distr(c, lce(a.drop_last(), w), fmul(a.last().1, v));
        assert(b.last() == (a.last().0, fmul(c, a.last().1)));
    }
}
pub proof fn lemma_neg(a: F)
    ensures fneg(a) == fmul(fneg(f1()), a),
{
    // a + (-1)a = (1 + (-1))a = 0
    let m = fmul(fneg(f1()), a);
    ax_distr(a, f1(), fneg(f1()));
    ax_neg(f1());
    assert(fadd(a, m) == f0());
    ax_neg(a);
    // -a = -a + (a + m) = m
    ax_add_assoc(fneg(a), a, m);
    assert(fadd(fneg(a), fadd(a, m)) == fneg(a));
    assert(fadd(fneg(a), a) == f0());
    assert(fadd(f0(), m) == m);
}
pub proof fn lemma_sub(a: F, b: F)
    ensures fsub(a, b) == fadd(a, fmul(fneg(f1()), b)),
{ lemma_neg(b); }
pub proof fn lemma_double(a: F)
    ensures fadd(a, a) == fmul(fadd(f1(), f1()), a),
{ ax_distr(a, f1(), f1()); }
// `push` multiplies by c and `combine` adds c times its second argument
pub open spec fn scales<F1: Fn(F) -> F, F2: Fn(F, F) -> F>(p: F1, q: F2, c: F) -> bool {
    (forall|x: F, r: F| #[trigger] p.ensures((x,), r) ==> r == fmul(c, x))
    && (forall|x: F, y: F, r: F| #[trigger] q.ensures((x, y), r) ==> r == fadd(x, fmul(c, y)))
}
pub open spec fn lin(r: Seq<(Variable, F)>, a: Seq<(Variable, F)>, c: F, b: Seq<(Variable, F)>) -> bool {
    forall|w: Asg| #[trigger] lce(r, w) == fadd(lce(a, w), fmul(c, lce(b, w)))
}
pub open spec fn scaled(r: Seq<(Variable, F)>, c: F, b: Seq<(Variable, F)>) -> bool {
    forall|w: Asg| #[trigger] lce(r, w) == fmul(c, lce(b, w))
}
pub open spec fn plus(r: Seq<(Variable, F)>, a: Seq<(Variable, F)>, c: F, v: Variable) -> bool {
    forall|w: Asg| #[trigger] lce(r, w) == fadd(lce(a, w), fmul(c, w(v)))
}
pub open spec fn m1() -> F { fneg(f1()) }
#[verifier::external_body]
pub fn vbsearch<K: Fn((Variable, F)) -> Variable>(v: &Vec<(Variable, F)>, s: &Variable, key: K) -> (r: Result<usize, usize>)
    ensures match r { Ok(i) => i < v.len() && key.ensures((v[i as int],), *s), Err(i) => i <= v.len() },
{ unimplemented!() }
// one step of the merge: at most one element of each side is consumed
pub proof fn lemma_step(v0: Seq<(Variable, F)>, v1: Seq<(Variable, F)>, a: Seq<(Variable, F)>, b: Seq<(Variable, F)>, i0: int, i1: int, j0: int, j1: int, c: F)
    requires
        0 <= i0 <= i1 <= a.len(), 0 <= j0 <= j1 <= b.len(), i1 <= i0 + 1, j1 <= j0 + 1,
        lin(v0, a.subrange(0, i0), c, b.subrange(0, j0)),
        v1.len() == v0.len() + 1, v1.drop_last() == v0,
        (i1 == i0 && j1 == j0 + 1 && v1.last() == (b[j0].0, fmul(c, b[j0].1)))
        || (i1 == i0 + 1 && j1 == j0 && v1.last() == a[i0])
        || (i1 == i0 + 1 && j1 == j0 + 1 && a[i0].0 == b[j0].0 && v1.last() == (a[i0].0, fadd(a[i0].1, fmul(c, b[j0].1)))),
    ensures lin(v1, a.subrange(0, i1), c, b.subrange(0, j1)),
{
    assert forall|w: Asg| #[trigger] lce(v1, w) == fadd(lce(a.subrange(0, i1), w), fmul(c, lce(b.subrange(0, j1), w))) by {
        let (p, q) = (lce(a.subrange(0, i0), w), lce(b.subrange(0, j0), w));
        assert(lce(v0, w) == fadd(p, fmul(c, q)));
        if i1 == i0 + 1 { assert(a.subrange(0, i1).drop_last() =~= a.subrange(0, i0)); }
        if j1 == j0 + 1 { assert(b.subrange(0, j1).drop_last() =~= b.subrange(0, j0)); }
        let x = if i1 == i0 + 1 { fmul(a[i0].1, w(a[i0].0)) } else { f0() };
        let y = if j1 == j0 + 1 { fmul(b[j0].1, w(b[j0].0)) } else { f0() };
        assert(lce(a.subrange(0, i1), w) == fadd(p, x));
        assert(lce(b.subrange(0, j1), w) == fadd(q, y));
        ax_distr(c, q, y);
        let cy = fmul(c, y);
        // (p + cq) + (x + cy) == (p + x) + (cq + cy)
        let cq = fmul(c, q);
        ax_add_assoc(p, cq, fadd(x, cy));
        ax_add_assoc(cq, x, cy);
        ax_add_assoc(x, cq, cy);
        ax_add_assoc(p, x, fadd(cq, cy));
        if j1 == j0 + 1 { ax_mul_assoc(c, b[j0].1, w(b[j0].0)); }
        if i1 == i0 + 1 && j1 == j0 + 1 { ax_distr(w(a[i0].0), a[i0].1, fmul(c, b[j0].1)); }
        assert(fmul(v1.last().1, w(v1.last().0)) == fadd(x, cy));
    }
}
pub proof fn lemma_rest(v0: Seq<(Variable, F)>, v1: Seq<(Variable, F)>, a: Seq<(Variable, F)>, b: Seq<(Variable, F)>, i: int, j: int, c: F)
    requires
        0 <= i <= a.len(), 0 <= j <= b.len(), lin(v0, a.subrange(0, i), c, b.subrange(0, j)),
        v1 == v0 + a.subrange(i, a.len() as int),
    ensures lin(v1, a, c, b.subrange(0, j)),
{
    assert forall|w: Asg| #[trigger] lce(v1, w) == fadd(lce(a, w), fmul(c, lce(b.subrange(0, j), w))) by {
        let r = a.subrange(i, a.len() as int);
        lce_cat(v0, r, w);
        lce_cat(a.subrange(0, i), r, w);
        assert(a =~= a.subrange(0, i) + r);
        let (p, cq, x) = (lce(a.subrange(0, i), w), fmul(c, lce(b.subrange(0, j), w)), lce(r, w));
        ax_add_assoc(p, cq, x);
        ax_add_assoc(p, x, cq);
    }
}
pub proof fn lemma_empty(a: Seq<(Variable, F)>, c: F, b: Seq<(Variable, F)>)
    ensures b.len() == 0 ==> lin(a, a, c, b),
        a.len() == 0 ==> (forall|r: Seq<(Variable, F)>| #[trigger] scaled(r, c, b) ==> lin(r, a, c, b)),
        a.len() == 0 && c == f1() ==> lin(b, a, c, b),
{
    if b.len() == 0 {
        assert forall|w: Asg| #[trigger] lce(a, w) == fadd(lce(a, w), fmul(c, lce(b, w))) by { assert(lce(b, w) == f0()); }
    }
    if a.len() == 0 {
        assert forall|r: Seq<(Variable, F)>| #[trigger] scaled(r, c, b) implies lin(r, a, c, b) by {
            assert forall|w: Asg| #[trigger] lce(r, w) == fadd(lce(a, w), fmul(c, lce(b, w))) by { assert(lce(a, w) == f0()); }
        }
        if c == f1() {
            assert forall|w: Asg| #[trigger] lce(b, w) == fadd(lce(a, w), fmul(c, lce(b, w))) by { assert(lce(a, w) == f0()); }
        }
    }
}
pub proof fn lemma_neg_all()
    ensures forall|a: F| #[trigger] fneg(a) == fmul(m1(), a), forall|a: F, b: F| #[trigger] fsub(a, b) == fadd(a, fmul(m1(), b)),
{
    assert forall|a: F| #[trigger] fneg(a) == fmul(m1(), a) by { lemma_neg(a); }
    assert forall|a: F, b: F| #[trigger] fsub(a, b) == fadd(a, fmul(m1(), b)) by { lemma_sub(a, b); }
}
// names the factor a caller's closures multiply by
pub open spec fn hint(c: F) -> bool { true }

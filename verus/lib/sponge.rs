// ---- powers: what square-and-multiply over the bits of the exponent makes ----
pub uninterp spec fn bits_be(e: Seq<u64>) -> Seq<bool>;
pub open spec fn bval(b: Seq<bool>, k: int) -> nat
    decreases k
{ if k <= 0 { 0 } else { 2 * bval(b, k - 1) + if b[k - 1] { 1nat } else { 0nat } } }
pub open spec fn expo(e: Seq<u64>) -> nat { bval(bits_be(e), bits_be(e).len() as int) }
pub open spec fn fpow(x: F, n: nat) -> F
    decreases n
{ if n == 0 { f1() } else { fmul(fpow(x, (n - 1) as nat), x) } }
pub proof fn lemma_fpow_add(x: F, a: nat, b: nat)
    ensures fpow(x, a + b) == fmul(fpow(x, a), fpow(x, b)),
    decreases b
{
    if b > 0 {
        lemma_fpow_add(x, a, (b - 1) as nat);
        assert((a + b - 1) as nat == a + (b - 1) as nat);
        ax_mul_assoc(fpow(x, a), fpow(x, (b - 1) as nat), x);
    }
}
#[verifier::external_body] pub fn vbits(e: &[u64]) -> (r: Vec<bool>) ensures r@ == bits_be(e@), r.len() <= 64 * e.len() { unimplemented!() }
impl F {
    #[verifier::external_body] pub fn pow(&self, e: &[u64]) -> (r: F) ensures r == fpow(*self, expo(e@)) { unimplemented!() }
}
// ---- three-element states ----
pub open spec fn evs(v: Seq<Variable>, w: Asg) -> Seq<F> { Seq::new(v.len(), |i: int| w(v[i])) }
pub open spec fn dotp(m: Seq<F>, t: Seq<F>, k: int) -> F
    decreases k
{ if k <= 0 { f0() } else { fadd(dotp(m, t, k - 1), fmul(m[k - 1], t[k - 1])) } }
pub open spec fn mixto(mds: Seq<Vec<F>>, t: Seq<F>, n: int) -> Seq<F> { Seq::new(n as nat, |j: int| dotp(mds[j]@, t, 3)) }
pub open spec fn m33(mds: Seq<Vec<F>>) -> bool { mds.len() == 3 && forall|j: int| 0 <= j < 3 ==> (#[trigger] mds[j]).len() == 3 }
// x is new, holds v, and is forced to be h, provided pre holds of the variables it depends on
pub open spec fn elem_ok(m: CS, n: CS, pre: spec_fn(Asg) -> bool, x: Variable, v: F, h: spec_fn(Asg) -> F) -> bool {
    &&& grows(m, n) && n.ni() == m.ni()
    &&& forall|w: Asg| wf(w) && #[trigger] n.sat(w) ==> w(x) == h(w)
    &&& forall|w: Asg| wf(w) && #[trigger] m.sat(w) && follows(m, n, w) && pre(w) && m.prv() ==> n.sat(w) && w(x) == v
}
// the values b, in the variables t, are f of the values a in the variables s
pub open spec fn step_ok(o: CS, n: CS, a: Seq<F>, s: Seq<Variable>, b: Seq<F>, t: Seq<Variable>, f: spec_fn(Seq<F>) -> Seq<F>) -> bool {
    &&& grows(o, n) && n.ni() == o.ni()
    &&& b == f(a)
    &&& b.len() == t.len()
    &&& forall|w: Asg| wf(w) && #[trigger] n.sat(w) ==> evs(t, w) == f(evs(s, w))
    &&& forall|w: Asg| wf(w) && #[trigger] o.sat(w) && follows(o, n, w) && evs(s, w) == a && o.prv() ==> n.sat(w) && evs(t, w) == b
}
pub proof fn lemma_step_id(o: CS, a: Seq<F>, s: Seq<Variable>, f: spec_fn(Seq<F>) -> Seq<F>)
    requires a.len() == s.len(), forall|x: Seq<F>| x.len() == s.len() ==> #[trigger] f(x) == x,
    ensures step_ok(o, o, a, s, a, s, f),
{ }
pub proof fn lemma_step_ext(o: CS, n: CS, a: Seq<F>, s: Seq<Variable>, b: Seq<F>, t: Seq<Variable>, f: spec_fn(Seq<F>) -> Seq<F>, g: spec_fn(Seq<F>) -> Seq<F>)
    requires step_ok(o, n, a, s, b, t, f), a.len() == s.len(), forall|x: Seq<F>| x.len() == s.len() ==> #[trigger] g(x) == f(x),
    ensures step_ok(o, n, a, s, b, t, g),
{ assert forall|w: Asg| wf(w) && #[trigger] n.sat(w) implies evs(t, w) == g(evs(s, w)) by { assert(evs(s, w).len() == s.len()); } }
pub proof fn lemma_step_comp(o: CS, m: CS, n: CS, a: Seq<F>, s: Seq<Variable>, b: Seq<F>, t: Seq<Variable>, c: Seq<F>, u: Seq<Variable>, f: spec_fn(Seq<F>) -> Seq<F>, g: spec_fn(Seq<F>) -> Seq<F>, h: spec_fn(Seq<F>) -> Seq<F>)
    requires step_ok(o, m, a, s, b, t, f), step_ok(m, n, b, t, c, u, g), a.len() == s.len(), forall|x: Seq<F>| x.len() == s.len() ==> #[trigger] h(x) == g(f(x)),
    ensures step_ok(o, n, a, s, c, u, h),
{
    assert forall|w: Asg| wf(w) && #[trigger] n.sat(w) implies evs(u, w) == h(evs(s, w)) by { assert(m.sat(w)); assert(evs(s, w).len() == s.len()); }
    assert forall|w: Asg| wf(w) && #[trigger] o.sat(w) && follows(o, n, w) && evs(s, w) == a && o.prv() implies n.sat(w) && evs(u, w) == c by {
        lemma_follows(o, m, n, w);
        assert(m.sat(w));
    }
}
// one more element
pub proof fn lemma_step_push(o: CS, m: CS, n: CS, a: Seq<F>, s: Seq<Variable>, b: Seq<F>, t: Seq<Variable>, f: spec_fn(Seq<F>) -> Seq<F>, x: Variable, v: F, h: spec_fn(Seq<F>) -> F, g: spec_fn(Seq<F>) -> Seq<F>)
    requires step_ok(o, m, a, s, b, t, f), elem_ok(m, n, |w: Asg| evs(s, w) == a, x, v, |w: Asg| h(evs(s, w))), v == h(a), a.len() == s.len(),
        forall|y: Seq<F>| y.len() == s.len() ==> #[trigger] g(y) == f(y).push(h(y)),
    ensures step_ok(o, n, a, s, b.push(v), t.push(x), g),
{
    assert forall|w: Asg| wf(w) && #[trigger] n.sat(w) implies evs(t.push(x), w) == g(evs(s, w)) by {
        assert(m.sat(w)); assert(evs(s, w).len() == s.len());
        assert(evs(t.push(x), w) =~= evs(t, w).push(w(x)));
    }
    assert forall|w: Asg| wf(w) && #[trigger] o.sat(w) && follows(o, n, w) && evs(s, w) == a && o.prv() implies n.sat(w) && evs(t.push(x), w) == b.push(v) by {
        lemma_follows(o, m, n, w);
        assert(m.sat(w));
        assert(evs(t.push(x), w) =~= evs(t, w).push(w(x)));
    }
}
// one element replaced
pub proof fn lemma_step_set(o: CS, m: CS, n: CS, a: Seq<F>, s: Seq<Variable>, b: Seq<F>, t: Seq<Variable>, f: spec_fn(Seq<F>) -> Seq<F>, j: int, x: Variable, v: F, h: spec_fn(F) -> F, g: spec_fn(Seq<F>) -> Seq<F>)
    requires step_ok(o, m, a, s, b, t, f), elem_ok(m, n, |w: Asg| w(t[j]) == b[j], x, v, |w: Asg| h(w(t[j]))), v == h(b[j]), a.len() == s.len(), 0 <= j < t.len(),
        forall|y: Seq<F>| y.len() == s.len() ==> #[trigger] g(y) == f(y).update(j, h(f(y)[j])),
    ensures step_ok(o, n, a, s, b.update(j, v), t.update(j, x), g),
{
    assert forall|w: Asg| wf(w) && #[trigger] n.sat(w) implies evs(t.update(j, x), w) == g(evs(s, w)) by {
        assert(m.sat(w)); assert(evs(s, w).len() == s.len());
        assert(evs(t, w)[j] == w(t[j]));
        assert(evs(t.update(j, x), w) =~= evs(t, w).update(j, w(x)));
    }
    assert forall|w: Asg| wf(w) && #[trigger] o.sat(w) && follows(o, n, w) && evs(s, w) == a && o.prv() implies n.sat(w) && evs(t.update(j, x), w) == b.update(j, v) by {
        lemma_follows(o, m, n, w);
        assert(m.sat(w));
        assert(evs(t, w)[j] == w(t[j]));
        assert(evs(t.update(j, x), w) =~= evs(t, w).update(j, w(x)));
    }
}
// elements 0 .. n mapped, the others as they were
pub open spec fn upto(g: spec_fn(int, F) -> F, s: Seq<F>, n: int) -> Seq<F> { Seq::new(s.len(), |t: int| if t < n { g(t, s[t]) } else { s[t] }) }
pub proof fn lemma_upto(g: spec_fn(int, F) -> F, s: Seq<F>, n: int)
    requires 0 <= n < s.len(),
    ensures upto(g, s, n + 1) == upto(g, s, n).update(n, g(n, upto(g, s, n)[n])), upto(g, s, 0) == s,
{ assert(upto(g, s, n + 1) =~= upto(g, s, n).update(n, g(n, upto(g, s, n)[n]))); assert(upto(g, s, 0) =~= s); }
pub open spec fn blk_ok(o: CS, n: CS, xl: (F, Variable), xr: (F, Variable), r: (F, Variable), f: spec_fn(F, F) -> F) -> bool {
    &&& grows(o, n) && n.ni() == o.ni()
    &&& r.0 == f(xl.0, xr.0)
    &&& forall|w: Asg| wf(w) && #[trigger] n.sat(w) ==> w(r.1) == f(w(xl.1), w(xr.1))
    &&& forall|w: Asg| wf(w) && #[trigger] o.sat(w) && follows(o, n, w) && w(xl.1) == xl.0 && w(xr.1) == xr.0 && o.prv() ==> n.sat(w) && w(r.1) == r.0
}
pub const M: usize = 3;
pub open spec fn fupto(g: spec_fn(int, F) -> F, k: int) -> spec_fn(Seq<F>) -> Seq<F> { |s: Seq<F>| upto(g, s, k) }
pub open spec fn fmapto(g: spec_fn(int, F) -> F, k: int) -> spec_fn(Seq<F>) -> Seq<F> { |s: Seq<F>| Seq::new(k as nat, |t: int| g(t, s[t])) }
pub open spec fn fmix(mds: Seq<Vec<F>>, k: int) -> spec_fn(Seq<F>) -> Seq<F> { |s: Seq<F>| mixto(mds, s, k) }
pub proof fn lemma_upto_step(o: CS, m: CS, n: CS, a: Seq<F>, s: Seq<Variable>, b: Seq<F>, t: Seq<Variable>, g: spec_fn(int, F) -> F, j: int, x: Variable, v: F)
    requires step_ok(o, m, a, s, b, t, fupto(g, j)), elem_ok(m, n, |w: Asg| w(t[j]) == b[j], x, v, |w: Asg| g(j, w(t[j]))), v == g(j, b[j]), a.len() == s.len(), 0 <= j < s.len(),
    ensures step_ok(o, n, a, s, b.update(j, v), t.update(j, x), fupto(g, j + 1)),
{
    let h = |y: F| g(j, y);
    assert forall|y: Seq<F>| y.len() == s.len() implies #[trigger] fupto(g, j + 1)(y) == fupto(g, j)(y).update(j, h(fupto(g, j)(y)[j])) by { lemma_upto(g, y, j); }
    assert(elem_ok(m, n, |w: Asg| w(t[j]) == b[j], x, v, |w: Asg| h(w(t[j]))));
    lemma_step_set(o, m, n, a, s, b, t, fupto(g, j), j, x, v, h, fupto(g, j + 1));
}
pub proof fn lemma_map_step(o: CS, m: CS, n: CS, a: Seq<F>, s: Seq<Variable>, b: Seq<F>, t: Seq<Variable>, g: spec_fn(int, F) -> F, j: int, x: Variable, v: F)
    requires step_ok(o, m, a, s, b, t, fmapto(g, j)), elem_ok(m, n, |w: Asg| w(s[j]) == a[j], x, v, |w: Asg| g(j, w(s[j]))), v == g(j, a[j]), a.len() == s.len(), 0 <= j < s.len(),
    ensures step_ok(o, n, a, s, b.push(v), t.push(x), fmapto(g, j + 1)),
{
    let h = |y: Seq<F>| g(j, y[j]);
    assert forall|y: Seq<F>| y.len() == s.len() implies #[trigger] fmapto(g, j + 1)(y) == fmapto(g, j)(y).push(h(y)) by { assert(fmapto(g, j + 1)(y) =~= fmapto(g, j)(y).push(h(y))); }
    assert(elem_ok(m, n, |w: Asg| evs(s, w) == a, x, v, |w: Asg| h(evs(s, w)))) by {
        assert forall|w: Asg| wf(w) && #[trigger] m.sat(w) && follows(m, n, w) && evs(s, w) == a && m.prv() implies n.sat(w) && w(x) == v by { assert(evs(s, w)[j] == w(s[j])); }
    }
    lemma_step_push(o, m, n, a, s, b, t, fmapto(g, j), x, v, h, fmapto(g, j + 1));
}
pub proof fn lemma_mix_step(o: CS, m: CS, n: CS, a: Seq<F>, s: Seq<Variable>, b: Seq<F>, t: Seq<Variable>, mds: Seq<Vec<F>>, j: int, x: Variable, v: F)
    requires step_ok(o, m, a, s, b, t, fmix(mds, j)), elem_ok(m, n, |w: Asg| evs(s, w) == a, x, v, |w: Asg| dotp(mds[j]@, evs(s, w), 3)), v == dotp(mds[j]@, a, 3), a.len() == s.len(), 0 <= j,
    ensures step_ok(o, n, a, s, b.push(v), t.push(x), fmix(mds, j + 1)),
{
    let h = |y: Seq<F>| dotp(mds[j]@, y, 3);
    assert forall|y: Seq<F>| y.len() == s.len() implies #[trigger] fmix(mds, j + 1)(y) == fmix(mds, j)(y).push(h(y)) by { assert(fmix(mds, j + 1)(y) =~= fmix(mds, j)(y).push(h(y))); }
    assert(elem_ok(m, n, |w: Asg| evs(s, w) == a, x, v, |w: Asg| h(evs(s, w))));
    lemma_step_push(o, m, n, a, s, b, t, fmix(mds, j), x, v, h, fmix(mds, j + 1));
}
pub proof fn lemma_upto_start(o: CS, a: Seq<F>, s: Seq<Variable>, g: spec_fn(int, F) -> F)
    requires a.len() == s.len(),
    ensures step_ok(o, o, a, s, a, s, fupto(g, 0)),
{
    assert forall|x: Seq<F>| x.len() == s.len() implies #[trigger] fupto(g, 0)(x) == x by { assert(upto(g, x, 0) =~= x); }
    lemma_step_id(o, a, s, fupto(g, 0));
}
pub proof fn lemma_map_start(o: CS, a: Seq<F>, s: Seq<Variable>, g: spec_fn(int, F) -> F, mds: Seq<Vec<F>>)
    requires a.len() == s.len(),
    ensures step_ok(o, o, a, s, Seq::<F>::empty(), Seq::<Variable>::empty(), fmapto(g, 0)), step_ok(o, o, a, s, Seq::<F>::empty(), Seq::<Variable>::empty(), fmix(mds, 0)),
{
    assert(Seq::<F>::empty() =~= fmapto(g, 0)(a)); assert(Seq::<F>::empty() =~= fmix(mds, 0)(a));
    assert forall|w: Asg| wf(w) && #[trigger] o.sat(w) implies evs(Seq::<Variable>::empty(), w) == fmapto(g, 0)(evs(s, w)) && evs(Seq::<Variable>::empty(), w) == fmix(mds, 0)(evs(s, w)) && evs(Seq::<Variable>::empty(), w) == Seq::<F>::empty() by {
        assert(evs(Seq::<Variable>::empty(), w) =~= fmapto(g, 0)(evs(s, w))); assert(evs(Seq::<Variable>::empty(), w) =~= fmix(mds, 0)(evs(s, w)));
    }
}

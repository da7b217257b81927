use core::marker::PhantomData;
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Variable(pub usize);
#[derive(Clone, Copy)]
pub enum Wire { W0(usize), W1(usize), W2(usize), W3(usize) }
pub struct Permutation { pub variable_map: WMap, pub _field: PhantomData<F> }
pub struct Composer {
    pub n: usize,
    pub q_0: Vec<F>, pub q_1: Vec<F>, pub q_2: Vec<F>, pub q_3: Vec<F>, pub q_m: Vec<F>, pub q_c: Vec<F>, pub q_arith: Vec<F>, pub pi: Vec<F>,
    pub w_0: Vec<Variable>, pub w_1: Vec<Variable>, pub w_2: Vec<Variable>, pub w_3: Vec<Variable>,
    pub null_var: Variable, pub permutation: Permutation, pub assignment: AMap,
}
pub enum Error { PolynomialDegreeTooLarge }
pub struct Selectors {
    pub n: usize,
    pub q_0: Vec<F>, pub q_1: Vec<F>, pub q_2: Vec<F>, pub q_3: Vec<F>, pub q_m: Vec<F>, pub q_c: Vec<F>, pub q_arith: Vec<F>,
    pub sigma_0: Vec<F>, pub sigma_1: Vec<F>, pub sigma_2: Vec<F>, pub sigma_3: Vec<F>,
}
pub struct Witnesses { pub w_0: Vec<F>, pub w_1: Vec<F>, pub w_2: Vec<F>, pub w_3: Vec<F> }
// ---- maps from variables (trusted: std / alloc) ----
#[verifier::external_body]
pub struct WMap { x: u8 }
impl View for WMap { type V = Map<Variable, Vec<Wire>>; uninterp spec fn view(&self) -> Map<Variable, Vec<Wire>>; }
// the keys are the variables below n
pub open spec fn upto<T>(m: Map<Variable, T>, n: int) -> bool { forall|v: Variable| #[trigger] m.contains_key(v) <==> v.0 < n }
pub uninterp spec fn count<T>(m: Map<Variable, T>) -> nat;
pub axiom fn ax_count<T>(m: Map<Variable, T>, n: int) requires upto(m, n), 0 <= n <= usize::MAX, ensures count(m) == n;
impl WMap {
    #[verifier::external_body] pub fn new() -> (r: WMap) ensures r@ == Map::<Variable, Vec<Wire>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == count(self@) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Variable, v: Vec<Wire>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &Variable) -> (r: Option<&mut Vec<Wire>>)
        ensures r is Some <==> old(self)@.contains_key(*k),
            r is Some ==> *r->Some_0 == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(r->Some_0)),
            r is None ==> final(self)@ == old(self)@,
    { unimplemented!() }
}
// the entries in some order
#[verifier::external_body]
pub fn wmap_entries(m: &WMap) -> (r: Vec<(Variable, Vec<Wire>)>) ensures ents(r@, m@),
{ unimplemented!() }
#[verifier::external_body]
pub struct AMap { x: u8 }
impl View for AMap { type V = Map<Variable, F>; uninterp spec fn view(&self) -> Map<Variable, F>; }
impl AMap {
    #[verifier::external_body] pub fn new() -> (r: AMap) ensures r@ == Map::<Variable, F>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Variable, v: F) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
// a missing key panics
#[verifier::external_body]
pub fn amap_get(m: &AMap, k: &Variable) -> (r: F) ensures m@.contains_key(*k), r == m@[*k] { unimplemented!() }
#[verifier::external_body]
pub fn vunwrap<T>(o: Option<T>) -> (r: T) ensures o == Some(r) { o.unwrap() }
pub fn vok_or<T>(o: Option<T>, e: Error) -> (r: Result<T, Error>) ensures r is Ok <==> o is Some, o is Some ==> r->Ok_0 == o->Some_0 { match o { Some(x) => Ok(x), None => Err(e) } }
#[verifier::external_body]
pub fn vclone_f(v: &Vec<F>) -> (r: Vec<F>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
pub fn vext_f(v: &mut Vec<F>, o: &Vec<F>) ensures final(v)@ == old(v)@ + o@ { unimplemented!() }
#[verifier::external_body]
pub fn vrepeat(x: F, n: usize) -> (r: Vec<F>) ensures r@ == Seq::new(n as nat, |i: int| x) { unimplemented!() }
// ---- the evaluation domain (trusted): a power of two at least n, and its elements in order ----
#[verifier::external_body]
pub struct Dom { x: u8 }
pub uninterp spec fn dsize(n: int) -> int;
pub uninterp spec fn root(m: int, i: int) -> F;
impl Clone for Dom { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Dom {}
impl Dom {
    pub uninterp spec fn m(self) -> int;
    #[verifier::external_body] pub fn new(n: usize) -> (r: Option<Dom>) ensures r is Some ==> n <= r->Some_0.m() && r->Some_0.m() == dsize(n as int) { unimplemented!() }
    #[verifier::external_body] pub fn size(&self) -> (r: usize) ensures r == self.m() { unimplemented!() }
    #[verifier::external_body] pub fn elements(&self) -> (r: Vec<F>) ensures r.len() == self.m(), forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == root(self.m(), i) { unimplemented!() }
}
// ---- wires ----
pub open spec fn wk(w: Wire) -> int { match w { Wire::W0(i) => 0, Wire::W1(i) => 1, Wire::W2(i) => 2, Wire::W3(i) => 3 } }
pub open spec fn wi(w: Wire) -> int { match w { Wire::W0(i) => i as int, Wire::W1(i) => i as int, Wire::W2(i) => i as int, Wire::W3(i) => i as int } }
pub open spec fn prev(j: int, n: int) -> int { if j == 0 { n - 1 } else { j - 1 } }
pub type WM = Map<Variable, Vec<Wire>>;
// wire w stands at place j of variable v
pub open spec fn listed(m: WM, v: Variable, j: int, w: Wire) -> bool { m.contains_key(v) && 0 <= j < m[v].len() && m[v][j] == w }
// every wire is listed at most once
pub open spec fn once(m: WM) -> bool { forall|v: Variable, j: int, v2: Variable, j2: int, w: Wire| #[trigger] listed(m, v, j, w) && #[trigger] listed(m, v2, j2, w) ==> v == v2 && j == j2 }
pub open spec fn below(m: WM, n: int) -> bool { forall|v: Variable, j: int, w: Wire| #[trigger] listed(m, v, j, w) ==> wi(w) < n }
pub open spec fn pick<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>, d: Seq<T>, w: Wire) -> T { if wk(w) == 0 { a[wi(w)] } else if wk(w) == 1 { b[wi(w)] } else if wk(w) == 2 { c[wi(w)] } else { d[wi(w)] } }
pub open spec fn wire(k: int, i: int) -> Wire { if k == 0 { Wire::W0(i as usize) } else if k == 1 { Wire::W1(i as usize) } else if k == 2 { Wire::W2(i as usize) } else { Wire::W3(i as usize) } }
// the permutation sends each listed wire to its predecessor in its variable's list, every other wire to itself
pub open spec fn perm_is(m: WM, n: int, f: spec_fn(Wire) -> Wire) -> bool {
    &&& forall|v: Variable, j: int, w: Wire| #[trigger] listed(m, v, j, w) ==> f(w) == m[v][prev(j, m[v].len() as int)]
    &&& forall|w: Wire| wi(w) < n && !(exists|v: Variable, j: int| #[trigger] listed(m, v, j, w)) ==> #[trigger] f(w) == w
}
pub open spec fn sig(p: [Vec<Wire>; 4]) -> spec_fn(Wire) -> Wire { |w: Wire| pick(p[0]@, p[1]@, p[2]@, p[3]@, w) }
pub open spec fn sigmas(m: int, ks: Seq<F>, f: spec_fn(Wire) -> Wire, a: Seq<F>, b: Seq<F>, c: Seq<F>, d: Seq<F>) -> bool {
    &&& a.len() == m && b.len() == m && c.len() == m && d.len() == m
    &&& forall|w: Wire| wi(w) < m ==> #[trigger] pick(a, b, c, d, w) == tag(m, ks, f(w))
}
pub open spec fn tag(m: int, ks: Seq<F>, w: Wire) -> F { fmul(root(m, wi(w)), ks[wk(w)]) }
pub open spec fn padded(v: Seq<F>, m: int) -> Seq<F> { Seq::new(m as nat, |i: int| if i < v.len() { v[i] } else { f0() }) }
// ---- the composer ----
pub open spec fn wv(c: Composer, k: int) -> Seq<Variable> { if k == 0 { c.w_0@ } else if k == 1 { c.w_1@ } else if k == 2 { c.w_2@ } else { c.w_3@ } }
pub open spec fn lens(c: Composer) -> bool {
    let n = c.n;
    &&& c.q_0.len() == n && c.q_1.len() == n && c.q_2.len() == n && c.q_3.len() == n && c.q_m.len() == n && c.q_c.len() == n && c.q_arith.len() == n && c.pi.len() == n
    &&& c.w_0.len() == n && c.w_1.len() == n && c.w_2.len() == n && c.w_3.len() == n
}
// exactly the wires of the gates are listed, each under its variable
pub open spec fn wires_ok(c: Composer) -> bool {
    let m = c.permutation.variable_map@;
    &&& once(m) && below(m, c.n as int)
    &&& forall|v: Variable, j: int, w: Wire| #[trigger] listed(m, v, j, w) ==> wv(c, wk(w))[wi(w)] == v
    &&& forall|w: Wire| wi(w) < c.n ==> exists|j: int| #[trigger] listed(m, wv(c, wk(w))[wi(w)], j, w)
}
pub open spec fn vars_ok(c: Composer, n: int) -> bool {
    &&& 0 <= n <= usize::MAX && upto(c.permutation.variable_map@, n) && upto(c.assignment@, n)
    &&& c.null_var.0 < n && c.assignment@[c.null_var] == f0()
}
pub open spec fn inv(c: Composer) -> bool { lens(c) && wires_ok(c) && exists|n: int| #[trigger] vars_ok(c, n) }
pub open spec fn known(c: Composer, v: Variable) -> bool { c.permutation.variable_map@.contains_key(v) }
// the gate equation of row i
pub open spec fn rowv(c: Composer, i: int, a: Map<Variable, F>) -> F {
    fadd(fadd(fadd(fadd(fadd(fadd(
        fmul(c.q_0[i], a[c.w_0[i]]), fmul(c.q_1[i], a[c.w_1[i]])), fmul(c.q_2[i], a[c.w_2[i]])), fmul(c.q_3[i], a[c.w_3[i]])),
        fmul(c.q_m[i], fmul(a[c.w_1[i]], a[c.w_2[i]]))), c.q_c[i]), c.pi[i])
}
// one row more, all the others as they were
pub open spec fn grown(o: Composer, c: Composer) -> bool {
    &&& c.n == o.n + 1 && c.null_var == o.null_var && c.assignment@ == o.assignment@
    &&& c.q_0@.drop_last() == o.q_0@ && c.q_1@.drop_last() == o.q_1@ && c.q_2@.drop_last() == o.q_2@ && c.q_3@.drop_last() == o.q_3@
    &&& c.q_m@.drop_last() == o.q_m@ && c.q_c@.drop_last() == o.q_c@ && c.q_arith@.drop_last() == o.q_arith@ && c.pi@.drop_last() == o.pi@
    &&& c.w_0@.drop_last() == o.w_0@ && c.w_1@.drop_last() == o.w_1@ && c.w_2@.drop_last() == o.w_2@ && c.w_3@.drop_last() == o.w_3@
    &&& c.q_arith[o.n as int] == f1()
    &&& forall|v: Variable| known(o, v) <==> #[trigger] known(c, v)
}
pub open spec fn auxv(x: Option<(Variable, F)>, a: Map<Variable, F>) -> F { match x { Some(p) => fmul(p.1, a[p.0]), None => f0() } }
pub open spec fn gatev(l: (Variable, F), r: (Variable, F), o: (Variable, F), x: Option<(Variable, F)>, qm: F, qc: F, pi: F, a: Map<Variable, F>) -> F {
    fadd(fadd(fadd(fadd(fadd(fadd(auxv(x, a), fmul(l.1, a[l.0])), fmul(r.1, a[r.0])), fmul(o.1, a[o.0])), fmul(qm, fmul(a[l.0], a[r.0]))), qc), pi)
}
pub open spec fn aux_known(c: Composer, x: Option<(Variable, F)>) -> bool { match x { Some(p) => known(c, p.0), None => true } }
pub open spec fn put(m: WM, m2: WM, v: Variable, w: Wire) -> bool {
    &&& forall|x: Variable| m2.contains_key(x) <==> #[trigger] m.contains_key(x)
    &&& m2.contains_key(v) && m2[v]@ == m[v]@.push(w)
    &&& forall|x: Variable| m.contains_key(x) && x != v ==> m2[x] == #[trigger] m[x]
}
pub open spec fn puts(m: WM, m2: WM, a: Variable, b: Variable, c: Variable, d: Variable, i: usize) -> bool {
    exists|x: WM, y: WM, z: WM| put(m, x, a, Wire::W0(i)) && #[trigger] put(x, y, b, Wire::W1(i)) && #[trigger] put(y, z, c, Wire::W2(i)) && put(z, m2, d, Wire::W3(i))
}
pub proof fn lemma_put(m: WM, m2: WM, v: Variable, w: Wire)
    requires put(m, m2, v, w), m.contains_key(v),
    ensures forall|x: Variable, j: int, u: Wire| #[trigger] listed(m2, x, j, u) <==> listed(m, x, j, u) || (x == v && j == m[v].len() && u == w),
{
    assert forall|x: Variable, j: int, u: Wire| #[trigger] listed(m2, x, j, u) <==> listed(m, x, j, u) || (x == v && j == m[v].len() && u == w) by {
        assert(m2.contains_key(x) <==> m.contains_key(x));
        if x == v { assert(m2[v]@.len() == m[v]@.len() + 1); if 0 <= j < m[v]@.len() { assert(m2[v]@[j] == m[v]@[j]); } }
    }
}
pub open spec fn islisted(m: WM, w: Wire) -> bool { exists|v: Variable, j: int| #[trigger] listed(m, v, j, w) }
pub proof fn lemma_put_once(m: WM, m2: WM, v: Variable, w: Wire)
    requires put(m, m2, v, w), m.contains_key(v), once(m), !islisted(m, w),
    ensures once(m2), forall|u: Wire| #[trigger] islisted(m2, u) <==> islisted(m, u) || u == w,
{
    lemma_put(m, m2, v, w);
    assert forall|u: Wire| #[trigger] islisted(m2, u) <==> islisted(m, u) || u == w by {
        if islisted(m, u) { let (x, j) = choose|x: Variable, j: int| #[trigger] listed(m, x, j, u); assert(listed(m2, x, j, u)); }
        if u == w { assert(listed(m2, v, m[v].len() as int, u)); }
        if islisted(m2, u) { let (x, j) = choose|x: Variable, j: int| #[trigger] listed(m2, x, j, u); if u != w { assert(listed(m, x, j, u)); } }
    }
    assert forall|a: Variable, j: int, b: Variable, j2: int, u: Wire| #[trigger] listed(m2, a, j, u) && #[trigger] listed(m2, b, j2, u) implies a == b && j == j2 by {
        if u == w { assert(!listed(m, a, j, u)) by { if listed(m, a, j, u) { assert(islisted(m, w)); } } assert(!listed(m, b, j2, u)) by { if listed(m, b, j2, u) { assert(islisted(m, w)); } } }
    }
}
// a gate's four wires join the lists of their variables
pub proof fn lemma_gate(o: Composer, c: Composer, a: Variable, l: Variable, r: Variable, u: Variable)
    requires lens(o), wires_ok(o), lens(c), grown(o, c), known(o, a), known(o, l), known(o, r), known(o, u), o.n < usize::MAX,
        puts(o.permutation.variable_map@, c.permutation.variable_map@, a, l, r, u, o.n),
        c.w_0[o.n as int] == a, c.w_1[o.n as int] == l, c.w_2[o.n as int] == r, c.w_3[o.n as int] == u,
    ensures wires_ok(c),
{
    let i = o.n;
    let m = o.permutation.variable_map@;
    let m2 = c.permutation.variable_map@;
    let (x, y, z) = choose|x: WM, y: WM, z: WM| put(m, x, a, Wire::W0(i)) && #[trigger] put(x, y, l, Wire::W1(i)) && #[trigger] put(y, z, r, Wire::W2(i)) && put(z, m2, u, Wire::W3(i));
    assert forall|w: Wire| wi(w) == i implies !islisted(m, w) by { if islisted(m, w) { let (v, j) = choose|v: Variable, j: int| #[trigger] listed(m, v, j, w); } }
    assert(m.contains_key(l) && m.contains_key(r) && m.contains_key(u));
    lemma_put_once(m, x, a, Wire::W0(i));
    lemma_put_once(x, y, l, Wire::W1(i));
    lemma_put_once(y, z, r, Wire::W2(i));
    lemma_put_once(z, m2, u, Wire::W3(i));
    lemma_put(m, x, a, Wire::W0(i));
    lemma_put(x, y, l, Wire::W1(i));
    lemma_put(y, z, r, Wire::W2(i));
    lemma_put(z, m2, u, Wire::W3(i));
    assert forall|v: Variable, j: int, w: Wire| #[trigger] listed(m2, v, j, w) implies wi(w) < c.n && wv(c, wk(w))[wi(w)] == v by {
        if listed(m, v, j, w) {
            assert(wv(o, wk(w))[wi(w)] == v);
            assert(wv(c, wk(w)).drop_last() == wv(o, wk(w)));
            assert(wv(c, wk(w)).drop_last()[wi(w)] == wv(c, wk(w))[wi(w)]);
        } else {
            assert(listed(z, v, j, w) || (v == u && w == Wire::W3(i)));
            assert(listed(y, v, j, w) || w == Wire::W2(i) || w == Wire::W3(i));
        }
    }
    assert forall|w: Wire| wi(w) < c.n implies exists|j: int| #[trigger] listed(m2, wv(c, wk(w))[wi(w)], j, w) by {
        if wi(w) < o.n {
            let v = wv(o, wk(w))[wi(w)];
            let j = choose|j: int| #[trigger] listed(m, v, j, w);
            assert(wv(c, wk(w)).drop_last() == wv(o, wk(w)));
            assert(wv(c, wk(w)).drop_last()[wi(w)] == wv(c, wk(w))[wi(w)]);
            assert(listed(x, v, j, w)); assert(listed(y, v, j, w)); assert(listed(z, v, j, w)); assert(listed(m2, v, j, w));
        } else if wk(w) == 0 {
            let j = m[a].len() as int;
            assert(w == Wire::W0(i)); assert(listed(x, a, j, w)); assert(listed(y, a, j, w)); assert(listed(z, a, j, w)); assert(listed(m2, a, j, w));
        } else if wk(w) == 1 {
            let j = x[l].len() as int;
            assert(w == Wire::W1(i)); assert(listed(y, l, j, w)); assert(listed(z, l, j, w)); assert(listed(m2, l, j, w));
        } else if wk(w) == 2 {
            let j = y[r].len() as int;
            assert(w == Wire::W2(i)); assert(listed(z, r, j, w)); assert(listed(m2, r, j, w));
        } else {
            let j = z[u].len() as int;
            assert(w == Wire::W3(i)); assert(listed(m2, u, j, w));
        }
    }
}
// ---- the loop over the entries ----
pub type Ent = Seq<(Variable, Vec<Wire>)>;
pub open spec fn at_e(b: Ent, e: int, j: int, w: Wire) -> bool { 0 <= e < b.len() && 0 <= j < b[e].1.len() && b[e].1[j] == w }
pub open spec fn before(e: int, j: int, k: int, kk: int) -> bool { e < k || (e == k && j < kk) }
pub open spec fn uniq(b: Ent) -> bool { forall|e: int, j: int, e2: int, j2: int, w: Wire| #[trigger] at_e(b, e, j, w) && #[trigger] at_e(b, e2, j2, w) ==> e == e2 && j == j2 }
pub open spec fn ents(b: Ent, m: WM) -> bool {
    &&& forall|i: int| 0 <= i < b.len() ==> m.contains_key((#[trigger] b[i]).0) && m[b[i].0] == b[i].1
    &&& forall|i: int, j: int| 0 <= i < j < b.len() ==> (#[trigger] b[i]).0 != (#[trigger] b[j]).0
    &&& forall|v: Variable| #[trigger] m.contains_key(v) ==> exists|i: int| 0 <= i < b.len() && #[trigger] b[i].0 == v
}
pub proof fn lemma_uniq(b: Ent, m: WM)
    requires ents(b, m), once(m),
    ensures uniq(b), forall|e: int, j: int, w: Wire| #[trigger] at_e(b, e, j, w) ==> listed(m, b[e].0, j, w),
{
    assert forall|e: int, j: int, w: Wire| #[trigger] at_e(b, e, j, w) implies listed(m, b[e].0, j, w) by { let z = b[e]; }
    assert forall|e: int, j: int, e2: int, j2: int, w: Wire| #[trigger] at_e(b, e, j, w) && #[trigger] at_e(b, e2, j2, w) implies e == e2 && j == j2 by {
        assert(listed(m, b[e].0, j, w) && listed(m, b[e2].0, j2, w));
        if e < e2 { let (y, z) = (b[e], b[e2]); } else if e2 < e { let (y, z) = (b[e2], b[e]); }
    }
}
#[verifier::opaque]
pub open spec fn pstate(b: Ent, k: int, kk: int, n: int, x: Seq<Wire>, y: Seq<Wire>, z: Seq<Wire>, t: Seq<Wire>) -> bool {
    &&& forall|e: int, j: int, w: Wire| #[trigger] at_e(b, e, j, w) && before(e, j, k, kk) ==> pick(x, y, z, t, w) == b[e].1[prev(j, b[e].1.len() as int)]
    &&& forall|w: Wire| wi(w) < n && (forall|e: int, j: int| #[trigger] at_e(b, e, j, w) ==> !before(e, j, k, kk)) ==> #[trigger] pick(x, y, z, t, w) == w
}
pub open spec fn four(n: int, x: Seq<Wire>, y: Seq<Wire>, z: Seq<Wire>, t: Seq<Wire>) -> bool { x.len() == n && y.len() == n && z.len() == n && t.len() == n }
pub proof fn lemma_pnext(b: Ent, k: int, kk: int, n: int, x: Seq<Wire>, y: Seq<Wire>, z: Seq<Wire>, t: Seq<Wire>)
    requires uniq(b), 0 <= k < b.len(), pstate(b, k, kk, n, x, y, z, t), kk >= b[k].1.len() || (kk == 0 && b[k].1.len() <= 1), forall|e: int, j: int, w: Wire| #[trigger] at_e(b, e, j, w) ==> wi(w) < n,
    ensures pstate(b, k + 1, 0, n, x, y, z, t),
{
    reveal(pstate);
    assert forall|e: int, j: int, w: Wire| #[trigger] at_e(b, e, j, w) && before(e, j, k + 1, 0) implies pick(x, y, z, t, w) == b[e].1[prev(j, b[e].1.len() as int)] by {
        if !before(e, j, k, kk) {
            // a variable with a single wire
            assert forall|e2: int, j2: int| #[trigger] at_e(b, e2, j2, w) implies !before(e2, j2, k, kk) by { assert(e2 == e && j2 == j); }
            assert(pick(x, y, z, t, w) == w);
        }
    }
    assert forall|w: Wire| wi(w) < n && (forall|e: int, j: int| #[trigger] at_e(b, e, j, w) ==> !before(e, j, k + 1, 0)) implies #[trigger] pick(x, y, z, t, w) == w by {
        assert forall|e: int, j: int| #[trigger] at_e(b, e, j, w) implies !before(e, j, k, kk) by { }
    }
}
pub proof fn lemma_pstep(b: Ent, k: int, kk: int, n: int, x: Seq<Wire>, y: Seq<Wire>, z: Seq<Wire>, t: Seq<Wire>, x2: Seq<Wire>, y2: Seq<Wire>, z2: Seq<Wire>, t2: Seq<Wire>)
    requires uniq(b), 0 <= k < b.len(), 0 <= kk < b[k].1.len(), pstate(b, k, kk, n, x, y, z, t), four(n, x, y, z, t), wi(b[k].1[kk]) < n,
        forall|e: int, j: int, w: Wire| #[trigger] at_e(b, e, j, w) ==> wi(w) < n,
        ({ let w = b[k].1[kk]; let v = b[k].1[prev(kk, b[k].1.len() as int)];
           x2 == (if wk(w) == 0 { x.update(wi(w), v) } else { x }) && y2 == (if wk(w) == 1 { y.update(wi(w), v) } else { y })
           && z2 == (if wk(w) == 2 { z.update(wi(w), v) } else { z }) && t2 == (if wk(w) == 3 { t.update(wi(w), v) } else { t }) }),
    ensures pstate(b, k, kk + 1, n, x2, y2, z2, t2), four(n, x2, y2, z2, t2),
{
    reveal(pstate);
    let w0 = b[k].1[kk];
    assert(at_e(b, k, kk, w0));
    assert forall|u: Wire| u != w0 && wi(u) < n implies #[trigger] pick(x2, y2, z2, t2, u) == pick(x, y, z, t, u) by { }
    assert(pick(x2, y2, z2, t2, w0) == b[k].1[prev(kk, b[k].1.len() as int)]);
    assert forall|e: int, j: int, w: Wire| #[trigger] at_e(b, e, j, w) && before(e, j, k, kk + 1) implies pick(x2, y2, z2, t2, w) == b[e].1[prev(j, b[e].1.len() as int)] by {
        if w == w0 { assert(e == k && j == kk); } else { assert(before(e, j, k, kk)) by { if e == k && j == kk { assert(w == w0); } } assert(pick(x2, y2, z2, t2, w) == pick(x, y, z, t, w)); }
    }
    assert forall|w: Wire| wi(w) < n && (forall|e: int, j: int| #[trigger] at_e(b, e, j, w) ==> !before(e, j, k, kk + 1)) implies #[trigger] pick(x2, y2, z2, t2, w) == w by {
        assert(w != w0) by { if w == w0 { assert(!before(k, kk, k, kk + 1)); } }
        assert forall|e: int, j: int| #[trigger] at_e(b, e, j, w) implies !before(e, j, k, kk) by { }
        assert(pick(x, y, z, t, w) == w);
    }
}
pub proof fn lemma_pinit(b: Ent, n: int, x: Seq<Wire>, y: Seq<Wire>, z: Seq<Wire>, t: Seq<Wire>)
    requires four(n, x, y, z, t), n <= usize::MAX, forall|i: int| 0 <= i < n ==> #[trigger] x[i] == Wire::W0(i as usize), forall|i: int| 0 <= i < n ==> #[trigger] y[i] == Wire::W1(i as usize),
        forall|i: int| 0 <= i < n ==> #[trigger] z[i] == Wire::W2(i as usize), forall|i: int| 0 <= i < n ==> #[trigger] t[i] == Wire::W3(i as usize),
    ensures pstate(b, 0, 0, n, x, y, z, t),
{ reveal(pstate); }
pub proof fn lemma_pdone(b: Ent, m: WM, n: int, p: [Vec<Wire>; 4])
    requires ents(b, m), once(m), below(m, n), pstate(b, b.len() as int, 0, n, p[0]@, p[1]@, p[2]@, p[3]@),
    ensures perm_is(m, n, sig(p)),
{
    reveal(pstate);
    let f = sig(p);
    lemma_uniq(b, m);
    assert forall|v: Variable, j: int, w: Wire| #[trigger] listed(m, v, j, w) implies f(w) == m[v][prev(j, m[v].len() as int)] by {
        let e = choose|e: int| 0 <= e < b.len() && #[trigger] b[e].0 == v;
        assert(at_e(b, e, j, w));
    }
    assert forall|w: Wire| wi(w) < n && !(exists|v: Variable, j: int| #[trigger] listed(m, v, j, w)) implies #[trigger] f(w) == w by {
        assert forall|e: int, j: int| #[trigger] at_e(b, e, j, w) implies false by { assert(listed(m, b[e].0, j, w)); }
    }
}
pub proof fn lemma_perm_below(m: WM, n: int, f: spec_fn(Wire) -> Wire)
    requires perm_is(m, n, f), below(m, n),
    ensures forall|w: Wire| wi(w) < n ==> wi(#[trigger] f(w)) < n,
{
    assert forall|w: Wire| wi(w) < n implies wi(#[trigger] f(w)) < n by {
        if islisted(m, w) {
            let (v, j) = choose|v: Variable, j: int| #[trigger] listed(m, v, j, w);
            let pj = prev(j, m[v].len() as int);
            assert(listed(m, v, pj, m[v][pj]));
        } else { assert(!(exists|v: Variable, j: int| #[trigger] listed(m, v, j, w))); }
    }
}
// ---- theorems ----
// values of the wires that the permutation leaves alone are values of the variables, and the other way round
pub proof fn thm_copy(c: Composer, m: int, f: spec_fn(Wire) -> Wire, x: spec_fn(Wire) -> F)
    requires inv(c), m >= c.n, perm_is(c.permutation.variable_map@, m, f),
    ensures (forall|w: Wire| wi(w) < m ==> x(#[trigger] f(w)) == x(w))
        <==> (forall|w: Wire, u: Wire| wi(w) < c.n && wi(u) < c.n && #[trigger] wv(c, wk(w))[wi(w)] == #[trigger] wv(c, wk(u))[wi(u)] ==> x(w) == x(u)),
{
    let mm = c.permutation.variable_map@;
    if forall|w: Wire| wi(w) < m ==> x(#[trigger] f(w)) == x(w) {
        assert forall|w: Wire, u: Wire| wi(w) < c.n && wi(u) < c.n && #[trigger] wv(c, wk(w))[wi(w)] == #[trigger] wv(c, wk(u))[wi(u)] implies x(w) == x(u) by {
            let v = wv(c, wk(w))[wi(w)];
            let j = choose|j: int| #[trigger] listed(mm, v, j, w);
            let j2 = choose|j: int| #[trigger] listed(mm, v, j, u);
            lemma_chain(c, m, f, x, v, j);
            lemma_chain(c, m, f, x, v, j2);
        }
    }
    if forall|w: Wire, u: Wire| wi(w) < c.n && wi(u) < c.n && #[trigger] wv(c, wk(w))[wi(w)] == #[trigger] wv(c, wk(u))[wi(u)] ==> x(w) == x(u) {
        assert forall|w: Wire| wi(w) < m implies x(#[trigger] f(w)) == x(w) by {
            if islisted(mm, w) {
                let (v, j) = choose|v: Variable, j: int| #[trigger] listed(mm, v, j, w);
                let pj = prev(j, mm[v].len() as int);
                let u = mm[v][pj];
                assert(listed(mm, v, pj, u));
                assert(wv(c, wk(w))[wi(w)] == v && wv(c, wk(u))[wi(u)] == v);
            } else { assert(!(exists|v: Variable, j: int| #[trigger] listed(mm, v, j, w))); }
        }
    }
}
pub proof fn lemma_chain(c: Composer, m: int, f: spec_fn(Wire) -> Wire, x: spec_fn(Wire) -> F, v: Variable, j: int)
    requires inv(c), m >= c.n, perm_is(c.permutation.variable_map@, m, f), forall|w: Wire| wi(w) < m ==> x(#[trigger] f(w)) == x(w),
        c.permutation.variable_map@.contains_key(v), 0 <= j < c.permutation.variable_map@[v].len(),
    ensures x(c.permutation.variable_map@[v][j]) == x(c.permutation.variable_map@[v][0]),
    decreases j
{
    let mm = c.permutation.variable_map@;
    if j > 0 {
        lemma_chain(c, m, f, x, v, j - 1);
        let w = mm[v][j];
        assert(listed(mm, v, j, w));
        assert(f(w) == mm[v][prev(j, mm[v].len() as int)]);
        assert(x(f(w)) == x(w));
    }
}
// the wire values synthesize returns, and the padded rows of compose
pub open spec fn wvals(c: Composer, k: int) -> Seq<F> { Seq::new(wv(c, k).len(), |i: int| c.assignment@[wv(c, k)[i]]) }
pub open spec fn witness_of(c: Composer, m: int, w: Witnesses) -> bool {
    w.w_0@ == padded(wvals(c, 0), m) && w.w_1@ == padded(wvals(c, 1), m) && w.w_2@ == padded(wvals(c, 2), m) && w.w_3@ == padded(wvals(c, 3), m)
}
pub open spec fn selectors_of(c: Composer, m: int, ks: Seq<F>, s: Selectors) -> bool {
    &&& s.n == m && s.q_0@ == padded(c.q_0@, m) && s.q_1@ == padded(c.q_1@, m) && s.q_2@ == padded(c.q_2@, m) && s.q_3@ == padded(c.q_3@, m)
    &&& s.q_m@ == padded(c.q_m@, m) && s.q_c@ == padded(c.q_c@, m) && s.q_arith@ == padded(c.q_arith@, m)
    &&& exists|f: spec_fn(Wire) -> Wire| #[trigger] perm_is(c.permutation.variable_map@, m, f) && sigmas(m, ks, f, s.sigma_0@, s.sigma_1@, s.sigma_2@, s.sigma_3@)
}
pub open spec fn selrow(s: Selectors, w: Witnesses, pi: Seq<F>, i: int) -> F {
    fadd(fadd(fadd(fadd(fadd(fadd(
        fmul(s.q_0[i], w.w_0[i]), fmul(s.q_1[i], w.w_1[i])), fmul(s.q_2[i], w.w_2[i])), fmul(s.q_3[i], w.w_3[i])),
        fmul(s.q_m[i], fmul(w.w_1[i], w.w_2[i]))), s.q_c[i]), pi[i])
}
// the composed rows hold for the synthesized witness exactly when the gates' equations hold for the assignment
pub proof fn thm_rows(c: Composer, m: int, ks: Seq<F>, s: Selectors, w: Witnesses)
    requires inv(c), m >= c.n, selectors_of(c, m, ks, s), witness_of(c, m, w),
    ensures forall|i: int| 0 <= i < c.n ==> #[trigger] selrow(s, w, padded(c.pi@, m), i) == rowv(c, i, c.assignment@),
        forall|i: int| c.n <= i < m ==> #[trigger] selrow(s, w, padded(c.pi@, m), i) == f0(),
{
    assert(fadd(fadd(fadd(fadd(fadd(fadd(fmul(f0(), f0()), fmul(f0(), f0())), fmul(f0(), f0())), fmul(f0(), f0())), fmul(f0(), fmul(f0(), f0()))), f0()), f0()) == f0()) by { zrow(f0()); }
}

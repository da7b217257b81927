#[derive(Debug)]
pub enum SynthesisError { AssignmentMissing, DivisionByZero, Unsatisfiable, PolynomialDegreeTooLarge, UnexpectedIdentity, MalformedVerifyingKey, UnconstrainedVariable }
#[derive(Clone, Copy)]
pub enum VariableIndex { Input(usize), Aux(usize) }
pub struct Variable(pub VariableIndex);
impl Variable {
    pub fn new_unchecked(i: VariableIndex) -> (r: Variable) ensures r.0 == i { Variable(i) }
    pub fn get_unchecked(&self) -> (r: VariableIndex) ensures r == self.0 { self.0 }
}
pub struct LinearCombination(pub Vec<(Variable, F)>);
impl LinearCombination {
    #[verifier::external_body] pub fn zero() -> (r: LinearCombination) ensures r.0@.len() == 0 { unimplemented!() }
    pub fn as_ref(&self) -> (r: &Vec<(Variable, F)>) ensures *r == self.0 { &self.0 }
}
pub fn identity<T>(x: T) -> (r: T) ensures r == x { x }
pub struct IndexerConstraintSystem {
    pub num_input_variables: usize, pub num_witness_variables: usize, pub num_constraints: usize,
    pub a: Vec<Vec<(F, VariableIndex)>>, pub b: Vec<Vec<(F, VariableIndex)>>, pub c: Vec<Vec<(F, VariableIndex)>>,
    pub a_matrix: Option<Matrix>, pub b_matrix: Option<Matrix>, pub c_matrix: Option<Matrix>,
}
pub struct ProverConstraintSystem { pub num_input_variables: usize, pub num_witness_variables: usize, pub num_constraints: usize, pub formatted_input_assignment: Vec<F>, pub witness_assignment: Vec<F> }
pub struct Matrix(pub Vec<Vec<(F, usize)>>);
// ---- rows ----
pub open spec fn row_of(l: LinearCombination) -> Seq<(F, VariableIndex)> { Seq::new(l.0@.len(), |i: int| (l.0@[i].1, l.0@[i].0.0)) }
pub open spec fn made<L: FnOnce(LinearCombination) -> LinearCombination>(l: L, r: Seq<(F, VariableIndex)>) -> bool {
    exists|z: LinearCombination, q: LinearCombination| z.0@.len() == 0 && #[trigger] l.ensures((z,), q) && r == row_of(q)
}
pub open spec fn grown(a: Seq<Vec<(F, VariableIndex)>>, b: Seq<Vec<(F, VariableIndex)>>) -> bool { b.len() == a.len() + 1 && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
// b is a followed by empty rows
pub open spec fn padrows(a: Seq<Vec<(F, VariableIndex)>>, b: Seq<Vec<(F, VariableIndex)>>, n: int) -> bool {
    &&& b.len() == n && n >= a.len()
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i]
    &&& forall|i: int| a.len() <= i < n ==> (#[trigger] b[i])@.len() == 0
}
pub open spec fn vcol(x: VariableIndex, n: int) -> int { match x { VariableIndex::Input(i) => i as int, VariableIndex::Aux(i) => n + i } }
pub open spec fn reidx(r: Seq<(F, VariableIndex)>, ni: int) -> Seq<(F, usize)> { Seq::new(r.len(), |j: int| (r[j].0, vcol(r[j].1, ni) as usize)) }
pub open spec fn cols_ok(m: Seq<Vec<(F, VariableIndex)>>, ni: int, nw: int) -> bool {
    forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m[i]@.len() ==> match (#[trigger] m[i]@[j]).1 { VariableIndex::Input(x) => x < ni, VariableIndex::Aux(x) => x < nw }
}
pub open spec fn ics_ok(s: IndexerConstraintSystem) -> bool {
    &&& s.a@.len() == s.num_constraints && s.b@.len() == s.num_constraints && s.c@.len() == s.num_constraints
    &&& s.num_input_variables >= 1 && s.num_input_variables + s.num_witness_variables < 0x1_0000_0000 && s.num_constraints < 0x1_0000_0000
    &&& cols_ok(s.a@, s.num_input_variables as int, s.num_witness_variables as int)
    &&& cols_ok(s.b@, s.num_input_variables as int, s.num_witness_variables as int)
    &&& cols_ok(s.c@, s.num_input_variables as int, s.num_witness_variables as int)
    &&& tot(s.a@, s.a@.len() as int) + tot(s.b@, s.b@.len() as int) < 0x1000_0000_0000_0000 && tot(s.c@, s.c@.len() as int) < 0x1000_0000_0000_0000
}
pub open spec fn max3(a: int, b: int, c: int) -> int { if a >= b && a >= c { a } else if b >= c { b } else { c } }
// t is the square version of s: the same constraints and inputs, and as many variables as constraints
pub open spec fn squared(s: IndexerConstraintSystem, t: IndexerConstraintSystem) -> bool {
    let n = max3(s.num_input_variables + s.num_witness_variables, s.num_constraints as int, 2);
    &&& t.num_input_variables == s.num_input_variables && t.num_input_variables + t.num_witness_variables == n && t.num_constraints == n
    &&& padrows(s.a@, t.a@, n) && padrows(s.b@, t.b@, n) && padrows(s.c@, t.c@, n)
}
pub open spec fn psquared(s: ProverConstraintSystem, t: ProverConstraintSystem) -> bool {
    let n = max3(s.num_input_variables + s.num_witness_variables, s.num_constraints as int, 2);
    &&& t.num_input_variables == s.num_input_variables && t.num_input_variables + t.num_witness_variables == n && t.num_constraints == n
    &&& t.formatted_input_assignment@ == s.formatted_input_assignment@
    &&& t.witness_assignment@.len() == n - s.num_input_variables && t.witness_assignment@.subrange(0, s.witness_assignment@.len() as int) == s.witness_assignment@
}
pub open spec fn pcs_ok(s: ProverConstraintSystem) -> bool {
    &&& s.formatted_input_assignment@.len() == s.num_input_variables && s.witness_assignment@.len() == s.num_witness_variables
    &&& s.num_input_variables >= 1 && s.num_input_variables + s.num_witness_variables < 0x1_0000_0000 && s.num_constraints < 0x1_0000_0000
}
// ---- matrices ----
pub open spec fn tot<T>(m: Seq<Vec<T>>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { tot(m, n - 1) + m[n - 1]@.len() } }
pub proof fn tot_pos<T>(m: Seq<Vec<T>>, n: int)
    ensures tot(m, n) >= 0, decreases n
{ if n > 0 { tot_pos(m, n - 1); } }
pub proof fn tot_mono<T>(m: Seq<Vec<T>>, k: int, n: int)
    requires 0 <= k <= n <= m.len(), ensures tot(m, k) <= tot(m, n), decreases n - k
{ if k < n { tot_mono(m, k, n - 1); } }
pub proof fn tot_cong<T, U>(m: Seq<Vec<T>>, p: Seq<Vec<U>>, n: int)
    requires forall|i: int| 0 <= i < n ==> (#[trigger] m[i])@.len() == p[i]@.len(), ensures tot(m, n) == tot(p, n), decreases n
{ if n > 0 { tot_cong(m, p, n - 1); } }
// one row replaced
pub proof fn tot_set<T>(m: Seq<Vec<T>>, p: Seq<Vec<T>>, k: int, n: int)
    requires 0 <= k < n <= m.len(), p.len() == m.len(), forall|i: int| 0 <= i < n && i != k ==> #[trigger] p[i] == m[i],
    ensures tot(p, n) == tot(m, n) - m[k]@.len() + p[k]@.len(), decreases n
{ if n - 1 == k { tot_cong(p, m, n - 1); } else { tot_set(m, p, k, n - 1); } }
pub proof fn tot_elem<T>(m: Seq<Vec<T>>, k: int, n: int)
    requires 0 <= k < n <= m.len(), ensures m[k]@.len() <= tot(m, n), decreases n
{ tot_pos(m, n - 1); if n - 1 != k { tot_elem(m, k, n - 1); } }
pub proof fn tot_pad<T>(m: Seq<Vec<T>>, p: Seq<Vec<T>>, k: int, n: int)
    requires 0 <= k <= n, forall|i: int| 0 <= i < k ==> (#[trigger] m[i])@.len() == p[i]@.len(), forall|i: int| k <= i < n ==> (#[trigger] p[i])@.len() == 0,
    ensures tot(p, n) == tot(m, k), decreases n
{ if n > k { tot_pad(m, p, k, n - 1); } else { tot_cong(m, p, n); } }
pub open spec fn rowsame<T>(a: Vec<T>, b: Vec<T>) -> bool { a@.to_multiset() == b@.to_multiset() }
// the same rows up to the order of their entries
pub open spec fn resorted(a: Seq<Vec<(F, usize)>>, b: Seq<Vec<(F, usize)>>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> rowsame(a[i], #[trigger] b[i]) }
// row i of both matrices kept, or exchanged
pub open spec fn kept(a: Seq<Vec<(F, usize)>>, b: Seq<Vec<(F, usize)>>, a2: Seq<Vec<(F, usize)>>, b2: Seq<Vec<(F, usize)>>, i: int) -> bool { (a2[i]@ == a[i]@ && b2[i]@ == b[i]@) || (a2[i]@ == b[i]@ && b2[i]@ == a[i]@) }
// the same, and the entries of a row in any order
pub open spec fn keptu(a: Seq<Vec<(F, usize)>>, b: Seq<Vec<(F, usize)>>, a2: Seq<Vec<(F, usize)>>, b2: Seq<Vec<(F, usize)>>, i: int) -> bool { (rowsame(a[i], a2[i]) && rowsame(b[i], b2[i])) || (rowsame(b[i], a2[i]) && rowsame(a[i], b2[i])) }
pub open spec fn reindexed(m: Seq<Vec<(F, VariableIndex)>>, r: Seq<Vec<(F, usize)>>, ni: int) -> bool { r.len() == m.len() && forall|i: int| 0 <= i < m.len() ==> (#[trigger] r[i])@ == reidx(m[i]@, ni) }
#[verifier::external_body]
pub fn vsort(r: &mut Vec<(F, usize)>) ensures final(r)@.to_multiset() == old(r)@.to_multiset(), final(r)@.len() == old(r)@.len() { unimplemented!() }
#[verifier::external_body]
pub fn vascending(r: &Vec<(F, usize)>) -> bool { unimplemented!() }
pub fn iabs(x: isize) -> (r: isize) requires x > isize::MIN, ensures r == (if x < 0 { -x } else { x as int }) { if x < 0 { -x } else { x } }
pub fn vmax4(v: &Vec<usize>) -> (r: Option<&usize>)
    requires v@.len() == 4,
    ensures r is Some, forall|i: int| 0 <= i < 4 ==> *r->Some_0 >= #[trigger] v@[i], exists|i: int| 0 <= i < 4 && *r->Some_0 == #[trigger] v@[i],
{
    let mut k = 0; if v[1] > v[k] { k = 1; } if v[2] > v[k] { k = 2; } if v[3] > v[k] { k = 3; }
    Some(&v[k])
}
// ---- what the processed matrices mean ----
pub open spec fn rz(r: Seq<(F, usize)>, z: spec_fn(int) -> F) -> F { vsum(|j: int| fmul(r[j].0, z(r[j].1 as int)), r.len() as int) }
pub open spec fn rzi(r: Seq<(F, VariableIndex)>, ni: int, z: spec_fn(int) -> F) -> F { vsum(|j: int| fmul(r[j].0, z(vcol(r[j].1, ni))), r.len() as int) }
pub open spec fn processed(s: IndexerConstraintSystem, a: Seq<Vec<(F, usize)>>, b: Seq<Vec<(F, usize)>>, c: Seq<Vec<(F, usize)>>) -> bool {
    exists|a0: Seq<Vec<(F, usize)>>, b0: Seq<Vec<(F, usize)>>, c0: Seq<Vec<(F, usize)>>| #[trigger] processed_by(s, a, b, c, a0, b0, c0)
}
pub open spec fn processed_by(s: IndexerConstraintSystem, a: Seq<Vec<(F, usize)>>, b: Seq<Vec<(F, usize)>>, c: Seq<Vec<(F, usize)>>, a0: Seq<Vec<(F, usize)>>, b0: Seq<Vec<(F, usize)>>, c0: Seq<Vec<(F, usize)>>) -> bool {
    let ni = s.num_input_variables as int;
    &&& reindexed(s.a@, a0, ni) && reindexed(s.b@, b0, ni) && reindexed(s.c@, c0, ni)
    &&& a.len() == a0.len() && b.len() == b0.len() && (forall|i: int| 0 <= i < a0.len() ==> #[trigger] keptu(a0, b0, a, b, i))
    &&& resorted(c0, c)
}
// the sum over a row does not depend on the order of its entries
pub open spec fn rzf(z: spec_fn(int) -> F) -> spec_fn(F, (F, usize)) -> F { |acc: F, e: (F, usize)| fadd(acc, fmul(e.0, z(e.1 as int))) }
pub proof fn lemma_rz_fold(r: Seq<(F, usize)>, z: spec_fn(int) -> F)
    ensures rz(r, z) == r.fold_left(f0(), rzf(z)),
    decreases r.len()
{
    let f = |j: int| fmul(r[j].0, z(r[j].1 as int));
    if r.len() > 0 {
        let p = r.drop_last();
        lemma_rz_fold(p, z);
        let g = |j: int| fmul(p[j].0, z(p[j].1 as int));
        vsum_cong(f, g, p.len() as int);
    }
}
pub proof fn lemma_rz_perm(r: Seq<(F, usize)>, t: Seq<(F, usize)>, z: spec_fn(int) -> F)
    requires r.to_multiset() == t.to_multiset(),
    ensures rz(r, z) == rz(t, z),
{
    lemma_rz_fold(r, z); lemma_rz_fold(t, z);
    let f = rzf(z);
    assert forall|x: (F, usize), y: (F, usize), v: F| #[trigger] f(f(v, x), y) == f(f(v, y), x) by {
        let (a, b) = (fmul(x.0, z(x.1 as int)), fmul(y.0, z(y.1 as int)));
        ax_add_assoc(v, a, b); ax_add_assoc(v, b, a); ax_add_comm(a, b);
    }
    vstd::seq_lib::lemma_fold_left_permutation(r, t, f, f0());
}
pub proof fn lemma_rz_reidx(r: Seq<(F, VariableIndex)>, ni: int, z: spec_fn(int) -> F)
    requires forall|j: int| 0 <= j < r.len() ==> 0 <= vcol((#[trigger] r[j]).1, ni) <= usize::MAX,
    ensures rz(reidx(r, ni), z) == rzi(r, ni, z),
{
    let t = reidx(r, ni);
    vsum_cong(|j: int| fmul(t[j].0, z(t[j].1 as int)), |j: int| fmul(r[j].0, z(vcol(r[j].1, ni))), r.len() as int);
}
// a full assignment satisfies the processed matrices exactly when it satisfies the recorded constraints
pub open spec fn sat_m(a: Seq<Vec<(F, usize)>>, b: Seq<Vec<(F, usize)>>, c: Seq<Vec<(F, usize)>>, z: spec_fn(int) -> F) -> bool {
    forall|i: int| 0 <= i < c.len() ==> fmul(rz(#[trigger] a[i]@, z), rz(b[i]@, z)) == rz(c[i]@, z)
}
pub open spec fn sat_c(s: IndexerConstraintSystem, z: spec_fn(int) -> F) -> bool {
    forall|i: int| 0 <= i < s.num_constraints ==> fmul(rzi(#[trigger] s.a@[i]@, s.num_input_variables as int, z), rzi(s.b@[i]@, s.num_input_variables as int, z)) == rzi(s.c@[i]@, s.num_input_variables as int, z)
}
pub proof fn thm_processed(s: IndexerConstraintSystem, a: Seq<Vec<(F, usize)>>, b: Seq<Vec<(F, usize)>>, c: Seq<Vec<(F, usize)>>, z: spec_fn(int) -> F)
    requires ics_ok(s), processed(s, a, b, c),
    ensures a.len() == s.num_constraints, b.len() == s.num_constraints, c.len() == s.num_constraints, sat_m(a, b, c, z) <==> sat_c(s, z),
{
    let (a0, b0, c0) = choose|a0: Seq<Vec<(F, usize)>>, b0: Seq<Vec<(F, usize)>>, c0: Seq<Vec<(F, usize)>>| #[trigger] processed_by(s, a, b, c, a0, b0, c0);
    let ni = s.num_input_variables as int;
    assert forall|i: int| 0 <= i < s.num_constraints implies (fmul(rz(#[trigger] a[i]@, z), rz(b[i]@, z)) == rz(c[i]@, z)) == (fmul(rzi(s.a@[i]@, ni, z), rzi(s.b@[i]@, ni, z)) == rzi(s.c@[i]@, ni, z)) by {
        assert(keptu(a0, b0, a, b, i) && rowsame(c0[i], c[i]));
        if rowsame(a0[i], a[i]) && rowsame(b0[i], b[i]) { lemma_rz_perm(a0[i]@, a[i]@, z); lemma_rz_perm(b0[i]@, b[i]@, z); } else { lemma_rz_perm(b0[i]@, a[i]@, z); lemma_rz_perm(a0[i]@, b[i]@, z); }
        lemma_rz_perm(c0[i]@, c[i]@, z);
        assert(a0[i]@ == reidx(s.a@[i]@, ni) && b0[i]@ == reidx(s.b@[i]@, ni) && c0[i]@ == reidx(s.c@[i]@, ni));
        lemma_rz_reidx(s.a@[i]@, ni, z); lemma_rz_reidx(s.b@[i]@, ni, z); lemma_rz_reidx(s.c@[i]@, ni, z);
        ax_mul_comm(rz(a0[i]@, z), rz(b0[i]@, z));
    }
    if sat_m(a, b, c, z) {
        assert forall|i: int| 0 <= i < s.num_constraints implies fmul(rzi(#[trigger] s.a@[i]@, ni, z), rzi(s.b@[i]@, ni, z)) == rzi(s.c@[i]@, ni, z) by { assert(fmul(rz(a[i]@, z), rz(b[i]@, z)) == rz(c[i]@, z)); }
    }
    if sat_c(s, z) {
        assert forall|i: int| 0 <= i < c.len() implies fmul(rz(#[trigger] a[i]@, z), rz(b[i]@, z)) == rz(c[i]@, z) by { assert(fmul(rzi(s.a@[i]@, ni, z), rzi(s.b@[i]@, ni, z)) == rzi(s.c@[i]@, ni, z)); }
    }
}
// squaring changes neither the constraints nor who satisfies them
pub proof fn thm_squared(s: IndexerConstraintSystem, t: IndexerConstraintSystem, z: spec_fn(int) -> F)
    requires ics_ok(s), squared(s, t),
    ensures sat_c(s, z) <==> sat_c(t, z),
{
    let ni = s.num_input_variables as int;
    assert forall|i: int| s.num_constraints <= i < t.num_constraints implies fmul(rzi(#[trigger] t.a@[i]@, ni, z), rzi(t.b@[i]@, ni, z)) == rzi(t.c@[i]@, ni, z) by {
        assert(t.a@[i]@.len() == 0 && t.b@[i]@.len() == 0 && t.c@[i]@.len() == 0);
        ax_mul_0(f0());
    }
    if sat_c(s, z) {
        assert forall|i: int| 0 <= i < t.num_constraints implies fmul(rzi(#[trigger] t.a@[i]@, ni, z), rzi(t.b@[i]@, ni, z)) == rzi(t.c@[i]@, ni, z) by {
            if i < s.num_constraints { assert(t.a@[i] == s.a@[i] && t.b@[i] == s.b@[i] && t.c@[i] == s.c@[i]); }
        }
    }
    if sat_c(t, z) {
        assert forall|i: int| 0 <= i < s.num_constraints implies fmul(rzi(#[trigger] s.a@[i]@, ni, z), rzi(s.b@[i]@, ni, z)) == rzi(s.c@[i]@, ni, z) by {
            assert(t.a@[i] == s.a@[i] && t.b@[i] == s.b@[i] && t.c@[i] == s.c@[i]);
        }
    }
}
pub fn vstr() -> u8 { 0 }
#[verifier::external_body]
pub fn vexpect<T, E>(r: Result<T, E>) -> (v: T) ensures r is Ok, v == r->Ok_0 { unimplemented!() }
// ---- the evaluation domain (trusted): a power of two at least n, its elements in order, re-indexing by a subdomain ----
#[verifier::external_body]
pub struct Dom { x: u8 }
impl Clone for Dom { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Dom {}
pub uninterp spec fn dsize(n: int) -> int;
pub uninterp spec fn root(m: int, i: int) -> F;
pub uninterp spec fn fsize(m: int) -> F;
pub uninterp spec fn van(m: int, x: F) -> F;
pub uninterp spec fn interp(m: int, v: Seq<F>) -> Seq<F>;
pub uninterp spec fn fft(m: int, v: Seq<F>) -> Seq<F>;
pub uninterp spec fn finv(x: F) -> F;
pub open spec fn sub(mh: int, mx: int, j: int) -> int { let p = mh / mx; if j < mx { j * p } else { (j - mx) + (j - mx) / (p - 1) + 1 } }
impl Dom {
    pub uninterp spec fn m(self) -> int;
    #[verifier::external_body] pub fn new(n: usize) -> (r: Option<Dom>) ensures r is Some ==> n <= r->Some_0.m() <= 0x1_0000_0000_0000 && r->Some_0.m() >= 1 && r->Some_0.m() == dsize(n as int) { unimplemented!() }
    #[verifier::external_body] pub fn size(&self) -> (r: usize) ensures r == self.m() { unimplemented!() }
    #[verifier::external_body] pub fn size_as_field_element(&self) -> (r: F) ensures r == fsize(self.m()) { unimplemented!() }
    #[verifier::external_body] pub fn evaluate_vanishing_polynomial(&self, x: F) -> (r: F) ensures r == van(self.m(), x) { unimplemented!() }
    #[verifier::external_body] pub fn elements(&self) -> (r: Vec<F>) ensures r.len() == self.m(), forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == root(self.m(), i) { unimplemented!() }
    #[verifier::external_body] pub fn reindex_by_subdomain(&self, d: Dom, j: usize) -> (r: usize) requires j < self.m(), ensures r == sub(self.m(), d.m(), j as int), r < self.m() { unimplemented!() }
    #[verifier::external_body] pub fn fft(&self, p: &Poly) -> (r: Vec<F>) ensures r@ == fft(self.m(), p.c()), r@.len() == self.m() { unimplemented!() }
}
#[verifier::external_body]
pub struct Poly { x: u8 }
impl Poly { pub uninterp spec fn c(self) -> Seq<F>; }
pub struct Evals { pub evals: Vec<F>, pub domain: Dom }
impl Evals {
    pub fn from_vec_and_domain(evals: Vec<F>, domain: Dom) -> (r: Evals) ensures r.evals == evals, r.domain == domain { Evals { evals, domain } }
    #[verifier::external_body] pub fn interpolate(self) -> (r: Poly) ensures r.c() == interp(self.domain.m(), self.evals@) { unimplemented!() }
}
impl Clone for Evals { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct LPoly { pub p: Poly, pub degree_bound: Option<usize>, pub hiding_bound: Option<usize> }
pub fn lpoly(p: Poly, d: Option<usize>, h: Option<usize>) -> (r: LPoly) ensures r.p == p, r.degree_bound == d, r.hiding_bound == h { LPoly { p, degree_bound: d, hiding_bound: h } }
#[verifier::external_body]
pub fn vbatchinv(v: &mut Vec<F>) ensures final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == finv(old(v)@[i]) { unimplemented!() }
#[verifier::external_body]
pub fn vrevtail(v: &mut Vec<F>, k: usize) requires k <= old(v)@.len(), ensures final(v)@ == old(v)@.subrange(0, k as int) + old(v)@.subrange(k as int, old(v)@.len() as int).reverse() { unimplemented!() }
pub struct MatrixPolynomials {
    pub row: LPoly, pub col: LPoly, pub val: LPoly, pub row_col: LPoly,
    pub row_evals_on_k: Evals, pub col_evals_on_k: Evals, pub val_evals_on_k: Evals,
    pub row_evals_on_b: Evals, pub col_evals_on_b: Evals, pub val_evals_on_b: Evals, pub row_col_evals_on_b: Evals,
}
pub open spec fn elems(m: int) -> Seq<F> { Seq::new(m as nat, |i: int| root(m, i)) }
// the derivative of the vanishing polynomial at the elements: |H| x^(|H|-1) = |H| / x, and 1/x^i is x^(m-i)
pub open spec fn diag(m: int) -> Seq<F> { Seq::new(m as nat, |i: int| fmul(fsize(m), root(m, if i == 0 { 0 } else { m - i }))) }
pub open spec fn mat_fits(m: Seq<Vec<(F, usize)>>, mh: int, mk: int) -> bool {
    &&& mh >= 1 && mk <= usize::MAX && m.len() <= mh && tot(m, m.len() as int) <= mk
    &&& forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m[i]@.len() ==> (#[trigger] m[i]@[j]).1 < mh
}
// the k-th entry of the matrix stands at place k; val before the division by the diagonal is w
pub open spec fn listed_to(m: Seq<Vec<(F, usize)>>, mx: int, mh: int, row: Seq<F>, col: Seq<F>, val: Seq<F>, den: Seq<F>, i: int, j: int) -> bool {
    let k = tot(m, i) + j;
    row[k] == root(mh, sub(mh, mx, m[i]@[j].1 as int)) && col[k] == root(mh, i) && val[k] == m[i]@[j].0 && den[k] == diag(mh)[sub(mh, mx, m[i]@[j].1 as int)]
}
pub open spec fn entry_at(m: Seq<Vec<(F, usize)>>, mx: int, mh: int, row: Seq<F>, col: Seq<F>, val: Seq<F>, i: int, j: int) -> bool {
    let k = tot(m, i) + j;
    row[k] == root(mh, sub(mh, mx, m[i]@[j].1 as int)) && col[k] == root(mh, i) && val[k] == fmul(m[i]@[j].0, finv(diag(mh)[sub(mh, mx, m[i]@[j].1 as int)]))
}
pub open spec fn rep(m: Seq<Vec<(F, usize)>>, mx: int, mh: int, mk: int, row: Seq<F>, col: Seq<F>, val: Seq<F>) -> bool {
    &&& row.len() == mk && col.len() == mk && val.len() == mk
    &&& forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m[i]@.len() ==> #[trigger] entry_at(m, mx, mh, row, col, val, i, j)
    &&& forall|k: int| tot(m, m.len() as int) <= k < mk ==> #[trigger] val[k] == f0() && row[k] == root(mh, 0) && col[k] == root(mh, 0)
}
pub open spec fn polys_ok(m: Seq<Vec<(F, usize)>>, mx: int, mh: int, mk: int, mb: int, p: MatrixPolynomials) -> bool {
    let (row, col, val) = (p.row_evals_on_k.evals@, p.col_evals_on_k.evals@, p.val_evals_on_k.evals@);
    let rc = Seq::new(row.len(), |k: int| fmul(row[k], col[k]));
    &&& rep(m, mx, mh, mk, row, col, val)
    &&& p.row_evals_on_k.domain.m() == mk && p.col_evals_on_k.domain.m() == mk && p.val_evals_on_k.domain.m() == mk
    &&& p.row.p.c() == interp(mk, row) && p.col.p.c() == interp(mk, col) && p.val.p.c() == interp(mk, val) && p.row_col.p.c() == interp(mk, rc)
    &&& p.row_evals_on_b.evals@ == fft(mb, interp(mk, row)) && p.col_evals_on_b.evals@ == fft(mb, interp(mk, col)) && p.val_evals_on_b.evals@ == fft(mb, interp(mk, val)) && p.row_col_evals_on_b.evals@ == fft(mb, interp(mk, rc))
    &&& p.row_evals_on_b.domain.m() == mb && p.col_evals_on_b.domain.m() == mb && p.val_evals_on_b.domain.m() == mb && p.row_col_evals_on_b.domain.m() == mb
    &&& p.row.degree_bound is None && p.col.degree_bound is None && p.val.degree_bound is None && p.row_col.degree_bound is None
    &&& p.row.hiding_bound is None && p.col.hiding_bound is None && p.val.hiding_bound is None && p.row_col.hiding_bound is None
}
// the sum over K of val * phi(row, col) is the sum over the matrix entries of v/diag * phi(column, row): the represented matrix is the matrix
pub open spec fn ksum(row: Seq<F>, col: Seq<F>, val: Seq<F>, phi: spec_fn(F, F) -> F, n: int) -> F { vsum(|k: int| fmul(val[k], phi(row[k], col[k])), n) }
pub open spec fn rowsum(m: Seq<Vec<(F, usize)>>, mx: int, mh: int, phi: spec_fn(F, F) -> F, i: int, n: int) -> F {
    vsum(|j: int| fmul(fmul(m[i]@[j].0, finv(diag(mh)[sub(mh, mx, m[i]@[j].1 as int)])), phi(root(mh, sub(mh, mx, m[i]@[j].1 as int)), root(mh, i))), n)
}
pub open spec fn msum(m: Seq<Vec<(F, usize)>>, mx: int, mh: int, phi: spec_fn(F, F) -> F, n: int) -> F
    decreases n
{ if n <= 0 { f0() } else { fadd(msum(m, mx, mh, phi, n - 1), rowsum(m, mx, mh, phi, n - 1, m[n - 1]@.len() as int)) } }
pub proof fn lemma_ksum(m: Seq<Vec<(F, usize)>>, mx: int, mh: int, mk: int, row: Seq<F>, col: Seq<F>, val: Seq<F>, phi: spec_fn(F, F) -> F, n: int)
    requires rep(m, mx, mh, mk, row, col, val), 0 <= n <= m.len(),
    ensures ksum(row, col, val, phi, tot(m, n)) == msum(m, mx, mh, phi, n), decreases n
{
    if n > 0 {
        lemma_ksum(m, mx, mh, mk, row, col, val, phi, n - 1);
        tot_pos(m, n - 1);
        let f = |k: int| fmul(val[k], phi(row[k], col[k]));
        vsum_split(f, tot(m, n - 1), tot(m, n));
        let g = |j: int| f(tot(m, n - 1) + j);
        let h = |j: int| fmul(fmul(m[n - 1]@[j].0, finv(diag(mh)[sub(mh, mx, m[n - 1]@[j].1 as int)])), phi(root(mh, sub(mh, mx, m[n - 1]@[j].1 as int)), root(mh, n - 1)));
        assert forall|j: int| 0 <= j < m[n - 1]@.len() implies #[trigger] g(j) == h(j) by { assert(entry_at(m, mx, mh, row, col, val, n - 1, j)); }
        vsum_cong(g, h, m[n - 1]@.len() as int);
    }
}
pub proof fn thm_represents(m: Seq<Vec<(F, usize)>>, mx: int, mh: int, mk: int, row: Seq<F>, col: Seq<F>, val: Seq<F>, phi: spec_fn(F, F) -> F)
    requires rep(m, mx, mh, mk, row, col, val), tot(m, m.len() as int) <= mk,
    ensures ksum(row, col, val, phi, mk) == msum(m, mx, mh, phi, m.len() as int),
{
    lemma_ksum(m, mx, mh, mk, row, col, val, phi, m.len() as int);
    tot_pos(m, m.len() as int);
    let f = |k: int| fmul(val[k], phi(row[k], col[k]));
    let t = tot(m, m.len() as int);
    vsum_split(f, t, mk);
    let g = |i: int| f(t + i);
    assert forall|i: int| 0 <= i < mk - t implies #[trigger] g(i) == f0() by { assert(val[t + i] == f0()); ax_mul_comm(f0(), phi(row[t + i], col[t + i])); ax_mul_0(phi(row[t + i], col[t + i])); }
    vsum_zero(g, mk - t);
    ax_add_0(vsum(f, t));
}
pub open spec fn fdiv(a: F, b: F) -> F { fmul(a, finv(b)) }
#[verifier::external_body]
pub fn fdivx(a: F, b: F) -> (r: F) ensures r == fdiv(a, b) { unimplemented!() }
pub uninterp spec fn fpow(a: F, n: int) -> F;
#[verifier::external_body]
pub fn vpow(a: F, e: &Vec<u64>) -> (r: F) requires e@.len() == 1, ensures r == fpow(a, e@[0] as int) { unimplemented!() }
pub enum Error { InstanceDoesNotMatchIndex, NonSquareMatrix, MissingEval(u8), ConstraintSystemError(SynthesisError), Unclassified }
pub struct IndexInfo { pub num_constraints: usize, pub num_variables: usize, pub num_non_zeros: usize }
pub struct Index { pub index_info: IndexInfo, pub a: Matrix, pub b: Matrix, pub c: Matrix, pub a_star_polys: MatrixPolynomials, pub b_star_polys: MatrixPolynomials, pub c_star_polys: MatrixPolynomials }
// a circuit, as the indexer's constraint system records it (trusted: it refers only to variables it allocated)
#[verifier::external_body]
pub struct Circ { x: u8 }
impl Circ {
    pub uninterp spec fn s(self) -> IndexerConstraintSystem;
    #[verifier::external_body]
    pub fn gen_index(self, k: &mut IndexerConstraintSystem) -> (r: Result<(), Error>)
        requires old(k).num_input_variables == 1, old(k).num_witness_variables == 0, old(k).num_constraints == 0, old(k).a@.len() == 0, old(k).b@.len() == 0, old(k).c@.len() == 0,
        ensures r is Ok ==> ics_ok(self.s()) && *final(k) == self.s(),
    { unimplemented!() }
}
pub fn vokor<T>(o: Option<T>) -> (r: Result<T, Error>) ensures o is Some ==> r == Ok::<T, Error>(o->Some_0), o is None ==> r is Err { match o { Some(x) => Ok(x), None => Err(Error::ConstraintSystemError(SynthesisError::PolynomialDegreeTooLarge)) } }
pub proof fn lemma_squared_ok(s: IndexerConstraintSystem, t: IndexerConstraintSystem)
    requires ics_ok(s), squared(s, t), ensures ics_ok(t),
{
    tot_pad(s.a@, t.a@, s.a@.len() as int, t.a@.len() as int);
    tot_pad(s.b@, t.b@, s.b@.len() as int, t.b@.len() as int);
    tot_pad(s.c@, t.c@, s.c@.len() as int, t.c@.len() as int);
    lemma_cols_pad(s.a@, t.a@, s.num_input_variables as int, s.num_witness_variables as int, t.num_witness_variables as int, t.num_constraints as int);
    lemma_cols_pad(s.b@, t.b@, s.num_input_variables as int, s.num_witness_variables as int, t.num_witness_variables as int, t.num_constraints as int);
    lemma_cols_pad(s.c@, t.c@, s.num_input_variables as int, s.num_witness_variables as int, t.num_witness_variables as int, t.num_constraints as int);
}
pub proof fn lemma_cols_pad(a: Seq<Vec<(F, VariableIndex)>>, b: Seq<Vec<(F, VariableIndex)>>, ni: int, nw: int, nw2: int, n: int)
    requires cols_ok(a, ni, nw), padrows(a, b, n), nw <= nw2, ensures cols_ok(b, ni, nw2),
{
    assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b[i]@.len() implies match (#[trigger] b[i]@[j]).1 { VariableIndex::Input(x) => x < ni, VariableIndex::Aux(x) => x < nw2 } by {
        if i < a.len() { assert(b[i] == a[i]); assert(a[i]@[j] == b[i]@[j]); } else { assert(b[i]@.len() == 0); }
    }
}
pub proof fn lemma_same_len<T>(a: Seq<T>, b: Seq<T>)
    requires a.to_multiset() == b.to_multiset(), ensures a.len() == b.len(),
{ a.to_multiset_ensures(); b.to_multiset_ensures(); }
// entries of a re-ordered row come from the row
pub proof fn lemma_row_cols(r: Seq<(F, VariableIndex)>, t: Seq<(F, usize)>, ni: int, nw: int, j: int)
    requires forall|q: int| 0 <= q < r.len() ==> match (#[trigger] r[q]).1 { VariableIndex::Input(x) => x < ni, VariableIndex::Aux(x) => x < nw }, 0 <= nw, 0 <= ni, ni + nw <= usize::MAX,
        reidx(r, ni).to_multiset() == t.to_multiset(), 0 <= j < t.len(),
    ensures t[j].1 < ni + nw,
{
    let u = reidx(r, ni);
    t.to_multiset_ensures(); u.to_multiset_ensures();
    assert(t.contains(t[j]));
    assert(t.to_multiset().count(t[j]) > 0);
    assert(u.to_multiset().count(t[j]) > 0);
    assert(u.contains(t[j]));
    let q = choose|q: int| 0 <= q < u.len() && u[q] == t[j];
    assert(r[q].1 == r[q].1);
}
pub proof fn lemma_tot_mix(a0: Seq<Vec<(F, usize)>>, b0: Seq<Vec<(F, usize)>>, a: Seq<Vec<(F, usize)>>, b: Seq<Vec<(F, usize)>>, n: int)
    requires 0 <= n <= a0.len(), a0.len() == b0.len(), forall|i: int| 0 <= i < a0.len() ==> #[trigger] keptu(a0, b0, a, b, i),
    ensures tot(a, n) + tot(b, n) == tot(a0, n) + tot(b0, n), decreases n
{
    if n > 0 {
        lemma_tot_mix(a0, b0, a, b, n - 1);
        assert(keptu(a0, b0, a, b, n - 1));
        if rowsame(a0[n - 1], a[n - 1]) && rowsame(b0[n - 1], b[n - 1]) { lemma_same_len(a0[n - 1]@, a[n - 1]@); lemma_same_len(b0[n - 1]@, b[n - 1]@); }
        else { lemma_same_len(b0[n - 1]@, a[n - 1]@); lemma_same_len(a0[n - 1]@, b[n - 1]@); }
    }
}
pub proof fn lemma_tot_same(c0: Seq<Vec<(F, usize)>>, c: Seq<Vec<(F, usize)>>, n: int)
    requires 0 <= n <= c0.len(), resorted(c0, c), ensures tot(c, n) == tot(c0, n), decreases n
{ if n > 0 { lemma_tot_same(c0, c, n - 1); assert(rowsame(c0[n - 1], c[n - 1])); lemma_same_len(c0[n - 1]@, c[n - 1]@); } }
pub open spec fn cols_below(m: Seq<Vec<(F, usize)>>, n: int) -> bool { forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m[i]@.len() ==> (#[trigger] m[i]@[j]).1 < n }
pub proof fn lemma_processed(s: IndexerConstraintSystem, a: Seq<Vec<(F, usize)>>, b: Seq<Vec<(F, usize)>>, c: Seq<Vec<(F, usize)>>)
    requires ics_ok(s), processed(s, a, b, c),
    ensures a.len() == s.num_constraints, b.len() == s.num_constraints, c.len() == s.num_constraints,
        cols_below(a, s.num_input_variables + s.num_witness_variables), cols_below(b, s.num_input_variables + s.num_witness_variables), cols_below(c, s.num_input_variables + s.num_witness_variables),
        tot(a, a.len() as int) < 0x1000_0000_0000_0000, tot(b, b.len() as int) < 0x1000_0000_0000_0000, tot(c, c.len() as int) < 0x1000_0000_0000_0000,
{
    let (a0, b0, c0) = choose|a0: Seq<Vec<(F, usize)>>, b0: Seq<Vec<(F, usize)>>, c0: Seq<Vec<(F, usize)>>| #[trigger] processed_by(s, a, b, c, a0, b0, c0);
    let (ni, nw, n) = (s.num_input_variables as int, s.num_witness_variables as int, s.num_constraints as int);
    lemma_tot_mix(a0, b0, a, b, n); lemma_tot_same(c0, c, n);
    tot_cong(s.a@, a0, n); tot_cong(s.b@, b0, n); tot_cong(s.c@, c0, n);
    tot_pos(a, n); tot_pos(b, n);
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < a[i]@.len() implies (#[trigger] a[i]@[j]).1 < ni + nw by {
        assert(keptu(a0, b0, a, b, i)); assert(a0[i]@ == reidx(s.a@[i]@, ni) && b0[i]@ == reidx(s.b@[i]@, ni));
        if rowsame(a0[i], a[i]) { lemma_row_cols(s.a@[i]@, a[i]@, ni, nw, j); } else { lemma_row_cols(s.b@[i]@, a[i]@, ni, nw, j); }
    }
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < b[i]@.len() implies (#[trigger] b[i]@[j]).1 < ni + nw by {
        assert(keptu(a0, b0, a, b, i)); assert(a0[i]@ == reidx(s.a@[i]@, ni) && b0[i]@ == reidx(s.b@[i]@, ni));
        if rowsame(b0[i], b[i]) { lemma_row_cols(s.b@[i]@, b[i]@, ni, nw, j); } else { lemma_row_cols(s.a@[i]@, b[i]@, ni, nw, j); }
    }
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < c[i]@.len() implies (#[trigger] c[i]@[j]).1 < ni + nw by {
        assert(rowsame(c0[i], c[i])); assert(c0[i]@ == reidx(s.c@[i]@, ni));
        lemma_row_cols(s.c@[i]@, c[i]@, ni, nw, j);
    }
}
// what the indexer returns for the system s
pub open spec fn index_ok(s: IndexerConstraintSystem, x: Index) -> bool {
    exists|t: IndexerConstraintSystem| #[trigger] index_by(s, t, x)
}
pub open spec fn index_by(s: IndexerConstraintSystem, t: IndexerConstraintSystem, x: Index) -> bool {
    let (mx, mh, mk) = (dsize(s.num_input_variables as int), dsize(x.index_info.num_variables as int), dsize(x.index_info.num_non_zeros as int));
    let mb = dsize(3 * mk - 3);
    &&& squared(s, t) && processed(t, x.a.0@, x.b.0@, x.c.0@)
    &&& x.index_info.num_constraints == t.num_constraints && x.index_info.num_variables == t.num_input_variables + t.num_witness_variables
    &&& x.index_info.num_non_zeros >= 2 && x.index_info.num_non_zeros >= tot(x.a.0@, x.a.0@.len() as int) && x.index_info.num_non_zeros >= tot(x.b.0@, x.b.0@.len() as int) && x.index_info.num_non_zeros >= tot(x.c.0@, x.c.0@.len() as int)
    &&& polys_ok(x.a.0@, mx, mh, mk, mb, x.a_star_polys) && polys_ok(x.b.0@, mx, mh, mk, mb, x.b_star_polys) && polys_ok(x.c.0@, mx, mh, mk, mb, x.c_star_polys)
}
// the indexed matrices are satisfied by an assignment exactly when the circuit's constraints are
pub proof fn thm_index(s: IndexerConstraintSystem, x: Index, z: spec_fn(int) -> F)
    requires ics_ok(s), index_ok(s, x), ensures sat_m(x.a.0@, x.b.0@, x.c.0@, z) <==> sat_c(s, z),
{
    let t = choose|t: IndexerConstraintSystem| #[trigger] index_by(s, t, x);
    lemma_squared_ok(s, t);
    thm_squared(s, t, z);
    thm_processed(t, x.a.0@, x.b.0@, x.c.0@, z);
}

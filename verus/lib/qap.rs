#[derive(Clone, Copy)]
pub enum Index { Input(usize), Aux(usize) }
pub open spec fn vcol(x: Index, n: int) -> int { match x { Index::Input(i) => i as int, Index::Aux(i) => n + i } }
pub open spec fn vrow(row: Seq<(F, Index)>, z: Seq<F>, ni: int, n: int) -> F
    decreases n
{ if n <= 0 { f0() } else { fadd(vrow(row, z, ni, n - 1), fmul(z[vcol(row[n - 1].1, ni)], row[n - 1].0)) } }
pub open spec fn rowv(row: Seq<(F, Index)>, z: Seq<F>, ni: int) -> F { vrow(row, z, ni, row.len() as int) }
pub open spec fn rows_ok(m: Seq<Vec<(F, Index)>>, ni: int, n: int) -> bool {
    forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m[i].len() ==> 0 <= vcol(#[trigger] m[i][j].1, ni) < n && (m[i][j].1 is Input ==> vcol(m[i][j].1, ni) < ni)
}
impl F { pub fn vmul(self, o: F) -> (r: F) ensures r == fmul(self, o) { self * o } }
#[derive(Clone, Copy)]
pub enum SynthesisError { AssignmentMissing, DivisionByZero, Unsatisfiable, PolynomialDegreeTooLarge, UnexpectedIdentity, MalformedVerifyingKey, UnconstrainedVariable, Other }
pub struct KeypairAssembly { pub num_inputs: usize, pub num_aux: usize, pub num_constraints: usize, pub at: Vec<Vec<(F, Index)>>, pub bt: Vec<Vec<(F, Index)>>, pub ct: Vec<Vec<(F, Index)>> }
pub struct ProvingAssignment { pub at: Vec<Vec<(F, Index)>>, pub bt: Vec<Vec<(F, Index)>>, pub ct: Vec<Vec<(F, Index)>>, pub input_assignment: Vec<F>, pub aux_assignment: Vec<F> }
pub open spec fn ka_ok(k: KeypairAssembly) -> bool {
    &&& 1 <= k.num_inputs && k.num_inputs + k.num_aux + k.num_constraints < 0x1_0000_0000
    &&& k.at.len() == k.num_constraints && k.bt.len() == k.num_constraints && k.ct.len() == k.num_constraints
    &&& rows_ok(k.at@, k.num_inputs as int, k.num_inputs + k.num_aux) && rows_ok(k.bt@, k.num_inputs as int, k.num_inputs + k.num_aux) && rows_ok(k.ct@, k.num_inputs as int, k.num_inputs + k.num_aux)
}
// what the columns of a matrix must be, stated on every assignment z: sum_i z_i a_i = sum over rows of u_row <row, z>
pub open spec fn upto(m: Seq<Vec<(F, Index)>>, u: Seq<F>, z: Seq<F>, ni: int, n: int) -> F
    decreases n
{ if n <= 0 { f0() } else { fadd(upto(m, u, z, ni, n - 1), fmul(u[n - 1], rowv(m[n - 1]@, z, ni))) } }
pub proof fn lemma_dot_update(a: Seq<F>, k: int, d: F, z: Seq<F>, n: int)
    requires 0 <= k < a.len(), 0 <= n <= a.len(),
    ensures vsum(term(a.update(k, fadd(a[k], d)), z), n) == (if k < n { fadd(vsum(term(a, z), n), fmul(d, z[k])) } else { vsum(term(a, z), n) }),
    decreases n
{
    if n > 0 {
        let b = a.update(k, fadd(a[k], d));
        lemma_dot_update(a, k, d, z, n - 1);
        let s = vsum(term(a, z), n - 1);
        if k == n - 1 {
            ax_distr(z[k], a[k], d);
            ax_add_assoc(s, fmul(a[k], z[k]), fmul(d, z[k]));
        } else if k < n - 1 {
            assert(b[n - 1] == a[n - 1]);
            ax_add_assoc(s, fmul(d, z[k]), fmul(a[n - 1], z[n - 1]));
            ax_add_assoc(s, fmul(a[n - 1], z[n - 1]), fmul(d, z[k]));
        }
    }
}
// one entry (coeff, index) of row i with factor u
pub proof fn lemma_entry(a: Seq<F>, k: int, u: F, c: F, z: Seq<F>, base: F, r: F)
    requires 0 <= k < a.len(), dot(a, z) == fadd(base, fmul(u, r)),
    ensures dot(a.update(k, fadd(a[k], fmul(u, c))), z) == fadd(base, fmul(u, fadd(r, fmul(z[k], c)))),
{
    lemma_dot_update(a, k, fmul(u, c), z, a.len() as int);
    ax_distr(u, r, fmul(z[k], c));
    ax_add_assoc(base, fmul(u, r), fmul(u, fmul(z[k], c)));
    ax_mul_assoc(u, c, z[k]);
}
pub open spec fn lags(m: int, t: F) -> Seq<F> { Seq::new(m as nat, |i: int| lag(m, t, i)) }
pub open spec fn inpt(u: Seq<F>, nc: int, z: Seq<F>) -> spec_fn(int) -> F { |i: int| fmul(u[nc + i], z[i]) }
pub open spec fn inp(u: Seq<F>, nc: int, z: Seq<F>, ni: int) -> F { vsum(inpt(u, nc, z), ni) }
pub open spec fn cola(k: KeypairAssembly, u: Seq<F>, z: Seq<F>, n: int) -> F { fadd(inp(u, k.num_constraints as int, z, k.num_inputs as int), upto(k.at@, u, z, k.num_inputs as int, n)) }
pub open spec fn colb(k: KeypairAssembly, u: Seq<F>, z: Seq<F>, n: int) -> F { upto(k.bt@, u, z, k.num_inputs as int, n) }
pub open spec fn colc(k: KeypairAssembly, u: Seq<F>, z: Seq<F>, n: int) -> F { upto(k.ct@, u, z, k.num_inputs as int, n) }
pub open spec fn qap_ok(k: KeypairAssembly, t: F, r: (Vec<F>, Vec<F>, Vec<F>, F, usize, usize)) -> bool {
    let u = lags(r.5 as int, t);
    let n = k.num_constraints as int;
    &&& r.4 == k.num_inputs - 1 + k.num_aux && r.0.len() == r.4 + 1 && r.1.len() == r.4 + 1 && r.2.len() == r.4 + 1
    &&& r.5 == dsize(n + k.num_inputs) && n + k.num_inputs <= r.5 <= 0x1_0000_0000_0000 && r.3 == van(r.5 as int, t)
    &&& forall|z: Seq<F>| #[trigger] dot(r.0@, z) == cola(k, u, z, n)
    &&& forall|z: Seq<F>| #[trigger] dot(r.1@, z) == colb(k, u, z, n)
    &&& forall|z: Seq<F>| #[trigger] dot(r.2@, z) == colc(k, u, z, n)
}
// the state of the loop over the constraints, with j entries of row i of one matrix read
pub open spec fn asm_ok(k: KeypairAssembly, u: Seq<F>, a: Seq<F>, b: Seq<F>, c: Seq<F>, i: int, ja: int, jb: int, jc: int) -> bool {
    let ni = k.num_inputs as int;
    &&& a.len() == k.num_inputs + k.num_aux && b.len() == a.len() && c.len() == a.len()
    &&& forall|z: Seq<F>| #[trigger] dot(a, z) == fadd(cola(k, u, z, i), fmul(u[i], vrow(k.at[i]@, z, ni, ja)))
    &&& forall|z: Seq<F>| #[trigger] dot(b, z) == fadd(colb(k, u, z, i), fmul(u[i], vrow(k.bt[i]@, z, ni, jb)))
    &&& forall|z: Seq<F>| #[trigger] dot(c, z) == fadd(colc(k, u, z, i), fmul(u[i], vrow(k.ct[i]@, z, ni, jc)))
}
pub open spec fn asm_at(k: KeypairAssembly, u: Seq<F>, a: Seq<F>, b: Seq<F>, c: Seq<F>, i: int) -> bool {
    &&& a.len() == k.num_inputs + k.num_aux && b.len() == a.len() && c.len() == a.len()
    &&& forall|z: Seq<F>| #[trigger] dot(a, z) == cola(k, u, z, i)
    &&& forall|z: Seq<F>| #[trigger] dot(b, z) == colb(k, u, z, i)
    &&& forall|z: Seq<F>| #[trigger] dot(c, z) == colc(k, u, z, i)
}
pub proof fn lemma_asm_first(k: KeypairAssembly, u: Seq<F>, a: Seq<F>, b: Seq<F>, c: Seq<F>)
    requires a.len() == k.num_inputs + k.num_aux, b.len() == a.len(), c.len() == a.len(),
        forall|i: int| 0 <= i < k.num_inputs ==> #[trigger] a[i] == u[k.num_constraints + i], forall|i: int| k.num_inputs <= i < a.len() ==> #[trigger] a[i] == f0(),
        forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == f0(), forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] == f0(),
    ensures asm_at(k, u, a, b, c, 0),
{
    let (ni, n) = (k.num_inputs as int, a.len() as int);
    assert forall|z: Seq<F>| #[trigger] dot(a, z) == cola(k, u, z, 0) by {
        let f = term(a, z);
        vsum_split(f, ni, n);
        vsum_cong(f, inpt(u, k.num_constraints as int, z), ni);
        vsum_zero(|i: int| f(ni + i), n - ni);
    }
    assert forall|z: Seq<F>| #[trigger] dot(b, z) == colb(k, u, z, 0) by { vsum_zero(term(b, z), n); }
    assert forall|z: Seq<F>| #[trigger] dot(c, z) == colc(k, u, z, 0) by { vsum_zero(term(c, z), n); }
}
pub proof fn lemma_asm_start(k: KeypairAssembly, u: Seq<F>, a: Seq<F>, b: Seq<F>, c: Seq<F>, i: int)
    requires asm_at(k, u, a, b, c, i),
    ensures asm_ok(k, u, a, b, c, i, 0, 0, 0),
{ }
pub proof fn lemma_asm_next(k: KeypairAssembly, u: Seq<F>, a: Seq<F>, b: Seq<F>, c: Seq<F>, i: int)
    requires 0 <= i < k.at.len(), k.bt.len() == k.at.len(), k.ct.len() == k.at.len(), asm_ok(k, u, a, b, c, i, k.at[i].len() as int, k.bt[i].len() as int, k.ct[i].len() as int),
    ensures asm_at(k, u, a, b, c, i + 1),
{
    assert forall|z: Seq<F>| #[trigger] dot(a, z) == cola(k, u, z, i + 1) by {
        let ni = k.num_inputs as int;
        ax_add_assoc(inp(u, k.num_constraints as int, z, ni), upto(k.at@, u, z, ni, i), fmul(u[i], rowv(k.at[i]@, z, ni)));
    }
}
pub proof fn lemma_entry_all(a: Seq<F>, b: Seq<F>, kk: int, u: F, row: Seq<(F, Index)>, j: int, ni: int, base: spec_fn(Seq<F>) -> F)
    requires 0 <= kk < a.len(), 0 <= j < row.len(), kk == vcol(row[j].1, ni), b == a.update(kk, fadd(a[kk], fmul(u, row[j].0))),
        forall|z: Seq<F>| #[trigger] dot(a, z) == fadd(base(z), fmul(u, vrow(row, z, ni, j))),
    ensures forall|z: Seq<F>| #[trigger] dot(b, z) == fadd(base(z), fmul(u, vrow(row, z, ni, j + 1))),
{
    assert forall|z: Seq<F>| #[trigger] dot(b, z) == fadd(base(z), fmul(u, vrow(row, z, ni, j + 1))) by {
        assert(dot(a, z) == fadd(base(z), fmul(u, vrow(row, z, ni, j))));
        lemma_entry(a, kk, u, row[j].0, z, base(z), vrow(row, z, ni, j));
    }
}

// ---- the prover's side ----
pub open spec fn pa_ok(p: ProvingAssignment) -> bool {
    let ni = p.input_assignment.len() as int;
    let n = ni + p.aux_assignment.len();
    &&& 1 <= ni && n + p.at.len() < 0x1_0000_0000
    &&& p.bt.len() == p.at.len() && p.ct.len() == p.at.len()
    &&& rows_ok(p.at@, ni, n) && rows_ok(p.bt@, ni, n) && rows_ok(p.ct@, ni, n)
}
pub open spec fn zof(p: ProvingAssignment) -> Seq<F> { p.input_assignment@ + p.aux_assignment@ }
pub open spec fn rowsv(m: Seq<Vec<(F, Index)>>, z: Seq<F>, ni: int, len: int) -> Seq<F> { Seq::new(len as nat, |i: int| if i < m.len() { rowv(m[i]@, z, ni) } else { f0() }) }
pub open spec fn wit_a(p: ProvingAssignment, len: int) -> Seq<F> {
    let ni = p.input_assignment.len() as int;
    Seq::new(len as nat, |i: int| if i < p.at.len() { rowv(p.at[i]@, zof(p), ni) } else if i < p.at.len() + ni { zof(p)[i - p.at.len()] } else { f0() })
}
pub open spec fn wit_b(p: ProvingAssignment, len: int) -> Seq<F> { rowsv(p.bt@, zof(p), p.input_assignment.len() as int, len) }
pub open spec fn wit_c(p: ProvingAssignment, len: int) -> Seq<F> { rowsv(p.ct@, zof(p), p.input_assignment.len() as int, len) }
#[verifier::external_body]
pub fn vconcat<T>(a: &[&[T]; 2]) -> (r: Vec<T>) ensures r@ == a[0]@ + a[1]@ { unimplemented!() }
pub fn vdrop<T>(t: T) { }
pub proof fn lemma_row_cols(m: Seq<Vec<(F, Index)>>, ni: int, n: int, i: int)
    requires rows_ok(m, ni, n), 0 <= i < m.len(),
    ensures forall|j: int| 0 <= j < m[i].len() ==> 0 <= vcol(#[trigger] m[i][j].1, ni) < n,
{ }
// ---- the circuit ----
#[derive(Clone, Copy)]
pub struct Variable(pub Index);
impl Variable {
    pub fn new_unchecked(i: Index) -> (r: Variable) ensures r.0 == i { Variable(i) }
    pub fn get_unchecked(&self) -> (r: Index) ensures r == self.0 { self.0 }
}
pub struct LinearCombination(pub Vec<(Variable, F)>);
impl LinearCombination {
    #[verifier::external_body] pub fn zero() -> (r: LinearCombination) ensures r.0@.len() == 0 { unimplemented!() }
    pub fn as_ref(&self) -> (r: &Vec<(Variable, F)>) ensures *r == self.0 { &self.0 }
}
// a row of the matrices: the terms of a linear combination, in order
pub open spec fn row_of(l: LinearCombination) -> Seq<(F, Index)> { Seq::new(l.0@.len(), |i: int| (l.0@[i].1, l.0@[i].0.0)) }
pub open spec fn made<L: FnOnce(LinearCombination) -> LinearCombination>(l: L, r: Seq<(F, Index)>) -> bool {
    exists|z: LinearCombination, q: LinearCombination| z.0@.len() == 0 && #[trigger] l.ensures((z,), q) && r == row_of(q)
}
pub open spec fn grown(a: Seq<Vec<(F, Index)>>, b: Seq<Vec<(F, Index)>>) -> bool { b.len() == a.len() + 1 && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
// a circuit, as the two runs of it see it: the same constraints and the same number of variables in both (trusted: what ConstraintSynthesizer asks for)
#[verifier::external_body]
pub struct Circ { x: u8 }
impl Clone for Circ { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Circ {}
impl Circ {
    pub uninterp spec fn at(self) -> Seq<Vec<(F, Index)>>;
    pub uninterp spec fn bt(self) -> Seq<Vec<(F, Index)>>;
    pub uninterp spec fn ct(self) -> Seq<Vec<(F, Index)>>;
    pub uninterp spec fn x(self) -> Seq<F>;
    pub uninterp spec fn w(self) -> Seq<F>;
    pub open spec fn z(self) -> Seq<F> { seq![f1()] + self.x() + self.w() }
    pub open spec fn ni(self) -> int { 1 + self.x().len() as int }
    pub open spec fn ok(self) -> bool {
        &&& self.x().len() + self.w().len() + self.at().len() + 1 < 0x1_0000_0000
        &&& self.bt().len() == self.at().len() && self.ct().len() == self.at().len()
        &&& rows_ok(self.at(), self.ni(), self.z().len() as int) && rows_ok(self.bt(), self.ni(), self.z().len() as int) && rows_ok(self.ct(), self.ni(), self.z().len() as int)
    }
    pub open spec fn sat(self) -> bool {
        forall|i: int| 0 <= i < self.at().len() ==> fmul(rowv(#[trigger] self.at()[i]@, self.z(), self.ni()), rowv(self.bt()[i]@, self.z(), self.ni())) == rowv(self.ct()[i]@, self.z(), self.ni())
    }
    #[verifier::external_body]
    pub fn gen_keys(self, k: &mut KeypairAssembly) -> (r: Result<(), SynthesisError>)
        requires old(k).num_inputs == 1, old(k).num_aux == 0, old(k).num_constraints == 0, old(k).at.len() == 0, old(k).bt.len() == 0, old(k).ct.len() == 0,
        ensures r is Ok ==> self.ok() && final(k).num_inputs == self.ni() && final(k).num_aux == self.w().len() && final(k).num_constraints == self.at().len() && final(k).at@ == self.at() && final(k).bt@ == self.bt() && final(k).ct@ == self.ct(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn gen_proof(self, p: &mut ProvingAssignment) -> (r: Result<(), SynthesisError>)
        requires old(p).input_assignment.len() == 1, old(p).input_assignment[0] == f1(), old(p).aux_assignment.len() == 0, old(p).at.len() == 0, old(p).bt.len() == 0, old(p).ct.len() == 0,
        ensures r is Ok ==> self.ok() && final(p).input_assignment@ == seq![f1()] + self.x() && final(p).aux_assignment@ == self.w() && final(p).at@ == self.at() && final(p).bt@ == self.bt() && final(p).ct@ == self.ct(),
    { unimplemented!() }
}

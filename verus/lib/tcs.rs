// ---- the testing constraint system ----
pub enum SynthesisError { AssignmentMissing, DivisionByZero, Unsatisfiable, PolynomialDegreeTooLarge, UnexpectedIdentity, MalformedVerifyingKey, UnconstrainedVariable }
// strings
#[verifier::external_body]
pub struct Name { x: u8 }
impl View for Name { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Clone for Name { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub fn name_new() -> (r: Name) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn name_chars(n: &Name) -> (r: Vec<char>) ensures r@ == n@ { unimplemented!() }
impl vstd::std_specs::cmp::PartialEqSpecImpl<Name> for &Name {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Name) -> bool { (*self)@ == o@ }
}
impl PartialEq<Name> for &Name { #[verifier::external_body] fn eq(&self, o: &Name) -> bool { unimplemented!() } }
pub trait AsName { spec fn text(&self) -> Seq<char>; fn add_to(self, n: &mut Name) where Self: Sized ensures final(n)@ == old(n)@ + self.text(); }
impl AsName for &Name {
    open spec fn text(&self) -> Seq<char> { (*self)@ }
    #[verifier::external_body] fn add_to(self, n: &mut Name) { unimplemented!() }
}
impl AsName for &str {
    open spec fn text(&self) -> Seq<char> { (*self)@ }
    #[verifier::external_body] fn add_to(self, n: &mut Name) { unimplemented!() }
}
pub trait Conv { spec fn cv(&self) -> Seq<char>; fn conv(self) -> (r: Name) where Self: Sized ensures r@ == self.cv(); }
impl Conv for &str {
    open spec fn cv(&self) -> Seq<char> { (*self)@ }
    #[verifier::external_body] fn conv(self) -> (r: Name) { unimplemented!() }
}
impl Conv for Name {
    open spec fn cv(&self) -> Seq<char> { self@ }
    fn conv(self) -> (r: Name) { self }
}
pub enum NamedObject { Constraint(usize), Var(Variable), Namespace }
// HashMap<String, NamedObject>
#[verifier::external_body]
pub struct Names { x: u8 }
impl View for Names { type V = Map<Seq<char>, NamedObject>; uninterp spec fn view(&self) -> Map<Seq<char>, NamedObject>; }
impl Names {
    #[verifier::external_body]
    pub fn new() -> (r: Names) ensures r@ == Map::<Seq<char>, NamedObject>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Name, v: NamedObject) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &Name) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &Name) -> (r: Option<&NamedObject>)
        ensures self@.contains_key(k@) ==> r == Some(&self@[k@]), !self@.contains_key(k@) ==> r is None { unimplemented!() }
}
pub struct TestConstraintSystem {
    pub named_objects: Names,
    pub current_namespace: Vec<Name>,
    pub constraints: Vec<(LinearCombination, LinearCombination, LinearCombination, Name)>,
    pub inputs: Vec<(F, Name)>,
    pub aux: Vec<(F, Name)>,
}
pub open spec fn one_var() -> Variable { Variable(Index::Input(0)) }
#[verifier::external_body]
pub fn vone() -> (r: Variable) ensures r == one_var() { unimplemented!() }
pub open spec fn inr(v: Variable, ni: int, na: int) -> bool {
    match v.0 { Index::Input(i) => i < ni, Index::Aux(i) => i < na }
}
pub open spec fn lc_in(s: Seq<(Variable, F)>, ni: int, na: int) -> bool { forall|i: int| 0 <= i < s.len() ==> inr((#[trigger] s[i]).0, ni, na) }
pub open spec fn cell(inputs: Seq<(F, Name)>, aux: Seq<(F, Name)>, v: Variable) -> F {
    match v.0 { Index::Input(i) => inputs[i as int].0, Index::Aux(i) => aux[i as int].0 }
}
pub open spec fn asg(inputs: Seq<(F, Name)>, aux: Seq<(F, Name)>) -> Asg { |v: Variable| cell(inputs, aux, v) }
pub open spec fn cname(t: TestConstraintSystem, v: Variable) -> Seq<char> {
    match v.0 { Index::Input(i) => t.inputs@[i as int].1@, Index::Aux(i) => t.aux@[i as int].1@ }
}
impl TestConstraintSystem {
    pub open spec fn w(&self) -> Asg { asg(self.inputs@, self.aux@) }
    pub open spec fn has(&self, v: Variable) -> bool { inr(v, self.inputs@.len() as int, self.aux@.len() as int) }
    // constraint i holds
    pub open spec fn holds(&self, i: int) -> bool {
        fmul(lce(self.constraints@[i].0.0@, self.w()), lce(self.constraints@[i].1.0@, self.w())) == lce(self.constraints@[i].2.0@, self.w())
    }
    pub open spec fn inv(&self) -> bool {
        &&& self.inputs@.len() >= 1 && self.inputs@[0].1@ == "ONE"@
        &&& forall|i: int| 0 <= i < self.constraints@.len() ==> closed(#[trigger] self.constraints@[i], self.inputs@.len() as int, self.aux@.len() as int)
        // every variable is found under its own path, and nothing else is
        &&& forall|v: Variable| #[trigger] self.has(v) ==> self.named_objects@.contains_key(cname(*self, v)) && self.named_objects@[cname(*self, v)] == NamedObject::Var(v)
        &&& forall|p: Seq<char>| #[trigger] self.named_objects@.contains_key(p) && self.named_objects@[p] is Var ==> self.has(self.named_objects@[p]->Var_0) && cname(*self, self.named_objects@[p]->Var_0) == p
        // and so is every constraint
        &&& forall|i: int| 0 <= i < self.constraints@.len() ==> self.named_objects@.contains_key((#[trigger] self.constraints@[i]).3@) && self.named_objects@[self.constraints@[i].3@] == NamedObject::Constraint(i as usize)
    }
}
pub open spec fn closed(c: (LinearCombination, LinearCombination, LinearCombination, Name), ni: int, na: int) -> bool {
    lc_in(c.0.0@, ni, na) && lc_in(c.1.0@, ni, na) && lc_in(c.2.0@, ni, na)
}
// the components joined by slashes
pub open spec fn join(s: Seq<Name>, k: int) -> Seq<char>
    decreases k,
{
    if k <= 0 { Seq::<char>::empty() } else if k == 1 { s[0]@ } else { join(s, k - 1) + "/"@ + s[k - 1]@ }
}
pub open spec fn jn(s: Seq<Name>, t: Seq<char>) -> Seq<char> { if s.len() == 0 { t } else { join(s, s.len() as int) + "/"@ + t } }
pub open spec fn path_of(t: TestConstraintSystem, name: Name) -> Seq<char> { jn(t.current_namespace@, name@) }
pub fn vclone_cell(c: &(F, Name)) -> (r: (F, Name)) ensures r == *c { (c.0, c.1.clone()) }
pub proof fn lemma_join_push(s: Seq<Name>, x: Name, k: int)
    requires 0 <= k <= s.len(),
    ensures join(s.push(x), k) == join(s, k),
    decreases k,
{ if k > 0 { assert(s.push(x)[k - 1] == s[k - 1]); if k > 1 { lemma_join_push(s, x, k - 1); } } }
// one more variable, under a path of its own
pub proof fn lemma_new_var(o: TestConstraintSystem, n: TestConstraintSystem, v: Variable, p: Seq<char>)
    requires o.inv(), !o.named_objects@.contains_key(p), n.named_objects@ == o.named_objects@.insert(p, NamedObject::Var(v)), n.constraints == o.constraints,
        !o.has(v), n.has(v), cname(n, v) == p, n.inputs@.len() >= o.inputs@.len() && n.aux@.len() >= o.aux@.len(),
        forall|u: Variable| #[trigger] n.has(u) ==> u == v || (o.has(u) && cname(n, u) == cname(o, u)),
        n.inputs@[0] == o.inputs@[0],
    ensures n.inv(),
{
    let (a, b) = (o.inputs@.len() as int, o.aux@.len() as int);
    let (c, d) = (n.inputs@.len() as int, n.aux@.len() as int);
    assert forall|u: Variable| #[trigger] inr(u, a, b) implies inr(u, c, d) by { }
    assert forall|i: int| 0 <= i < n.constraints@.len() implies closed(#[trigger] n.constraints@[i], c, d) by {
        let k = o.constraints@[i];
        assert(closed(k, a, b));
        assert forall|j: int| 0 <= j < k.0.0@.len() implies inr((#[trigger] k.0.0@[j]).0, c, d) by { assert(inr(k.0.0@[j].0, a, b)); }
        assert forall|j: int| 0 <= j < k.1.0@.len() implies inr((#[trigger] k.1.0@[j]).0, c, d) by { assert(inr(k.1.0@[j].0, a, b)); }
        assert forall|j: int| 0 <= j < k.2.0@.len() implies inr((#[trigger] k.2.0@[j]).0, c, d) by { assert(inr(k.2.0@[j].0, a, b)); }
    }
    assert forall|u: Variable| #[trigger] n.has(u) implies n.named_objects@.contains_key(cname(n, u)) && n.named_objects@[cname(n, u)] == NamedObject::Var(u) by {
        if u != v { assert(o.has(u)); assert(cname(o, u) != p); }
    }
    assert forall|q: Seq<char>| #[trigger] n.named_objects@.contains_key(q) && n.named_objects@[q] is Var implies n.has(n.named_objects@[q]->Var_0) && cname(n, n.named_objects@[q]->Var_0) == q by {
        if q != p {
            assert(o.named_objects@.contains_key(q));
            let u = o.named_objects@[q]->Var_0;
            assert(o.has(u));
            assert(n.has(u));
        }
    }
}
pub proof fn lemma_other(o: TestConstraintSystem, n: TestConstraintSystem, x: NamedObject, p: Seq<char>)
    requires o.inv(), !o.named_objects@.contains_key(p), !(x is Var), n.named_objects@ == o.named_objects@.insert(p, x), n.inputs == o.inputs, n.aux == o.aux,
    ensures
        forall|v: Variable| #[trigger] n.has(v) ==> n.named_objects@.contains_key(cname(n, v)) && n.named_objects@[cname(n, v)] == NamedObject::Var(v),
        forall|q: Seq<char>| #[trigger] n.named_objects@.contains_key(q) && n.named_objects@[q] is Var ==> n.has(n.named_objects@[q]->Var_0) && cname(n, n.named_objects@[q]->Var_0) == q,
{
    assert forall|v: Variable| #[trigger] n.has(v) implies n.named_objects@.contains_key(cname(n, v)) && n.named_objects@[cname(n, v)] == NamedObject::Var(v) by { assert(o.has(v)); assert(cname(o, v) == cname(n, v)); }
    assert forall|q: Seq<char>| #[trigger] n.named_objects@.contains_key(q) && n.named_objects@[q] is Var implies n.has(n.named_objects@[q]->Var_0) && cname(n, n.named_objects@[q]->Var_0) == q by {
        assert(q != p); assert(o.named_objects@.contains_key(q));
        let u = o.named_objects@[q]->Var_0;
        assert(o.has(u)); assert(cname(o, u) == cname(n, u));
    }
}
pub proof fn lemma_set(o: TestConstraintSystem, n: TestConstraintSystem)
    requires o.inv(), n.named_objects == o.named_objects, n.constraints == o.constraints, n.inputs@.len() == o.inputs@.len(), n.aux@.len() == o.aux@.len(),
        forall|i: int| 0 <= i < o.inputs@.len() ==> (#[trigger] n.inputs@[i]).1@ == o.inputs@[i].1@,
        forall|i: int| 0 <= i < o.aux@.len() ==> (#[trigger] n.aux@[i]).1@ == o.aux@[i].1@,
    ensures n.inv(), forall|v: Variable| #[trigger] o.has(v) ==> cname(n, v) == cname(o, v),
{
    assert forall|v: Variable| #[trigger] o.has(v) implies cname(n, v) == cname(o, v) by { }
    assert forall|v: Variable| #[trigger] n.has(v) implies n.named_objects@.contains_key(cname(n, v)) && n.named_objects@[cname(n, v)] == NamedObject::Var(v) by { assert(o.has(v)); }
    assert forall|q: Seq<char>| #[trigger] n.named_objects@.contains_key(q) && n.named_objects@[q] is Var implies n.has(n.named_objects@[q]->Var_0) && cname(n, n.named_objects@[q]->Var_0) == q by {
        assert(o.named_objects@.contains_key(q));
        let u = o.named_objects@[q]->Var_0;
        assert(o.has(u));
    }
}

@unit tcs
@prelude base field vec
@types TestConstraintSystem<F>=TestConstraintSystem ; String=Name
@scalar F Variable
@assign
@include lc.rs
@include tcs.rs
@item r1cs/src/lib.rs Variable
@item r1cs/src/lib.rs Index
@item gadgets/src/test_constraint_system.rs TestConstraintSystem
@item gadgets/src/test_constraint_system.rs NamedObject
@assume LinearCombination's operators satisfy the contracts discharged in r1cs_lc; constraints refer only to variables that were allocated; a constraint or variable closure is called once
@assume String and HashMap are sequences of characters and maps
@method get_unchecked $0.0
@method into $0.conv()
@method as_ref $0.0.as_slice()
@method chars name_chars(&$0)
@call Name::new name_new()
@call HashMap::new Names::new()
@call TestConstraintSystem::one vone()
@call LinearCombination::zero LinearCombination::lc_zero()
@call Variable::new_unchecked Variable($1)
@call eval_lc eval_lc($1, $2, $3)
@fn eval_lc
@file gadgets/src/test_constraint_system.rs
@name eval_lc
@header
pub fn eval_lc(terms: &[(Variable, F)], inputs: &[(F, Name)], aux: &[(F, Name)]) -> (ret: F)
    requires lc_in(terms@, inputs@.len() as int, aux@.len() as int),
    ensures ret == lce(terms@, asg(inputs@, aux@)),
@inv 0
end0 == terms@.len() && lc_in(terms@, inputs@.len() as int, aux@.len() as int),
acc == lce(terms@.subrange(0, k0 as int), asg(inputs@, aux@)),
@at ls0
proof { assert(inr(terms@[k0 as int].0, inputs@.len() as int, aux@.len() as int)); }
@at le0
proof { lce_push(terms@.subrange(0, k0 as int), terms@[k0 as int], asg(inputs@, aux@)); assert(terms@.subrange(0, k0 + 1) =~= terms@.subrange(0, k0 as int).push(terms@[k0 as int])); }
@at fe
proof { assert(terms@.subrange(0, terms@.len() as int) =~= terms@); }
@fn new
@file gadgets/src/test_constraint_system.rs
@impl TestConstraintSystem<F>
@name new
@wrap impl TestConstraintSystem {
@header
pub fn new() -> (ret: TestConstraintSystem)
    ensures ret.inv(), ret.inputs@.len() == 1 && ret.aux@.len() == 0 && ret.constraints@.len() == 0 && ret.current_namespace@.len() == 0, ret.inputs@[0].0 == f1(),
        forall|p: Seq<char>| #[trigger] ret.named_objects@.contains_key(p) <==> p == "ONE"@,
@fn which_is_unsatisfied
@file gadgets/src/test_constraint_system.rs
@impl TestConstraintSystem<F>
@name which_is_unsatisfied
@wrap impl TestConstraintSystem {
@header
pub fn which_is_unsatisfied(&self) -> (ret: Option<&Name>)
    requires self.inv(),
    ensures ret is None <==> forall|i: int| 0 <= i < self.constraints@.len() ==> #[trigger] self.holds(i),
        ret is Some ==> exists|i: int| 0 <= i < self.constraints@.len() && !#[trigger] self.holds(i) && (forall|j: int| 0 <= j < i ==> #[trigger] self.holds(j)) && self.constraints@[i].3 == *ret->Some_0,
@inv 0
end0 == self.constraints@.len(), self.inv(),
forall|j: int| 0 <= j < k0 ==> #[trigger] self.holds(j),
@at ls0
proof { assert(closed(self.constraints@[k0 as int], self.inputs@.len() as int, self.aux@.len() as int)); }
@at ret0
proof { assert(!self.holds(k0 as int)); }
@at le0
proof { assert(self.holds(k0 as int)); }
@fn is_satisfied
@file gadgets/src/test_constraint_system.rs
@impl TestConstraintSystem<F>
@name is_satisfied
@wrap impl TestConstraintSystem {
@header
pub fn is_satisfied(&self) -> (ret: bool)
    requires self.inv(),
    ensures ret == forall|i: int| 0 <= i < self.constraints@.len() ==> #[trigger] self.holds(i),
@fn num_constraints
@file gadgets/src/test_constraint_system.rs
@impl TestConstraintSystem<F>
@name num_constraints
@wrap impl TestConstraintSystem {
@header
pub fn num_constraints(&self) -> (ret: usize)
    ensures ret == self.constraints@.len(),
@fn num_inputs
@file gadgets/src/test_constraint_system.rs
@impl TestConstraintSystem<F>
@name num_inputs
@wrap impl TestConstraintSystem {
@header
pub fn num_inputs(&self) -> (ret: usize)
    ensures ret == self.inputs@.len(),
@fn verify
@file gadgets/src/test_constraint_system.rs
@impl TestConstraintSystem<F>
@name verify
@wrap impl TestConstraintSystem {
@refs a
@header
pub fn verify(&self, expected: &[F]) -> (ret: bool)
    requires self.inv(), expected@.len() < usize::MAX,
    ensures expected@.len() + 1 == self.inputs@.len(), ret == forall|i: int| 0 <= i < expected@.len() ==> #[trigger] expected@[i] == self.inputs@[i + 1].0,
@inv 0
expected@.len() + 1 == self.inputs@.len() && end0 == expected@.len(),
forall|i: int| 0 <= i < k0 ==> #[trigger] expected@[i] == self.inputs@[i + 1].0,
@fn get
@file gadgets/src/test_constraint_system.rs
@impl TestConstraintSystem<F>
@name get
@wrap impl TestConstraintSystem {
@header
pub fn get(&mut self, path: &Name) -> (ret: F)
    requires old(self).inv(),
    ensures *final(self) == *old(self), old(self).named_objects@.contains_key(path@) && old(self).named_objects@[path@] is Var && ret == (old(self).w())(old(self).named_objects@[path@]->Var_0),
@fn set
@file gadgets/src/test_constraint_system.rs
@impl TestConstraintSystem<F>
@name set
@wrap impl TestConstraintSystem {
@header
pub fn set(&mut self, path: &Name, to: F)
    requires old(self).inv(),
    ensures final(self).inv(), old(self).named_objects@.contains_key(path@) && old(self).named_objects@[path@] is Var,
        final(self).named_objects == old(self).named_objects && final(self).constraints == old(self).constraints && final(self).current_namespace == old(self).current_namespace,
        final(self).inputs@.len() == old(self).inputs@.len() && final(self).aux@.len() == old(self).aux@.len(),
        forall|v: Variable| #[trigger] old(self).has(v) ==> cname(*final(self), v) == cname(*old(self), v) && (final(self).w())(v) == if v == old(self).named_objects@[path@]->Var_0 { to } else { (old(self).w())(v) },
@at fs
let ghost o = *self;
@at fe
proof { lemma_set(o, *self); }
@fn get_input
@file gadgets/src/test_constraint_system.rs
@impl TestConstraintSystem<F>
@name get_input
@method clone vclone_cell(&$0)
@wrap impl TestConstraintSystem {
@header
pub fn get_input(&mut self, index: usize, path: &Name) -> (ret: F)
    requires index < old(self).inputs@.len(),
    ensures *final(self) == *old(self), path@ == old(self).inputs@[index as int].1@ && ret == old(self).inputs@[index as int].0,
@fn set_named_obj
@file gadgets/src/test_constraint_system.rs
@impl TestConstraintSystem<F>
@name set_named_obj
@wrap impl TestConstraintSystem {
@header
pub fn set_named_obj(&mut self, path: Name, to: NamedObject)
    ensures !old(self).named_objects@.contains_key(path@), final(self).named_objects@ == old(self).named_objects@.insert(path@, to),
        final(self).inputs == old(self).inputs && final(self).aux == old(self).aux && final(self).constraints == old(self).constraints && final(self).current_namespace == old(self).current_namespace,
@fn compute_path
@file gadgets/src/test_constraint_system.rs
@name compute_path
@op += $1.add_to(&mut $0)
@header
pub fn compute_path(ns: &[Name], this: Name) -> (ret: Name)
    requires ns@.len() < usize::MAX,
    ensures ret@ == jn(ns@, this@), forall|i: int| 0 <= i < this@.len() ==> #[trigger] this@[i] != '/',
@at fs
let ghost full = ns@.push(this);
let ghost t0 = this@;
let ghost n0 = ns@.len() as int;
proof { lemma_join_push(ns@, this, n0); }
@inv 0
chars0@ == t0 && t0 == this@ && end0 == chars0@.len(),
!acc0 ==> forall|i: int| 0 <= i < k0 ==> #[trigger] t0[i] != '/',
@inv 1
first1 == n0 && end1 == n0 + 1 && full == ns@.push(this) && n0 == ns@.len(),
name@ == join(full, k1 as int) && needs_separation == (k1 > 0),
@at ls1
proof { assert(k1 < n0 ==> full[k1 as int] == ns@[k1 as int]); assert(k1 == n0 ==> full[k1 as int] == this); }
@at le1
proof { assert(k1 == 0 ==> Seq::<char>::empty() + full[0]@ =~= full[0]@); }
@fn alloc
@file gadgets/src/test_constraint_system.rs
@impl ConstraintSystem<F> for TestConstraintSystem<F>
@name alloc
@wrap impl TestConstraintSystem {
@call annotation annotation
@call f f
@header
pub fn alloc(&mut self, annotation: Name, f: Result<F, SynthesisError>) -> (ret: Result<Variable, SynthesisError>)
    requires old(self).inv(), old(self).current_namespace@.len() < usize::MAX,
    ensures ret is Ok <==> f is Ok,
        ret is Ok ==> final(self).inv() && ret->Ok_0 == Variable(Index::Aux(old(self).aux@.len() as usize)) && final(self).inputs == old(self).inputs && final(self).constraints == old(self).constraints && final(self).current_namespace == old(self).current_namespace
            && final(self).aux@.len() == old(self).aux@.len() + 1 && (forall|i: int| 0 <= i < old(self).aux@.len() ==> #[trigger] final(self).aux@[i] == old(self).aux@[i])
            && final(self).aux@.last().0 == f->Ok_0 && final(self).aux@.last().1@ == path_of(*old(self), annotation)
            && final(self).named_objects@ == old(self).named_objects@.insert(path_of(*old(self), annotation), NamedObject::Var(ret->Ok_0)) && !old(self).named_objects@.contains_key(path_of(*old(self), annotation)),
@at fs
let ghost o = *self;
@at let:index
proof { assert(!o.has(Variable(Index::Aux(o.aux@.len() as usize)))); }
@at fe
proof {
    let v = ret_->Ok_0;
    assert forall|u: Variable| #[trigger] self.has(u) implies u == v || (o.has(u) && cname(*self, u) == cname(o, u)) by { }
    lemma_new_var(o, *self, v, path_of(o, annotation));
}
@fn alloc_input
@file gadgets/src/test_constraint_system.rs
@impl ConstraintSystem<F> for TestConstraintSystem<F>
@name alloc_input
@wrap impl TestConstraintSystem {
@call annotation annotation
@call f f
@header
pub fn alloc_input(&mut self, annotation: Name, f: Result<F, SynthesisError>) -> (ret: Result<Variable, SynthesisError>)
    requires old(self).inv(), old(self).current_namespace@.len() < usize::MAX,
    ensures ret is Ok <==> f is Ok,
        ret is Ok ==> final(self).inv() && ret->Ok_0 == Variable(Index::Input(old(self).inputs@.len() as usize)) && final(self).aux == old(self).aux && final(self).constraints == old(self).constraints && final(self).current_namespace == old(self).current_namespace
            && final(self).inputs@.len() == old(self).inputs@.len() + 1 && (forall|i: int| 0 <= i < old(self).inputs@.len() ==> #[trigger] final(self).inputs@[i] == old(self).inputs@[i])
            && final(self).inputs@.last().0 == f->Ok_0 && final(self).inputs@.last().1@ == path_of(*old(self), annotation)
            && final(self).named_objects@ == old(self).named_objects@.insert(path_of(*old(self), annotation), NamedObject::Var(ret->Ok_0)) && !old(self).named_objects@.contains_key(path_of(*old(self), annotation)),
@at fs
let ghost o = *self;
@at let:index
proof { assert(!o.has(Variable(Index::Input(o.inputs@.len() as usize)))); }
@at fe
proof {
    let v = ret_->Ok_0;
    assert forall|u: Variable| #[trigger] self.has(u) implies u == v || (o.has(u) && cname(*self, u) == cname(o, u)) by { }
    lemma_new_var(o, *self, v, path_of(o, annotation));
}
@fn enforce
@file gadgets/src/test_constraint_system.rs
@impl ConstraintSystem<F> for TestConstraintSystem<F>
@name enforce
@wrap impl TestConstraintSystem {
@call annotation annotation
@call a a
@call b b
@call c c
@header
pub fn enforce(&mut self, annotation: Name, a: LinearCombination, b: LinearCombination, c: LinearCombination)
    requires old(self).inv(), old(self).current_namespace@.len() < usize::MAX, lc_in(a.0@, old(self).inputs@.len() as int, old(self).aux@.len() as int), lc_in(b.0@, old(self).inputs@.len() as int, old(self).aux@.len() as int), lc_in(c.0@, old(self).inputs@.len() as int, old(self).aux@.len() as int),
    ensures final(self).inv(), final(self).inputs == old(self).inputs && final(self).aux == old(self).aux && final(self).current_namespace == old(self).current_namespace,
        final(self).constraints@.len() == old(self).constraints@.len() + 1 && (forall|i: int| 0 <= i < old(self).constraints@.len() ==> #[trigger] final(self).constraints@[i] == old(self).constraints@[i]),
        final(self).constraints@.last().0 == a && final(self).constraints@.last().1 == b && final(self).constraints@.last().2 == c && final(self).constraints@.last().3@ == path_of(*old(self), annotation),
        final(self).named_objects@ == old(self).named_objects@.insert(path_of(*old(self), annotation), NamedObject::Constraint(old(self).constraints@.len() as usize)) && !old(self).named_objects@.contains_key(path_of(*old(self), annotation)),
@at fs
let ghost o = *self;
@at fe
proof {
    lemma_other(o, *self, NamedObject::Constraint(o.constraints@.len() as usize), path_of(o, annotation));
    assert forall|i: int| 0 <= i < self.constraints@.len() implies closed(#[trigger] self.constraints@[i], self.inputs@.len() as int, self.aux@.len() as int) by { if i < o.constraints@.len() { assert(closed(o.constraints@[i], o.inputs@.len() as int, o.aux@.len() as int)); } }
    assert forall|i: int| 0 <= i < self.constraints@.len() implies self.named_objects@.contains_key((#[trigger] self.constraints@[i]).3@) && self.named_objects@[self.constraints@[i].3@] == NamedObject::Constraint(i as usize) by { if i < o.constraints@.len() { assert(o.named_objects@.contains_key(o.constraints@[i].3@)); } }
}
@fn push_namespace
@file gadgets/src/test_constraint_system.rs
@impl ConstraintSystem<F> for TestConstraintSystem<F>
@name push_namespace
@wrap impl TestConstraintSystem {
@call name_fn name_fn
@header
pub fn push_namespace(&mut self, name_fn: Name)
    requires old(self).inv(), old(self).current_namespace@.len() < usize::MAX,
    ensures final(self).inv(), final(self).inputs == old(self).inputs && final(self).aux == old(self).aux && final(self).constraints == old(self).constraints && final(self).current_namespace@.last()@ == name_fn@ && final(self).current_namespace@.drop_last() == old(self).current_namespace@,
        final(self).named_objects@ == old(self).named_objects@.insert(path_of(*old(self), name_fn), NamedObject::Namespace) && !old(self).named_objects@.contains_key(path_of(*old(self), name_fn)),
@at fs
let ghost o = *self;
@at fe
proof { lemma_other(o, *self, NamedObject::Namespace, path_of(o, name_fn)); assert(self.current_namespace@.drop_last() =~= o.current_namespace@); }
@fn pop_namespace
@file gadgets/src/test_constraint_system.rs
@impl ConstraintSystem<F> for TestConstraintSystem<F>
@name pop_namespace
@wrap impl TestConstraintSystem {
@header
pub fn pop_namespace(&mut self)
    requires old(self).inv(),
    ensures final(self).inv(), old(self).current_namespace@.len() > 0, final(self).current_namespace@ == old(self).current_namespace@.drop_last(),
        final(self).inputs == old(self).inputs && final(self).aux == old(self).aux && final(self).constraints == old(self).constraints && final(self).named_objects == old(self).named_objects,
@at fs
let ghost o = *self;
@at fe
proof { lemma_set(o, *self); }

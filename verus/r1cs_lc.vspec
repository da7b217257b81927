@unit r1cs_lc
@prelude base field vec
@scalar F Variable
@types SmallVec::<F>=Vec
@include lc.rs
@item r1cs/src/lib.rs Variable
@item r1cs/src/lib.rs Index
@assume SmallVec<(Variable, F)> behaves as Vec<(Variable, F)>; slice::binary_search_by_key answers Ok(i) only where the key occurs
@method extend_from_slice vextend_slice(&mut $0, $1)
@call SmallVec::new Vec::new()
@call LinearCombination::zero lc_zero()
@fn index_cmp
@file r1cs/src/lib.rs
@impl Ord for Index
@name cmp
@wrap impl Index {
@header
fn cmp(&self, other: &Self) -> (ret: core::cmp::Ordering)
    ensures ret == icmp(*self, *other),
@type Ordering=core::cmp::Ordering
@fn lc_zero
@file r1cs/src/impl_lc.rs
@impl LinearCombination<F>
@name zero
@header
pub fn lc_zero() -> (ret: LinearCombination)
    ensures forall|w: Asg| #[trigger] lce(ret.0@, w) == f0(),
@fn lc_from_pair
@file r1cs/src/impl_lc.rs
@impl From<(F,Variable)> for LinearCombination<F>
@name from
@header
pub fn lc_from_pair(p0: (F, Variable)) -> (ret: LinearCombination)
    ensures forall|w: Asg| #[trigger] lce(ret.0@, w) == fmul(p0.0, w(p0.1)),
@at fe
proof { assert forall|w: Asg| #[trigger] lce(ret_.0@, w) == fmul(p0.0, w(p0.1)) by { lce_one((p0.1, p0.0), w); assert(ret_.0@ =~= seq![(p0.1, p0.0)]); } }
@fn lc_from_var
@file r1cs/src/impl_lc.rs
@impl From<Variable> for LinearCombination<F>
@name from
@header
pub fn lc_from_var(var: Variable) -> (ret: LinearCombination)
    ensures forall|w: Asg| #[trigger] lce(ret.0@, w) == w(var),
@at fe
proof { assert forall|w: Asg| #[trigger] lce(ret_.0@, w) == w(var) by { lce_one((var, f1()), w); assert(ret_.0@ =~= seq![(var, f1())]); } }
@fn replace_in_place
@file r1cs/src/impl_lc.rs
@impl LinearCombination<F>
@wrap impl LinearCombination {
@header
pub fn replace_in_place(&mut self, other: Self)
    ensures final(self).0@ == other.0@,
@at fe
proof { assert(self.0@ =~= other.0@); }
@fn negate_in_place
@file r1cs/src/impl_lc.rs
@impl LinearCombination<F>
@wrap impl LinearCombination {
@header
pub fn negate_in_place(&mut self)
    ensures scaled(final(self).0@, m1(), old(self).0@), final(self).0.len() == old(self).0.len(),
@inv 0
        self.0.len() == old(self).0.len(),
        forall|i: int| 0 <= i < k0 ==> #[trigger] self.0[i] == (old(self).0[i].0, fmul(m1(), old(self).0[i].1)),
        forall|i: int| k0 <= i < self.0.len() ==> self.0[i] == old(self).0[i],
@at ls0
proof { lemma_neg(self.0[k0 as int].1); }
@at fe
proof { assert forall|w: Asg| #[trigger] lce(self.0@, w) == fmul(m1(), lce(old(self).0@, w)) by { lce_scaled(old(self).0@, self.0@, m1(), w); } }
@fn double_in_place
@file r1cs/src/impl_lc.rs
@impl LinearCombination<F>
@wrap impl LinearCombination {
@header
pub fn double_in_place(&mut self)
    ensures scaled(final(self).0@, fadd(f1(), f1()), old(self).0@),
@inv 0
        self.0.len() == old(self).0.len(),
        forall|i: int| 0 <= i < k0 ==> #[trigger] self.0[i] == (old(self).0[i].0, fmul(fadd(f1(), f1()), old(self).0[i].1)),
        forall|i: int| k0 <= i < self.0.len() ==> self.0[i] == old(self).0[i],
@at ls0
proof { lemma_double(self.0[k0 as int].1); }
@at fe
proof { assert forall|w: Asg| #[trigger] lce(self.0@, w) == fmul(fadd(f1(), f1()), lce(old(self).0@, w)) by { lce_scaled(old(self).0@, self.0@, fadd(f1(), f1()), w); } }
@fn mul_assign
@file r1cs/src/impl_lc.rs
@impl MulAssign<F> for LinearCombination<F>
@wrap impl LinearCombination {
@header
pub fn mul_assign(&mut self, scalar: F)
    ensures scaled(final(self).0@, scalar, old(self).0@),
@inv 0
        self.0.len() == old(self).0.len(),
        forall|i: int| 0 <= i < k0 ==> #[trigger] self.0[i] == (old(self).0[i].0, fmul(scalar, old(self).0[i].1)),
        forall|i: int| k0 <= i < self.0.len() ==> self.0[i] == old(self).0[i],
@at fe
proof { assert forall|w: Asg| #[trigger] lce(self.0@, w) == fmul(scalar, lce(old(self).0@, w)) by { lce_scaled(old(self).0@, self.0@, scalar, w); } }
@fn mul
@file r1cs/src/impl_lc.rs
@impl Mul<F> for LinearCombination<F>
@wrap impl LinearCombination {
@op *= $0.mul_assign($1)
@header
pub fn mul(self, scalar: F) -> (ret: Self)
    ensures scaled(ret.0@, scalar, self.0@),
@fn neg
@file r1cs/src/impl_lc.rs
@impl Neg for LinearCombination<F>
@wrap impl LinearCombination {
@header
pub fn neg(self) -> (ret: Self)
    ensures scaled(ret.0@, m1(), self.0@),
@fn get_var_loc
@file r1cs/src/impl_lc.rs
@impl LinearCombination<F>
@wrap impl LinearCombination {
@method binary_search_by_key vbsearch(&$0, $1, $2)
@cl 0
|a0_0: (Variable, F)| -> (r: Variable) ensures r == a0_0.0
@header
pub fn get_var_loc(&self, search_var: &Variable) -> (ret: Result<usize, usize>)
    ensures match ret { Ok(i) => i < self.0.len() && self.0[i as int].0 == *search_var, Err(i) => i <= self.0.len() },
@inv 0
        found_index == k0,
@fn add_assign_pair
@file r1cs/src/impl_lc.rs
@impl AddAssign<(F,Variable)> for LinearCombination<F>
@name add_assign
@wrap impl LinearCombination {
@header
pub fn add_assign_pair(&mut self, p1: (F, Variable))
    ensures plus(final(self).0@, old(self).0@, p1.0, p1.1),
@at fe
proof {
    let (c, v) = (p1.0, p1.1);
    let o = old(self).0@;
    assert forall|w: Asg| #[trigger] lce(self.0@, w) == fadd(lce(o, w), fmul(c, w(v))) by {
        if self.0.len() == o.len() {
            let i = choose|i: int| 0 <= i < o.len() && o[i].0 == v && self.0@ == o.update(i, (o[i].0, fadd(o[i].1, c)));
            lce_update(o, i, c, w);
        } else {
            let i = choose|i: int| 0 <= i <= o.len() && self.0@ == #[trigger] o.insert(i, (v, c));
            lce_insert(o, i, (v, c), w);
        }
    }
}
@fn add_pair
@file r1cs/src/impl_lc.rs
@impl Add<(F,Variable)> for LinearCombination<F>
@name add
@wrap impl LinearCombination {
@op += $0.add_assign_pair($1)
@header
pub fn add_pair(self, coeff_var: (F, Variable)) -> (ret: Self)
    ensures plus(ret.0@, self.0@, coeff_var.0, coeff_var.1),
@fn sub_pair
@file r1cs/src/impl_lc.rs
@impl Sub<(F,Variable)> for LinearCombination<F>
@name sub
@wrap impl LinearCombination {
@op + $0.add_pair($1)
@header
pub fn sub_pair(self, p1: (F, Variable)) -> (ret: Self)
    ensures plus(ret.0@, self.0@, fneg(p1.0), p1.1),
@fn add_var
@file r1cs/src/impl_lc.rs
@impl Add<Variable> for LinearCombination<F>
@name add
@wrap impl LinearCombination {
@op + $0.add_pair($1)
@header
pub fn add_var(self, other: Variable) -> (ret: LinearCombination)
    ensures plus(ret.0@, self.0@, f1(), other),
@fn sub_var
@file r1cs/src/impl_lc.rs
@impl Sub<Variable> for LinearCombination<F>
@name sub
@wrap impl LinearCombination {
@op - $0.sub_pair($1)
@header
pub fn sub_var(self, other: Variable) -> (ret: LinearCombination)
    ensures plus(ret.0@, self.0@, m1(), other),
@fn op_impl
@file r1cs/src/impl_lc.rs
@header
pub fn op_impl<F1: Fn(F) -> F, F2: Fn(F, F) -> F>(cur: &LinearCombination, other: &LinearCombination, push_fn: F1, combine_fn: F2) -> (ret: LinearCombination)
    requires forall|x: F| #[trigger] push_fn.requires((x,)), forall|x: F, y: F| #[trigger] combine_fn.requires((x, y)),
    ensures forall|c: F| #[trigger] hint(c) && scales(push_fn, combine_fn, c) ==> lin(ret.0@, cur.0@, c, other.0@),
@at winv0
    invariant i <= cur.0.len(), j <= other.0.len(),
        forall|c: F| #[trigger] hint(c) && scales(push_fn, combine_fn, c) ==> lin(new_vec@, cur.0@.subrange(0, i as int), c, other.0@.subrange(0, j as int)),
    decreases cur.0.len() - i + other.0.len() - j,
@at lb0
proof {
    assert forall|c: F| #[trigger] hint(c) && scales(push_fn, combine_fn, c) implies lin(new_vec@, cur.0@.subrange(0, i as int), c, other.0@.subrange(0, j as int)) by {
        assert forall|w: Asg| #[trigger] lce(new_vec@, w) == fadd(lce(cur.0@.subrange(0, 0), w), fmul(c, lce(other.0@.subrange(0, 0), w))) by {
            assert(lce(cur.0@.subrange(0, 0), w) == f0());
            assert(lce(other.0@.subrange(0, 0), w) == f0());
        }
    }
}
@at ls0
let ghost (i0, j0, v0) = (i as int, j as int, new_vec@);
@at le0
proof {
    assert(new_vec@.drop_last() =~= v0);
    assert forall|c: F| #[trigger] hint(c) && scales(push_fn, combine_fn, c) implies lin(new_vec@, cur.0@.subrange(0, i as int), c, other.0@.subrange(0, j as int)) by {
        lemma_step(v0, new_vec@, cur.0@, other.0@, i0, i as int, j0, j as int, c);
    }
}
@at la0
let ghost (vm, jm) = (new_vec@, j as int);
@at winv1
    invariant j <= other.0.len(),
        forall|c: F| #[trigger] hint(c) && scales(push_fn, combine_fn, c) ==> lin(new_vec@, cur.0@, c, other.0@.subrange(0, j as int)),
    decreases other.0.len() - j,
@at lb1
proof {
    assert forall|c: F| #[trigger] hint(c) && scales(push_fn, combine_fn, c) implies lin(new_vec@, cur.0@, c, other.0@.subrange(0, j as int)) by {
        lemma_rest(vm, new_vec@, cur.0@, other.0@, i as int, j as int, c);
    }
}
@at ls1
let ghost (j1, v1) = (j as int, new_vec@);
@at le1
proof {
    assert(new_vec@.drop_last() =~= v1);
    assert forall|c: F| #[trigger] hint(c) && scales(push_fn, combine_fn, c) implies lin(new_vec@, cur.0@, c, other.0@.subrange(0, j as int)) by {
        let n = cur.0.len() as int;
        assert(cur.0@.subrange(0, n) =~= cur.0@);
        lemma_step(v1, new_vec@, cur.0@, other.0@, n, n, j1, j as int, c);
    }
}
@at fe
proof { assert(other.0@.subrange(0, other.0.len() as int) =~= other.0@); }
@fn add_lc0
@file r1cs/src/impl_lc.rs
@impl Add<&LinearCombination<F>> for &LinearCombination<F>
@name add
@wrap impl LinearCombination {
@header
pub fn add_lc0(&self, other: &LinearCombination) -> (ret: LinearCombination)
    ensures lin(ret.0@, self.0@, f1(), other.0@),
@cl 0
|coeff: F| -> (r: F) ensures r == coeff
@cl 1
|cur_coeff: F, other_coeff: F| -> (r: F) ensures r == fadd(cur_coeff, other_coeff)
@at fs
proof { assert(hint(f1())); lemma_empty(self.0@, f1(), other.0@); }
@fn add_lc1
@file r1cs/src/impl_lc.rs
@impl Add<LinearCombination<F>> for &LinearCombination<F>
@name add
@wrap impl LinearCombination {
@header
pub fn add_lc1(&self, other: LinearCombination) -> (ret: LinearCombination)
    ensures lin(ret.0@, self.0@, f1(), other.0@),
@cl 0
|coeff: F| -> (r: F) ensures r == coeff
@cl 1
|cur_coeff: F, other_coeff: F| -> (r: F) ensures r == fadd(cur_coeff, other_coeff)
@at fs
proof { assert(hint(f1())); lemma_empty(self.0@, f1(), other.0@); }
@fn add_lc2
@file r1cs/src/impl_lc.rs
@impl Add<&'a LinearCombination<F>> for LinearCombination<F>
@name add
@wrap impl LinearCombination {
@header
pub fn add_lc2(self, other: &LinearCombination) -> (ret: LinearCombination)
    ensures lin(ret.0@, self.0@, f1(), other.0@),
@cl 0
|coeff: F| -> (r: F) ensures r == coeff
@cl 1
|cur_coeff: F, other_coeff: F| -> (r: F) ensures r == fadd(cur_coeff, other_coeff)
@at fs
proof { assert(hint(f1())); lemma_empty(self.0@, f1(), other.0@); }
@fn add_lc3
@file r1cs/src/impl_lc.rs
@impl Add<LinearCombination<F>> for LinearCombination<F>
@name add
@wrap impl LinearCombination {
@header
pub fn add_lc3(self, other: LinearCombination) -> (ret: LinearCombination)
    ensures lin(ret.0@, self.0@, f1(), other.0@),
@cl 0
|coeff: F| -> (r: F) ensures r == coeff
@cl 1
|cur_coeff: F, other_coeff: F| -> (r: F) ensures r == fadd(cur_coeff, other_coeff)
@at fs
proof { assert(hint(f1())); lemma_empty(self.0@, f1(), other.0@); }
@fn sub_lc0
@file r1cs/src/impl_lc.rs
@impl Sub<&LinearCombination<F>> for &LinearCombination<F>
@name sub
@wrap impl LinearCombination {
@header
pub fn sub_lc0(&self, other: &LinearCombination) -> (ret: LinearCombination)
    ensures lin(ret.0@, self.0@, m1(), other.0@),
@cl 0
|coeff: F| -> (r: F) ensures r == fneg(coeff)
@cl 1
|cur_coeff: F, other_coeff: F| -> (r: F) ensures r == fsub(cur_coeff, other_coeff)
@at fs
proof { assert(hint(m1())); lemma_empty(self.0@, m1(), other.0@); }
proof { lemma_neg_all(); }
@fn sub_lc1
@file r1cs/src/impl_lc.rs
@impl Sub<&'a LinearCombination<F>> for LinearCombination<F>
@name sub
@wrap impl LinearCombination {
@header
pub fn sub_lc1(self, other: &LinearCombination) -> (ret: LinearCombination)
    ensures lin(ret.0@, self.0@, m1(), other.0@),
@cl 0
|coeff: F| -> (r: F) ensures r == fneg(coeff)
@cl 1
|cur_coeff: F, other_coeff: F| -> (r: F) ensures r == fsub(cur_coeff, other_coeff)
@at fs
proof { assert(hint(m1())); lemma_empty(self.0@, m1(), other.0@); }
proof { lemma_neg_all(); }
@fn sub_lc2
@file r1cs/src/impl_lc.rs
@impl Sub<LinearCombination<F>> for &LinearCombination<F>
@name sub
@wrap impl LinearCombination {
@header
pub fn sub_lc2(&self, other: LinearCombination) -> (ret: LinearCombination)
    ensures lin(ret.0@, self.0@, m1(), other.0@),
@cl 0
|coeff: F| -> (r: F) ensures r == fneg(coeff)
@cl 1
|cur_coeff: F, other_coeff: F| -> (r: F) ensures r == fsub(cur_coeff, other_coeff)
@at fs
proof { assert(hint(m1())); lemma_empty(self.0@, m1(), other.0@); }
proof { lemma_neg_all(); }
@fn sub_lc3
@file r1cs/src/impl_lc.rs
@impl Sub<LinearCombination<F>> for LinearCombination<F>
@name sub
@wrap impl LinearCombination {
@header
pub fn sub_lc3(self, other: LinearCombination) -> (ret: LinearCombination)
    ensures lin(ret.0@, self.0@, m1(), other.0@),
@cl 0
|coeff: F| -> (r: F) ensures r == fneg(coeff)
@cl 1
|cur_coeff: F, other_coeff: F| -> (r: F) ensures r == fsub(cur_coeff, other_coeff)
@at fs
proof { assert(hint(m1())); lemma_empty(self.0@, m1(), other.0@); }
proof { lemma_neg_all(); }
@fn addmul_lc0
@file r1cs/src/impl_lc.rs
@impl Add<(F,&LinearCombination<F>)> for &LinearCombination<F>
@name add
@wrap impl LinearCombination {
@header
pub fn addmul_lc0(&self, p1: (F, &LinearCombination)) -> (ret: LinearCombination)
    ensures lin(ret.0@, self.0@, p1.0, p1.1.0@),
@cl 0
|coeff: F| -> (r: F) ensures r == fmul(mul_coeff, coeff)
@cl 1
|cur_coeff: F, other_coeff: F| -> (r: F) ensures r == fadd(cur_coeff, fmul(mul_coeff, other_coeff))
@at fs
proof { assert(hint(p1.0)); lemma_empty(self.0@, p1.0, p1.1.0@); }
@fn addmul_lc1
@file r1cs/src/impl_lc.rs
@impl Add<(F,&'a LinearCombination<F>)> for LinearCombination<F>
@name add
@wrap impl LinearCombination {
@header
pub fn addmul_lc1(self, p1: (F, &LinearCombination)) -> (ret: LinearCombination)
    ensures lin(ret.0@, self.0@, p1.0, p1.1.0@),
@cl 0
|coeff: F| -> (r: F) ensures r == fmul(mul_coeff, coeff)
@cl 1
|cur_coeff: F, other_coeff: F| -> (r: F) ensures r == fadd(cur_coeff, fmul(mul_coeff, other_coeff))
@at fs
proof { assert(hint(p1.0)); lemma_empty(self.0@, p1.0, p1.1.0@); }
@fn addmul_lc2
@file r1cs/src/impl_lc.rs
@impl Add<(F,LinearCombination<F>)> for &LinearCombination<F>
@name add
@wrap impl LinearCombination {
@header
pub fn addmul_lc2(&self, p1: (F, LinearCombination)) -> (ret: LinearCombination)
    ensures lin(ret.0@, self.0@, p1.0, p1.1.0@),
@cl 0
|coeff: F| -> (r: F) ensures r == fmul(mul_coeff, coeff)
@cl 1
|cur_coeff: F, other_coeff: F| -> (r: F) ensures r == fadd(cur_coeff, fmul(mul_coeff, other_coeff))
@at fs
proof { assert(hint(p1.0)); lemma_empty(self.0@, p1.0, p1.1.0@); }
@fn addmul_lc3
@file r1cs/src/impl_lc.rs
@impl Add<(F,Self)> for LinearCombination<F>
@name add
@wrap impl LinearCombination {
@header
pub fn addmul_lc3(self, p1: (F, LinearCombination)) -> (ret: LinearCombination)
    ensures lin(ret.0@, self.0@, p1.0, p1.1.0@),
@cl 0
|coeff: F| -> (r: F) ensures r == fmul(mul_coeff, coeff)
@cl 1
|cur_coeff: F, other_coeff: F| -> (r: F) ensures r == fadd(cur_coeff, fmul(mul_coeff, other_coeff))
@at fs
proof { assert(hint(p1.0)); lemma_empty(self.0@, p1.0, p1.1.0@); }
@fn submul_lc0
@file r1cs/src/impl_lc.rs
@impl Sub<(F,&LinearCombination<F>)> for &LinearCombination<F>
@name sub
@wrap impl LinearCombination {
@op + $0.addmul_lc0($1)
@header
pub fn submul_lc0(&self, p1: (F, &LinearCombination)) -> (ret: LinearCombination)
    ensures lin(ret.0@, self.0@, fneg(p1.0), p1.1.0@),
@fn submul_lc1
@file r1cs/src/impl_lc.rs
@impl Sub<(F,&'a LinearCombination<F>)> for LinearCombination<F>
@name sub
@wrap impl LinearCombination {
@op + $0.addmul_lc1($1)
@header
pub fn submul_lc1(self, p1: (F, &LinearCombination)) -> (ret: LinearCombination)
    ensures lin(ret.0@, self.0@, fneg(p1.0), p1.1.0@),
@fn submul_lc2
@file r1cs/src/impl_lc.rs
@impl Sub<(F,LinearCombination<F>)> for &LinearCombination<F>
@name sub
@wrap impl LinearCombination {
@op + $0.addmul_lc2($1)
@header
pub fn submul_lc2(&self, p1: (F, LinearCombination)) -> (ret: LinearCombination)
    ensures lin(ret.0@, self.0@, fneg(p1.0), p1.1.0@),
@fn submul_lc3
@file r1cs/src/impl_lc.rs
@impl Sub<(F,LinearCombination<F>)> for LinearCombination<F>
@name sub
@wrap impl LinearCombination {
@op + $0.addmul_lc3($1)
@header
pub fn submul_lc3(self, p1: (F, LinearCombination)) -> (ret: LinearCombination)
    ensures lin(ret.0@, self.0@, fneg(p1.0), p1.1.0@),

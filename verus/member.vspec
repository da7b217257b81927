@unit member
@prelude base field vec
@scalar F Variable bool
@circuit
@include lc.rs
@include cv.rs
@include cs.rs
@include ring.rs
@include member.rs
@stubs cbmt u32_parent u32_is_left u32_is_root
@item gadgets/src/merkletree/cbmt_constraints.rs MerkleProofGadget
@item r1cs/src/lib.rs Variable
@item r1cs/src/lib.rs Index
@method clone $0.vclone()
@method iter hiter(&$0)
@method parent u32_parent(&$0)
@method is_left u32_is_left(&$0)
@method is_root u32_is_root(&$0)
@call H::hash_enforce vhash($1, $2)
@op + $0.plus($1)
@op - $0.minus($1)
@op * $0.times($1)
@assume the abstract hash is a deterministic function of two digests, its constraints force it and its honest values satisfy them (for MiMC, Rescue and Poseidon this is the contract of hash_enforce, verified in the units hash_mimc, hash_rescue and hash_poseidon)
@fn set_membership
@file gadgets/src/merkletree/cbmt_constraints.rs
@impl MerkleProofGadget<I,F,H>
@name set_membership
@wrap impl MerkleProofGadget {
@header
pub fn set_membership(&self, cs: &mut CS, root: HOut, leaf: HOut) -> (ret: Result<(), SynthesisError>)
    requires shaped(leaf, *old(cs)), hshaped(self.lemmas@, *old(cs)),
    ensures ret is Ok ==> grows(*old(cs), *final(cs)),
        ret is Ok ==> forall|w: Asg| wf(w) && #[trigger] final(cs).sat(w) ==> hclimb(evs(leaf.vars(), w), self.index as int, self.lemmas@, 0, w) == Some(evs(root.vars(), w)),
        ret is Ok ==> forall|w: Asg| wf(w) && #[trigger] old(cs).sat(w) && follows(*old(cs), *final(cs), w) && hon(leaf, w) && hhon(self.lemmas@, w) && old(cs).prv()
            && hclimb(evs(leaf.vars(), w), self.index as int, self.lemmas@, 0, w) == Some(evs(root.vars(), w)) ==> final(cs).sat(w),
@at fs
let ghost c0 = *cs; let ghost lem = self.lemmas@; let ghost ix = self.index as int;
proof { field_laws(); }
@at lb0
#[verifier::allow_complex_invariants]
@at winv0
    invariant laws(), lemmas_iter.s == &self.lemmas, lemmas_iter.pos <= self.lemmas.len(), lem == self.lemmas@, ix == self.index, c0 == *old(cs), shaped(leaf, c0), hshaped(lem, c0),
        grows(c0, *cs), shaped(parent, *cs),
        forall|w: Asg| wf(w) && #[trigger] cs.sat(w) ==> hclimb(evs(parent.vars(), w), index as int, lem, lemmas_iter.pos as int, w) == hclimb(evs(leaf.vars(), w), ix, lem, 0, w),
        forall|w: Asg| wf(w) && #[trigger] c0.sat(w) && follows(c0, *cs, w) && hon(leaf, w) && hhon(lem, w) && c0.prv() ==> cs.sat(w) && hon(parent, w) && hclimb(evs(parent.vars(), w), index as int, lem, lemmas_iter.pos as int, w) == hclimb(evs(leaf.vars(), w), ix, lem, 0, w),
    ensures lemmas_iter.pos == self.lemmas.len(),
    decreases self.lemmas.len() - lemmas_iter.pos,
@at ls0
let ghost m = *cs; let ghost par0 = parent; let ghost ix0 = index as int; let ghost p0 = lemmas_iter.pos as int;
@at let:sibling_value_vec
let ghost sb = *sibling; proof { assert(sb == lem[p0]); assert(shaped(sb, c0)); }
@at let:input_value
let ghost left = ix0 % 2 == 1;
let ghost m1 = *cs;
@at inv1
        laws(), grows(m, m1), grows(m1, *cs), forall|w: Asg| #[trigger] cs.sat(w) == m.sat(w), input_variable_vec.len() == k1, end1 == input_value.len(), cs.prv() == m.prv(),
        m.prv() ==> forall|j: int| 0 <= j < input_value.len() ==> (#[trigger] input_value[j]) is Some,
        forall|j: int| 0 <= j < k1 ==> cs.has(#[trigger] input_variable_vec[j]) && !m1.has(input_variable_vec[j]) && (m.prv() ==> (cs.hon())(input_variable_vec[j]) == input_value[j]->Some_0),
@at inv2
        laws(), grows(m, m1), grows(m1, *cs), end2 == parent_variable_vec.len(), cs.prv() == m.prv(),
        parent_variable_vec@ == par0.vars(), sibling_variable_vec@ == sb.vars(), input_value.len() == input_variable_vec.len(), input_value@ == (if left { par0.vals() } else { sb.vals() }),
        par0.vals().len() == par0.vars().len(), sb.vals().len() == sb.vars().len(),
        m1.has(is_left_variable), !m.has(is_left_variable), (m1.prv() ==> (m1.hon())(is_left_variable) == b2f(left)),
        forall|j: int| 0 <= j < input_value.len() ==> cs.has(#[trigger] input_variable_vec[j]) && !m1.has(input_variable_vec[j]) && (m.prv() ==> (cs.hon())(input_variable_vec[j]) == input_value[j]->Some_0),
        forall|w: Asg| wf(w) && #[trigger] m.sat(w) && follows(m, *cs, w) && hon(par0, w) && hon(sb, w) && m.prv() ==> cs.sat(w),
@at enf0
proof { assert forall|w: Asg| wf(w) && #[trigger] m.sat(w) && follows(m, *cs, w) && hon(par0, w) && hon(sb, w) && m.prv() implies fmul(la_.val(w), lb_.val(w)) == lc_.val(w) by {
    assert(cs.has(is_left_variable)); assert(!m.has(is_left_variable)); assert(w(is_left_variable) == (cs.hon())(is_left_variable));
    let iv = input_variable_vec[j as int]; assert(!m.has(iv)); assert(w(iv) == (cs.hon())(iv));
    assert(par0.vals()[j as int] == Some(w(par0.vars()[j as int]))); assert(sb.vals()[j as int] == Some(w(sb.vars()[j as int])));
} }
@at la0
let ghost mf = *cs;
@at ty:acc3
: Vec<(Variable, Variable)>
@at inv3
        acc3.len() == k3, forall|j: int| 0 <= j < k3 ==> #[trigger] acc3[j] == (parent.vars()[j], root.vars()[j]), end3 == parent.vars().len(), end3 == root.vars().len(),
@at inv4
        laws(), grows(mf, *cs), cs.hon() == mf.hon(), cs.ni() == mf.ni(), cs.na() == mf.na(), end4 == pre.len(), end4 == parent.vars().len(), end4 == root.vars().len(),
        forall|j: int| 0 <= j < pre.len() ==> #[trigger] pre[j] == (parent.vars()[j], root.vars()[j]),
        forall|w: Asg| wf(w) ==> #[trigger] cs.sat(w) == (mf.sat(w) && forall|j: int| 0 <= j < k4 ==> w(#[trigger] parent.vars()[j]) == w(root.vars()[j])),
@at fe
proof {
    assert forall|w: Asg| wf(w) && #[trigger] cs.sat(w) implies evs(parent.vars(), w) == evs(root.vars(), w) by { assert(evs(parent.vars(), w) =~= evs(root.vars(), w)); }
    assert forall|w: Asg| wf(w) && #[trigger] c0.sat(w) && follows(c0, *cs, w) && hon(leaf, w) && hhon(lem, w) && c0.prv() && hclimb(evs(leaf.vars(), w), ix, lem, 0, w) == Some(evs(root.vars(), w)) implies cs.sat(w) by {
        lemma_follows(c0, mf, *cs, w);
        assert(evs(parent.vars(), w) == evs(root.vars(), w));
        assert forall|j: int| 0 <= j < parent.vars().len() implies w(#[trigger] parent.vars()[j]) == w(root.vars()[j]) by { assert(evs(parent.vars(), w)[j] == evs(root.vars(), w)[j]); }
    }
}

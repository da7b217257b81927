@unit gadget_fr
@prelude base field vec
@scalar F Variable bool
@circuit
@lazy AllocatedFr::alloc AllocatedFr::alloc_input
@include lc.rs
@include cv.rs
@include cs.rs
@include bool.rs
@include ring.rs
@include fr.rs
@ring rk2(x, y, r, c0, c1, c2, c3): ((c3 - c2 - c1 + c0) * y + (c1 - c0)) * x - ((r + -c0) + (c0 - c2) * y) == (((1 - x) * (1 - y) * c0 + x * (1 - y) * c1) + ((1 - x) * y * c2 + x * y * c3)) - r
@ring rk3(x, y, z, p, r, s0, s1, s2, s3, s4, s5, s6, s7): (s1 + s3 * y + s5 * z + s7 * p) * x - (r + m1(s0) + m1(s2 * y) + m1(s4 * z) + m1(s6 * p)) == (s0 + s1 * x + s2 * y + s3 * (x * y) + s4 * z + s5 * (x * z) + s6 * p + s7 * (x * p)) - r
@stubs gadget_bool
@item r1cs/src/lib.rs Variable
@item r1cs/src/lib.rs Index
@item gadgets/src/algebra/boolean.rs AllocatedBit
@item gadgets/src/algebra/boolean.rs Boolean
@item gadgets/src/algebra/fr.rs AllocatedFr
@method into $0.conv()
@method expect vunwrap($0)
@call LinearCombination::zero LinearCombination::lc_zero()
@call value vlazy(value)
@op + $0.plus($1)
@op - $0.minus($1)
@op * $0.times($1)
@op neg $0.negate()
@op ^ $0.bxor($1)
@op & $0.band($1)
@op | $0.bor($1)
@fn fr_alloc
@file gadgets/src/algebra/fr.rs
@impl AllocatedFr<F>
@name alloc
@wrap impl AllocatedFr {
@header
pub fn alloc(cs: &mut CS, value: Option<F>) -> (ret: Result<Self, SynthesisError>)
    requires old(cs).prv() ==> value is Some,
    ensures ret is Ok ==> new_fr(*old(cs), *final(cs), value, ret->Ok_0),
@fn fr_alloc_input
@file gadgets/src/algebra/fr.rs
@impl AllocatedFr<F>
@name alloc_input
@wrap impl AllocatedFr {
@header
pub fn alloc_input(cs: &mut CS, value: Option<F>) -> (ret: Result<Self, SynthesisError>)
    requires old(cs).prv() ==> value is Some,
    ensures ret is Ok ==> new_fr(*old(cs), *final(cs), value, ret->Ok_0) && ret->Ok_0.variable == Variable(Index::Input(old(cs).ni() as usize)),
@fn fr_variable
@file gadgets/src/algebra/fr.rs
@impl AllocatedFr<F>
@name get_variable
@wrap impl AllocatedFr {
@header
pub fn get_variable(&self) -> (ret: Variable)
    ensures ret == self.variable,
@fn fr_value
@file gadgets/src/algebra/fr.rs
@impl AllocatedFr<F>
@name get_value
@wrap impl AllocatedFr {
@header
pub fn get_value(&self) -> (ret: Option<F>)
    ensures ret == self.value,
@fn fr_inputize
@file gadgets/src/algebra/fr.rs
@impl AllocatedFr<F>
@name inputize
@wrap impl AllocatedFr {
@header
pub fn inputize(&self, cs: &mut CS) -> (ret: Result<(), SynthesisError>)
    ensures ret is Ok ==> grows(*old(cs), *final(cs)) && final(cs).ni() == old(cs).ni() + 1,
        // the new public input is this value
        ret is Ok ==> forall|w: Asg| wf(w) && #[trigger] final(cs).sat(w) ==> w(Variable(Index::Input(old(cs).ni() as usize))) == w(self.variable),
        ret is Ok ==> forall|w: Asg| wf(w) && #[trigger] old(cs).sat(w) && follows(*old(cs), *final(cs), w) && self.value == Some(w(self.variable)) && old(cs).prv() ==> final(cs).sat(w),
@at fs
proof { field_laws(); }
@fn fr_isnonzero
@file gadgets/src/algebra/fr.rs
@impl AllocatedFr<F>
@name isnonzero
@wrap impl AllocatedFr {
@header
pub fn isnonzero(&self, cs: &mut CS) -> (ret: Result<(), SynthesisError>)
    ensures ret is Ok ==> grows(*old(cs), *final(cs)),
        ret is Ok ==> forall|w: Asg| wf(w) && #[trigger] final(cs).sat(w) ==> w(self.variable) != f0(),
        ret is Ok && old(cs).prv() ==> self.value is Some && self.value != Some(f0()),
        ret is Ok ==> forall|w: Asg| wf(w) && #[trigger] old(cs).sat(w) && follows(*old(cs), *final(cs), w) && self.value == Some(w(self.variable)) && old(cs).prv() ==> final(cs).sat(w),
@at fs
proof { field_laws(); }
@fn lookup1_x
@file gadgets/src/lookup/table.rs
@name lookup1_x
@header
pub fn lookup1_x(cs: &mut CS, b: &Boolean, c: &[F]) -> (ret: Result<AllocatedFr, SynthesisError>)
    ensures ret is Ok ==> grows(*old(cs), *final(cs)),
        ret is Ok ==> forall|w: Asg| wf(w) && #[trigger] final(cs).sat(w) && isbit(*b, w) ==> w(ret->Ok_0.variable) == c@[at1(tv(*b, w))],
        ret is Ok ==> forall|w: Asg| wf(w) && #[trigger] old(cs).sat(w) && follows(*old(cs), *final(cs), w) && right(*b, w) && old(cs).prv() ==> final(cs).sat(w),
        ret is Ok && old(cs).prv() ==> b.known() is Some && ret->Ok_0.value == Some(c@[at1(b.known()->Some_0)]),
@at fs
proof { field_laws(); }
@fn lookup2_x
@file gadgets/src/lookup/table.rs
@name lookup2_x
@header
pub fn lookup2_x(cs: &mut CS, b: &[Boolean], c: &[F]) -> (ret: Result<AllocatedFr, SynthesisError>)
    ensures ret is Ok ==> grows(*old(cs), *final(cs)) && looks2(*old(cs), *final(cs), b@, c@, ret->Ok_0),
        ret is Ok ==> forall|w: Asg| wf(w) && #[trigger] old(cs).sat(w) && follows(*old(cs), *final(cs), w) && right(b@[0], w) && right(b@[1], w) && old(cs).prv() ==> final(cs).sat(w),
@at fs
proof { field_laws(); }
@at enf0
proof {
    assert forall|w: Asg| wf(w) && isbit(b@[0], w) && isbit(b@[1], w) implies
        (fmul(#[trigger] la_.val(w), lb_.val(w)) == lc_.val(w) <==> w(res_x.variable) == c@[at2(tv(b@[0], w), tv(b@[1], w))]) by {
        let (x, y, r) = (b@[0].fv(w), b@[1].fv(w), w(res_x.variable));
        rk2(x, y, r, c@[0], c@[1], c@[2], c@[3]);
        lemma_diff(fmul(la_.val(w), lb_.val(w)), lc_.val(w));
        lemma_diff(c@[at2(tv(b@[0], w), tv(b@[1], w))], r);
    }
}
@fn lookup2_xy
@file gadgets/src/lookup/table.rs
@name lookup2_xy
@header
pub fn lookup2_xy(cs: &mut CS, b: &[Boolean], c: &[(F, F)]) -> (ret: Result<(AllocatedFr, AllocatedFr), SynthesisError>)
    ensures ret is Ok ==> grows(*old(cs), *final(cs)) && looks2(*old(cs), *final(cs), b@, c@.map_values(|t: (F, F)| t.0), ret->Ok_0.0) && looks2(*old(cs), *final(cs), b@, c@.map_values(|t: (F, F)| t.1), ret->Ok_0.1),
        ret is Ok ==> forall|w: Asg| wf(w) && #[trigger] old(cs).sat(w) && follows(*old(cs), *final(cs), w) && right(b@[0], w) && right(b@[1], w) && old(cs).prv() ==> final(cs).sat(w),
@at fs
proof { field_laws(); }
@at enf0
proof {
    assert forall|w: Asg| wf(w) && isbit(b@[0], w) && isbit(b@[1], w) implies
        (fmul(#[trigger] la_.val(w), lb_.val(w)) == lc_.val(w) <==> w(res_x.variable) == c@[at2(tv(b@[0], w), tv(b@[1], w))].0) by {
        let (x, y, r) = (b@[0].fv(w), b@[1].fv(w), w(res_x.variable));
        rk2(x, y, r, c@[0].0, c@[1].0, c@[2].0, c@[3].0);
        lemma_diff(fmul(la_.val(w), lb_.val(w)), lc_.val(w));
        lemma_diff(c@[at2(tv(b@[0], w), tv(b@[1], w))].0, r);
    }
}
@at enf1
proof {
    assert forall|w: Asg| wf(w) && isbit(b@[0], w) && isbit(b@[1], w) implies
        (fmul(#[trigger] la_.val(w), lb_.val(w)) == lc_.val(w) <==> w(res_y.variable) == c@[at2(tv(b@[0], w), tv(b@[1], w))].1) by {
        let (x, y, r) = (b@[0].fv(w), b@[1].fv(w), w(res_y.variable));
        rk2(x, y, r, c@[0].1, c@[1].1, c@[2].1, c@[3].1);
        lemma_diff(fmul(la_.val(w), lb_.val(w)), lc_.val(w));
        lemma_diff(c@[at2(tv(b@[0], w), tv(b@[1], w))].1, r);
    }
}
@fn synth
@file gadgets/src/lookup/table.rs
@name synth
@header
fn synth(window_size: usize, constants: &[F], assignment: &mut Vec<F>)
    requires window_size < 64, constants@.len() == old(assignment)@.len(),
        forall|j: int| 0 <= j < old(assignment)@.len() ==> old(assignment)@[j] == f0(),
    ensures moebius(final(assignment)@, constants@),
@inv 0
    assignment@.len() == constants@.len(), end0 == constants@.len(),
    forall|k: int| 0 <= k < k0 ==> #[trigger] ssum(assignment@, k, k + 1) == constants@[k],
    forall|k: int| k0 <= k < constants@.len() ==> assignment@[k] == #[trigger] ssum(assignment@, k, k0 as int),
@at ls0
let ghost a0 = assignment@;
@at lb1
let ghost a1 = assignment@;
proof {
    lemma_sub_self(i as int);
    ax_neg(a0[i as int]);
    ax_add_assoc(a0[i as int], fneg(a0[i as int]), constants@[i as int]);
    assert(fadd(a0[i as int], a1[i as int]) == constants@[i as int]);
}
@inv 1
    assignment@.len() == constants@.len(), end1 == constants@.len(), a1 == a0.update(i as int, cur), i == k0,
    forall|k: int| #![trigger assignment@[k]] 0 <= k <= i ==> assignment@[k] == a1[k],
    forall|k: int| i < k < k1 ==> assignment@[k] == #[trigger] ssum(a1, k, i + 1),
    forall|k: int| #![trigger assignment@[k]] k1 <= k < constants@.len() ==> assignment@[k] == a1[k],
@at ls1
let ghost e0 = assignment@[k1 as int];
@at le1
proof {
    assert(e0 == a1[j as int]);
    assert(eval == fadd(e0, if sub(i as int, j as int) { cur } else { f0() }));
    lemma_ssum_eq(a0, a1, j as int, i as int);
    assert(a0[j as int] == ssum(a0, j as int, k0 as int));
    assert(ssum(a1, j as int, i + 1) == fadd(ssum(a1, j as int, i as int), if sub(i as int, j as int) { a1[i as int] } else { f0() }));
}
@at la1
proof {
    let a2 = assignment@;
    assert forall|k: int| 0 <= k < k0 + 1 implies #[trigger] ssum(a2, k, k + 1) == constants@[k] by {
        if k < k0 {
            lemma_ssum_eq(a0, a2, k, k + 1);
        } else {
            lemma_ssum_eq(a0, a2, k, k);
            assert(a0[k] == ssum(a0, k, k0 as int));
        }
    }
    assert forall|k: int| k0 + 1 <= k < constants@.len() implies a2[k] == #[trigger] ssum(a2, k, k0 + 1) by {
        lemma_ssum_eq(a1, a2, k, i + 1);
        assert(a2[k] == ssum(a1, k, i + 1));
    }
}
@fn lookup3_x
@file gadgets/src/lookup/table.rs
@name lookup3_x
@header
pub fn lookup3_x(cs: &mut CS, bits: &[Boolean], coords: &[F]) -> (ret: Result<AllocatedFr, SynthesisError>)
    ensures ret is Ok ==> grows(*old(cs), *final(cs)) && looks3(*old(cs), *final(cs), bits@, coords@, ret->Ok_0),
        ret is Ok ==> forall|w: Asg| wf(w) && #[trigger] old(cs).sat(w) && follows(*old(cs), *final(cs), w) && right(bits@[0], w) && right(bits@[1], w) && right(bits@[2], w) && old(cs).prv() ==> final(cs).sat(w),
@at fs
proof { field_laws(); }
@at let:res_x
let ghost c1 = *cs;
@at let:precomp
let ghost c2 = *cs;
@at enf0
proof {
    let ss = x_coeffs@; let cc = coords@;
    lemma_ssum8(ss);
    assert forall|w: Asg| wf(w) && isbit(bits@[0], w) && isbit(bits@[1], w) && isbit(bits@[2], w) && precomp.fv(w) == b2f(tv(bits@[1], w) && tv(bits@[2], w)) implies
        (fmul(#[trigger] la_.val(w), lb_.val(w)) == lc_.val(w) <==> w(res_x.variable) == cc[at3(tv(bits@[0], w), tv(bits@[1], w), tv(bits@[2], w))]) by {
        let (x, y, z, p, r) = (bits@[0].fv(w), bits@[1].fv(w), bits@[2].fv(w), precomp.fv(w), w(res_x.variable));
        let k = at3(tv(bits@[0], w), tv(bits@[1], w), tv(bits@[2], w));
        assert(cc[k] == ssum(ss, k, k + 1));
        rk3(x, y, z, p, r, ss[0], ss[1], ss[2], ss[3], ss[4], ss[5], ss[6], ss[7]);
        lemma_diff(fmul(la_.val(w), lb_.val(w)), lc_.val(w));
        lemma_diff(cc[k], r);
    }
}
@at fe
proof {
    let c0 = *old(cs);
    assert forall|w: Asg| wf(w) && #[trigger] c0.sat(w) && follows(c0, *cs, w) && right(bits@[0], w) && right(bits@[1], w) && right(bits@[2], w) && c0.prv() implies cs.sat(w) by {
        assert(c1.sat(w));
        assert(follows(c1, c2, w));
        assert(c2.sat(w));
    }
}
@fn lookup3_xy
@file gadgets/src/lookup/table.rs
@name lookup3_xy
@header
pub fn lookup3_xy(cs: &mut CS, bits: &[Boolean], coords: &[(F, F)]) -> (ret: Result<(AllocatedFr, AllocatedFr), SynthesisError>)
    ensures ret is Ok ==> grows(*old(cs), *final(cs)) && looks3(*old(cs), *final(cs), bits@, coords@.map_values(|t: (F, F)| t.0), ret->Ok_0.0) && looks3(*old(cs), *final(cs), bits@, coords@.map_values(|t: (F, F)| t.1), ret->Ok_0.1),
        ret is Ok ==> forall|w: Asg| wf(w) && #[trigger] old(cs).sat(w) && follows(*old(cs), *final(cs), w) && right(bits@[0], w) && right(bits@[1], w) && right(bits@[2], w) && old(cs).prv() ==> final(cs).sat(w),
@at fs
proof { field_laws(); }
@at let:res_y
let ghost c1 = *cs;
@at let:precomp
let ghost c2 = *cs;
@inv 0
    end0 == coords@.len(), acc0@.len() == k0, forall|j: int| 0 <= j < k0 ==> acc0@[j] == coords@[j].0,
@inv 1
    end1 == coords@.len(), acc1@.len() == k1, forall|j: int| 0 <= j < k1 ==> acc1@[j] == coords@[j].1,
@at la0
proof { assert(acc0@ =~= coords@.map_values(|t: (F, F)| t.0)); }
@at la1
proof { assert(acc1@ =~= coords@.map_values(|t: (F, F)| t.1)); }
@at enf0
proof {
    let ss = x_coeffs@; let cc = coords@.map_values(|t: (F, F)| t.0);
    lemma_ssum8(ss);
    assert forall|w: Asg| wf(w) && isbit(bits@[0], w) && isbit(bits@[1], w) && isbit(bits@[2], w) && precomp.fv(w) == b2f(tv(bits@[1], w) && tv(bits@[2], w)) implies
        (fmul(#[trigger] la_.val(w), lb_.val(w)) == lc_.val(w) <==> w(res_x.variable) == cc[at3(tv(bits@[0], w), tv(bits@[1], w), tv(bits@[2], w))]) by {
        let (x, y, z, p, r) = (bits@[0].fv(w), bits@[1].fv(w), bits@[2].fv(w), precomp.fv(w), w(res_x.variable));
        let k = at3(tv(bits@[0], w), tv(bits@[1], w), tv(bits@[2], w));
        assert(cc[k] == ssum(ss, k, k + 1));
        rk3(x, y, z, p, r, ss[0], ss[1], ss[2], ss[3], ss[4], ss[5], ss[6], ss[7]);
        lemma_diff(fmul(la_.val(w), lb_.val(w)), lc_.val(w));
        lemma_diff(cc[k], r);
    }
}
@at enf1
proof {
    let ss = y_coeffs@; let cc = coords@.map_values(|t: (F, F)| t.1);
    lemma_ssum8(ss);
    assert forall|w: Asg| wf(w) && isbit(bits@[0], w) && isbit(bits@[1], w) && isbit(bits@[2], w) && precomp.fv(w) == b2f(tv(bits@[1], w) && tv(bits@[2], w)) implies
        (fmul(#[trigger] la_.val(w), lb_.val(w)) == lc_.val(w) <==> w(res_y.variable) == cc[at3(tv(bits@[0], w), tv(bits@[1], w), tv(bits@[2], w))]) by {
        let (x, y, z, p, r) = (bits@[0].fv(w), bits@[1].fv(w), bits@[2].fv(w), precomp.fv(w), w(res_y.variable));
        let k = at3(tv(bits@[0], w), tv(bits@[1], w), tv(bits@[2], w));
        assert(cc[k] == ssum(ss, k, k + 1));
        rk3(x, y, z, p, r, ss[0], ss[1], ss[2], ss[3], ss[4], ss[5], ss[6], ss[7]);
        lemma_diff(fmul(la_.val(w), lb_.val(w)), lc_.val(w));
        lemma_diff(cc[k], r);
    }
}
@at fe
proof {
    let c0 = *old(cs);
    assert forall|w: Asg| wf(w) && #[trigger] c0.sat(w) && follows(c0, *cs, w) && right(bits@[0], w) && right(bits@[1], w) && right(bits@[2], w) && c0.prv() implies cs.sat(w) by {
        assert(c1.sat(w));
        assert(follows(c1, c2, w));
        assert(c2.sat(w));
    }
}

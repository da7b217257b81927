@unit hash_rescue
@prelude base field vec
@scalar F Variable bool
@circuit
@assign
@arrays
@types AbstractHashRescueOutput<F>=AbstractHashRescueOutput ; RescueConstant<F>=RescueConstant
@type <F::BigInt as BigInteger>::NUM_LIMBS=vlimbs()
@type ALPH=valph()
@type INVALPH=vinvalph()
@include lc.rs
@include cv.rs
@include cs.rs
@include ring.rs
@include hashes.rs
@include sponge.rs
@include rescue.rs
@item gadgets/src/hashes/rescue.rs RESCUE_ROUNDS
@item gadgets/src/hashes/rescue.rs AbstractHashRescueOutput
@item r1cs/src/lib.rs Variable
@item r1cs/src/lib.rs Index
@method unwrap_or vunwrap_or($0, $1)
@call F::BigInt::read vread($1)
@call F::from_repr vfrom_repr($1)
@call Default::default vrepr0()
@call BitIteratorBE::new vbits($1)
@assume F::pow raises to the number whose bits BitIteratorBE lists, most significant first
@assume the Rescue constants are 45 rows of three and a three by three matrix of fixed field elements
@fn pow_with_constraint
@file gadgets/src/hashes/rescue.rs
@name pow_with_constraint
@op + $0.plus($1)
@op - $0.minus($1)
@op * $0.times($1)
@header
fn pow_with_constraint(state_value: &F, state: &Variable, exp: &[u64], cs: &mut CS, j: usize) -> (ret: Result<(F, Variable), SynthesisError>)
    requires exp.len() <= 64,
    ensures ret is Ok ==> ret->Ok_0.0 == fpow(*state_value, expo(exp@)),
        ret is Ok ==> elem_ok(*old(cs), *final(cs), |w: Asg| w(*state) == *state_value, ret->Ok_0.1, ret->Ok_0.0, |w: Asg| fpow(w(*state), expo(exp@))),
@at fs
let ghost c0 = *cs; let ghost b = bits_be(exp@); let ghost (x, xv) = (*state, *state_value);
proof { field_laws(); }
@inv 0
        laws(), c0 == *old(cs), exp.len() <= 64, b == bits_be(exp@), end0 == b.len(), end0 <= 4096, 0 <= cnt <= k0, x == *state, xv == *state_value,
        !found_one ==> bval(b, k0 as int) == 0,
        res_value == fpow(xv, bval(b, k0 as int)),
        elem_ok(c0, *cs, |w: Asg| w(x) == xv, res, res_value, |w: Asg| fpow(w(x), bval(b, k0 as int))),
@at ls0
proof { assert(bval(b, k0 as int + 1) == 2 * bval(b, k0 as int) + if b[k0 as int] { 1nat } else { 0nat }); }
let ghost m = *cs; let ghost (r0, v0) = (res, res_value); let ghost n0 = bval(b, k0 as int);
@at let:tmp
let ghost xt = tmp;
@at le0
proof {
    assert forall|y: F| #[trigger] fpow(y, bval(b, k0 as int)) == if i { fmul(fmul(fpow(y, n0), fpow(y, n0)), y) } else { fmul(fpow(y, n0), fpow(y, n0)) } by {
        lemma_fpow_add(y, n0, n0);
        assert(n0 + n0 == 2 * n0);
        if i { assert((2 * n0 + 1 - 1) as nat == n0 + n0); }
    }
    assert forall|w: Asg| wf(w) && #[trigger] cs.sat(w) implies w(res) == fpow(w(x), bval(b, k0 as int)) by {
        assert(m.sat(w));
        assert(w(r0) == fpow(w(x), n0));
        assert(w(xt) == fmul(w(r0), w(r0)));
    }
    assert forall|w: Asg| wf(w) && #[trigger] c0.sat(w) && follows(c0, *cs, w) && w(x) == xv && c0.prv() implies cs.sat(w) && w(res) == res_value by {
        lemma_follows(c0, m, *cs, w);
        assert(m.sat(w));
        assert(cs.has(xt) && !c0.has(xt) && cs.has(res) && !c0.has(res));
    }
}
@fn rescue_block
@file gadgets/src/hashes/rescue.rs
@name rescue_block
@header
pub fn rescue_block(xl: F, xr: F, rc: &RescueConstant) -> (ret: F)
    requires rc_ok(*rc),
    ensures ret == rblock(xl, xr, *rc),
@at let:state
let ghost s0 = state@;
proof { assert(s0 == seq![xl, xr, f0()]); lemma_upto(addc(*rc, 0), s0, 0); }
@inv 0
        end0 == 3, rc_ok(*rc), s0.len() == 3, state@ == upto(addc(*rc, 0), s0, k0 as int),
@at ls0
proof { lemma_upto(addc(*rc, 0), s0, k0 as int); }
@at la0
let ghost s1 = state@;
@inv 1
        end1 == 44, rc_ok(*rc), s1.len() == 3, state@ == rrun(s1, *rc, k1 as int), state.len() == 3,
@at ls1
let ghost sa = state@;
proof { lemma_upto(powc(k1 as int), sa, 0); }
@inv 2
        end2 == 3, sa.len() == 3, af@ == if k1 % 2 == 1 { invalph() } else { alph() }, state@ == upto(powc(k1 as int), sa, k2 as int),
@at ls2
proof { lemma_upto(powc(k1 as int), sa, k2 as int); }
@at let:tmp2
let ghost sb = state@;
@inv 3
        end3 == 3, rc_ok(*rc), sb.len() == 3, state@ == sb, tmp2.len() == 3,
        forall|t: int| 0 <= t < k3 ==> #[trigger] tmp2[t] == dotp(rc.mds[t]@, sb, 3), forall|t: int| k3 <= t < 3 ==> #[trigger] tmp2[t] == f0(),
@inv 4
        end4 == 3, k3 < 3, rc_ok(*rc), sb.len() == 3, state@ == sb, tmp2.len() == 3,
        forall|t: int| 0 <= t < k3 ==> #[trigger] tmp2[t] == dotp(rc.mds[t]@, sb, 3), forall|t: int| k3 < t < 3 ==> #[trigger] tmp2[t] == f0(),
        tmp2[k3 as int] == dotp(rc.mds[k3 as int]@, sb, k4 as int),
@at la3
let ghost sm = tmp2@;
proof { assert(sm =~= mixto(rc.mds@, sb, 3)); }
@inv 5
        end5 == 3, k1 < 44, rc_ok(*rc), sm.len() == 3, tmp2@ == sm, state.len() == 3,
        forall|t: int| 0 <= t < k5 ==> #[trigger] state[t] == addc(*rc, k1 + 1)(t, sm[t]),
@at la5
proof { assert(state@ =~= rround(sa, *rc, k1 as int)); }
@fn rescue_hash
@file gadgets/src/hashes/rescue.rs
@name rescue_hash
@header
fn rescue_hash(b: &[u8], constants: &RescueConstant) -> (ret: (F, F, F))
    requires rc_ok(*constants), b.len() > 0,
    ensures ret.2 == rhash(b@, *constants), ret.2 == rblock(ret.0, ret.1, *constants),
@at fs
proof { lemma_words(b@); }
@inv 0
        v.len() == k0, end0 == b.len() / n, n == 8 * limbs(), 0 < n, b.len() > 0,
        forall|i: int| 0 <= i < k0 ==> #[trigger] v[i] == hword(b@, i),
@at ls0
proof { lemma_words(b@); assert(0 <= (k0 as int) * (n as int)); }
@at let:h
proof { lemma_words(b@); assert(v.len() == nwords(b@)); }
@inv 1
        v.len() == nwords(b@), end1 == v.len(), rc_ok(*constants), xr == v[v.len() - 1], h == rchain(|i: int| hword(b@, i), *constants, k1 as int),
        forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == hword(b@, i),
        k1 == v.len() ==> h == rblock(xl, xr, *constants),
@fn hash
@file gadgets/src/hashes/rescue.rs
@name hash
@header
pub fn hash(b: &[u8]) -> (ret: F)
    requires b.len() > 0,
    ensures ret == rhash(b@, rconsts()),
@fn rescue_block_enforce
@file gadgets/src/hashes/rescue.rs
@name rescue_block_enforce
@op + $0.plus($1)
@op - $0.minus($1)
@op * $0.times($1)
@header
fn rescue_block_enforce(cs: &mut CS, xl: (F, Variable), xr: (F, Variable), constants: &RescueConstant) -> (ret: Result<(F, Variable), SynthesisError>)
    requires rc_ok(*constants),
    ensures ret is Ok ==> blk_ok(*old(cs), *final(cs), xl, xr, ret->Ok_0, |a: F, b: F| rblock(a, b, *constants)),
@at fs
let ghost c0 = *cs; let ghost rc = *constants;
proof { field_laws(); }
@at let:state
let ghost c1 = *cs; let ghost a0 = state_value@; let ghost s0 = state@; let ghost x0 = var_three;
proof {
    assert(a0 =~= seq![xl.0, xr.0, f0()]); assert(s0 =~= seq![xl.1, xr.1, x0]);
    lemma_upto_start(c1, a0, s0, addc(rc, 0));
    assert(grows(c0, c1));
    assert forall|w: Asg| wf(w) && #[trigger] c1.sat(w) implies w(x0) == f0() by { }
}
@inv 0
        laws(), rc == *constants, rc_ok(rc), end0 == 3, a0.len() == 3, s0.len() == 3, state.len() == 3, state_value.len() == 3,
        step_ok(c1, *cs, a0, s0, state_value@, state@, fupto(addc(rc, 0), k0 as int)),
@at ls0
let ghost m = *cs; let ghost (b, t) = (state_value@, state@);
@at le0
proof {
    assert(elem_ok(m, *cs, |w: Asg| w(t[k0 as int]) == b[k0 as int], state@[k0 as int], state_value@[k0 as int], |w: Asg| addc(rc, 0)(k0 as int, w(t[k0 as int])))) by {
        let x = state@[k0 as int]; assert(cs.has(x) && !m.has(x));
    }
    lemma_upto_step(c1, m, *cs, a0, s0, b, t, addc(rc, 0), k0 as int, state@[k0 as int], state_value@[k0 as int]);
    assert(state@ =~= t.update(k0 as int, state@[k0 as int]));
    assert(state_value@ =~= b.update(k0 as int, state_value@[k0 as int]));
}
@at la0
let ghost c2 = *cs; let ghost a1 = state_value@; let ghost s1 = state@;
proof { lemma_step_id(c2, a1, s1, frun(rc, 0)); }
@inv 1
        laws(), rc == *constants, rc_ok(rc), end1 == 44, a1.len() == 3, s1.len() == 3, state.len() == 3, state_value.len() == 3,
        step_ok(c2, *cs, a1, s1, state_value@, state@, frun(rc, k1 as int)),
@at ls1
let ghost m0 = *cs; let ghost (b0, t0) = (state_value@, state@); let ghost pw = powc(k1 as int);
proof { lemma_upto_start(m0, b0, t0, pw); }
@inv 2
        laws(), end2 == 3, b0.len() == 3, t0.len() == 3, state.len() == 3, state_value.len() == 3, af.len() <= 64, af@ == if k1 % 2 == 1 { invalph() } else { alph() }, pw == powc(k1 as int),
        step_ok(m0, *cs, b0, t0, state_value@, state@, fupto(pw, k2 as int)),
@at ls2
let ghost m = *cs; let ghost (b, t) = (state_value@, state@);
@at le2
proof {
    assert(elem_ok(m, *cs, |w: Asg| w(t[k2 as int]) == b[k2 as int], state@[k2 as int], state_value@[k2 as int], |w: Asg| pw(k2 as int, w(t[k2 as int]))));
    lemma_upto_step(m0, m, *cs, b0, t0, b, t, pw, k2 as int, state@[k2 as int], state_value@[k2 as int]);
    assert(state@ =~= t.update(k2 as int, state@[k2 as int]));
    assert(state_value@ =~= b.update(k2 as int, state_value@[k2 as int]));
}
@at la2
let ghost m1 = *cs; let ghost (b1, t1) = (state_value@, state@);
proof { lemma_map_start(m1, b1, t1, pw, rc.mds@); }
@at ty:tmp2
: Vec<Variable>
@at lb3
proof { assert(tmp2_value@.subrange(0, 0) =~= Seq::<F>::empty()); assert(tmp2@ =~= Seq::<Variable>::empty()); }
@inv 3
        laws(), rc == *constants, rc_ok(rc), end3 == 3, b1.len() == 3, t1.len() == 3, state@ == t1, state_value@ == b1, tmp2_value.len() == 3, tmp2.len() == k3,
        forall|i: int| k3 <= i < 3 ==> #[trigger] tmp2_value[i] == f0(),
        step_ok(m1, *cs, b1, t1, tmp2_value@.subrange(0, k3 as int), tmp2@, fmix(rc.mds@, k3 as int)),
@at ls3
let ghost m = *cs; let ghost (b, t) = (tmp2_value@.subrange(0, k3 as int), tmp2@);
@inv 4
        rc == *constants, rc_ok(rc), end4 == 3, k3 < 3, state_value@ == b1, b1.len() == 3, tmp2_value.len() == 3, b == tmp2_value@.subrange(0, k3 as int), b.len() == k3,
        forall|i: int| k3 < i < 3 ==> #[trigger] tmp2_value[i] == f0(),
        tmp2_value[k3 as int] == dotp(rc.mds[k3 as int]@, b1, k4 as int),
@at le4
proof { assert(b =~= tmp2_value@.subrange(0, k3 as int)); }
@inv 5
        rc == *constants, rc_ok(rc), end5 == 3, k3 < 3, state@ == t1, t1.len() == 3,
        forall|w: Asg| #[trigger] acc5.val(w) == dotp(rc.mds[k3 as int]@, evs(t1, w), k5 as int),
@at le3
proof {
    let x = tmp2@[k3 as int]; let v = tmp2_value@[k3 as int];
    assert(elem_ok(m, *cs, |w: Asg| evs(t1, w) == b1, x, v, |w: Asg| dotp(rc.mds[k3 as int]@, evs(t1, w), 3))) by { assert(cs.has(x) && !m.has(x)); }
    lemma_mix_step(m1, m, *cs, b1, t1, b, t, rc.mds@, k3 as int, x, v);
    assert(tmp2@ =~= t.push(x)); assert(tmp2_value@.subrange(0, k3 as int + 1) =~= b.push(v));
}
@at la3
let ghost m2 = *cs; let ghost (b2, t2_) = (tmp2_value@, tmp2@);
proof {
    assert(tmp2_value@.subrange(0, 3) =~= b2);
    lemma_map_start(m2, b2, t2_, addc(rc, k1 + 1), rc.mds@);
    assert(state_value@.subrange(0, 0) =~= Seq::<F>::empty()); assert(state@.subrange(0, 0) =~= Seq::<Variable>::empty());
}
@inv 6
        laws(), rc == *constants, rc_ok(rc), end6 == 3, k1 < 44, b2.len() == 3, t2_.len() == 3, tmp2@ == t2_, tmp2_value.len() == 3, state.len() == 3, state_value.len() == 3,
        forall|i: int| k6 <= i < 3 ==> #[trigger] tmp2_value[i] == b2[i],
        step_ok(m2, *cs, b2, t2_, state_value@.subrange(0, k6 as int), state@.subrange(0, k6 as int), fmapto(addc(rc, k1 + 1), k6 as int)),
@at ls6
let ghost m = *cs; let ghost (b, t) = (state_value@.subrange(0, k6 as int), state@.subrange(0, k6 as int)); let ghost ad = addc(rc, k1 + 1);
@at le6
proof {
    let x = state@[k6 as int]; let v = state_value@[k6 as int];
    assert(elem_ok(m, *cs, |w: Asg| w(t2_[k6 as int]) == b2[k6 as int], x, v, |w: Asg| ad(k6 as int, w(t2_[k6 as int])))) by { assert(cs.has(x) && !m.has(x)); }
    lemma_map_step(m2, m, *cs, b2, t2_, b, t, ad, k6 as int, x, v);
    assert(state@.subrange(0, k6 as int + 1) =~= t.push(x)); assert(state_value@.subrange(0, k6 as int + 1) =~= b.push(v));
}
@at la6
proof {
    assert(state@.subrange(0, 3) =~= state@); assert(state_value@.subrange(0, 3) =~= state_value@);
    lemma_round(c2, m0, m1, m2, *cs, a1, s1, b0, t0, b1, t1, b2, t2_, state_value@, state@, rc, k1 as int);
}
@at fe
proof {
    let fb = |x: Seq<F>| rrun(upto(addc(rc, 0), x, 3), rc, 44);
    lemma_step_comp(c1, c2, *cs, a0, s0, a1, s1, state_value@, state@, fupto(addc(rc, 0), 3), frun(rc, 44), fb);
    assert forall|w: Asg| wf(w) && #[trigger] cs.sat(w) implies w(state@[0]) == rblock(w(xl.1), w(xr.1), rc) by {
        assert(c1.sat(w)); assert(evs(s0, w) =~= seq![w(xl.1), w(xr.1), f0()]); assert(evs(state@, w)[0] == w(state@[0]));
    }
    assert forall|w: Asg| wf(w) && #[trigger] c0.sat(w) && follows(c0, *cs, w) && w(xl.1) == xl.0 && w(xr.1) == xr.0 && c0.prv() implies cs.sat(w) && w(state@[0]) == state_value@[0] by {
        lemma_follows(c0, c1, *cs, w);
        assert(c1.has(x0) && !c0.has(x0)); assert(w(x0) == f0());
        assert(c1.sat(w)); assert(evs(s0, w) =~= a0); assert(evs(state@, w)[0] == w(state@[0]));
    }
}
@fn rescue
@file gadgets/src/hashes/rescue.rs
@name rescue
@op + $0.plus($1)
@op - $0.minus($1)
@op * $0.times($1)
@header
pub fn rescue(cs: &mut CS, b: &[u8]) -> (ret: Result<F, SynthesisError>)
    requires b.len() > 0,
    ensures ret is Ok ==> grows(*old(cs), *final(cs)) && ret->Ok_0 == rhash(b@, rconsts()) && final(cs).ni() == old(cs).ni() + 1,
        ret is Ok ==> forall|w: Asg| wf(w) && #[trigger] final(cs).sat(w) ==> w(Variable(Index::Input(old(cs).ni() as usize))) == rblock(w(Variable(Index::Aux(old(cs).na() as usize))), w(Variable(Index::Aux((old(cs).na() + 1) as usize))), rconsts()),
        ret is Ok && old(cs).prv() ==> forall|w: Asg| wf(w) && #[trigger] old(cs).sat(w) && follows(*old(cs), *final(cs), w) ==> final(cs).sat(w) && w(Variable(Index::Input(old(cs).ni() as usize))) == ret->Ok_0,
@at fs
let ghost c0 = *cs;
proof { field_laws(); }
@at let:var_xr
let ghost c1 = *cs;
@at let:output
let ghost c3 = *cs;
@at fe
proof {
    assert(output == Variable(Index::Input(c0.ni() as usize)));
    assert forall|w: Asg| wf(w) && #[trigger] c0.sat(w) && follows(c0, *cs, w) && c0.prv() implies cs.sat(w) && w(output) == image by {
        lemma_follows(c0, c1, *cs, w);
        assert(c1.has(var_xl) && !c0.has(var_xl) && c1.has(var_xr) && !c0.has(var_xr) && cs.has(output) && !c0.has(output));
        assert(w(var_xl) == xl); assert(w(var_xr) == xr); assert(c1.sat(w)); assert(c1.prv());
        lemma_follows(c1, c3, *cs, w);
    }
}
@fn out_alloc
@file gadgets/src/hashes/rescue.rs
@impl AbstractHashRescueOutput<F>
@name alloc
@wrap impl AbstractHashRescueOutput {
@header
pub fn alloc(cs: &mut CS, f: Option<F>) -> (ret: Result<Self, SynthesisError>)
    requires old(cs).prv() ==> f is Some,
    ensures ret is Ok ==> allocated(*old(cs), *final(cs), ret->Ok_0.variable, if old(cs).prv() { f } else { None }) && grows(*old(cs), *final(cs)) && ret->Ok_0.value == f
        && !old(cs).has(ret->Ok_0.variable) && final(cs).has(ret->Ok_0.variable),
@fn out_value
@file gadgets/src/hashes/rescue.rs
@impl AbstractHashRescueOutput<F>
@name get_value
@wrap impl AbstractHashRescueOutput {
@header
pub fn get_value(&self) -> (ret: Option<F>)
    ensures ret == self.value,
@fn out_vars
@file gadgets/src/hashes/rescue.rs
@impl AbstractHashOutput<F> for AbstractHashRescueOutput<F>
@name get_variables
@wrap impl AbstractHashRescueOutput {
@header
pub fn get_variables(&self) -> (ret: Vec<Variable>)
    ensures ret@ == seq![self.variable],
@fn out_values
@file gadgets/src/hashes/rescue.rs
@impl AbstractHashOutput<F> for AbstractHashRescueOutput<F>
@name get_variable_values
@wrap impl AbstractHashRescueOutput {
@header
pub fn get_variable_values(&self) -> (ret: Vec<Option<F>>)
    ensures ret@ == seq![self.value],
@fn hash_enforce
@file gadgets/src/hashes/rescue.rs
@impl AbstractHash<F> for AbstractHashRescue<F>
@name hash_enforce
@op + $0.plus($1)
@op - $0.minus($1)
@op * $0.times($1)
@refs params
@header
pub fn hash_enforce(cs: &mut CS, params: &[&AbstractHashRescueOutput]) -> (ret: Result<AbstractHashRescueOutput, SynthesisError>)
    requires old(cs).prv() ==> forall|i: int| 0 <= i < params.len() ==> (#[trigger] params[i]).value is Some,
    ensures ret is Ok ==> grows(*old(cs), *final(cs)) && (old(cs).prv() ==> ret->Ok_0.value is Some),
        ret is Ok ==> forall|w: Asg| wf(w) && #[trigger] final(cs).sat(w) ==> w(ret->Ok_0.variable) == rchain(|i: int| w(params[i].variable), rconsts(), params.len() as int),
        ret is Ok && old(cs).prv() ==> forall|w: Asg| wf(w) && #[trigger] old(cs).sat(w) && follows(*old(cs), *final(cs), w) && (forall|i: int| 0 <= i < params.len() ==> rv((#[trigger] params[i]).value, params[i].variable, w)) ==> final(cs).sat(w) && rv(ret->Ok_0.value, ret->Ok_0.variable, w),
@at fs
let ghost c0 = *cs;
proof { field_laws(); }
@at let:h
proof {
    assert forall|w: Asg| wf(w) && #[trigger] cs.sat(w) implies w(h.1) == f0() by { }
}
@inv 0
        laws(), end0 == params.len(), grows(c0, *cs), constants == rconsts(), rc_ok(constants),
        c0.prv() ==> forall|i: int| 0 <= i < params.len() ==> (#[trigger] params[i]).value is Some,
        forall|w: Asg| wf(w) && #[trigger] cs.sat(w) ==> w(h.1) == rchain(|i: int| w(params[i].variable), rconsts(), k0 as int),
        c0.prv() ==> forall|w: Asg| wf(w) && #[trigger] c0.sat(w) && follows(c0, *cs, w) && (forall|i: int| 0 <= i < params.len() ==> rv((#[trigger] params[i]).value, params[i].variable, w)) ==> cs.sat(w) && w(h.1) == h.0,
@at ls0
let ghost m = *cs; let ghost h0 = h;
@at le0
proof {
    assert forall|w: Asg| wf(w) && #[trigger] c0.sat(w) && follows(c0, *cs, w) && c0.prv() && (forall|i: int| 0 <= i < params.len() ==> rv((#[trigger] params[i]).value, params[i].variable, w)) implies cs.sat(w) && w(h.1) == h.0 by {
        lemma_follows(c0, m, *cs, w);
        assert(rv(params[k0 as int].value, params[k0 as int].variable, w));
        assert(m.sat(w));
    }
    assert forall|w: Asg| wf(w) && #[trigger] cs.sat(w) implies w(h.1) == rchain(|i: int| w(params[i].variable), rconsts(), k0 as int + 1) by {
        assert(m.sat(w));
        assert(w(h0.1) == rchain(|i: int| w(params[i].variable), rconsts(), k0 as int));
    }
}

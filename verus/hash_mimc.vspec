@unit hash_mimc
@prelude base field vec
@scalar F Variable bool
@circuit
@assign
@types AbstractHashMimcOutput<F>=AbstractHashMimcOutput
@type <F::BigInt as BigInteger>::NUM_LIMBS=vlimbs()
@include lc.rs
@include cv.rs
@include cs.rs
@include ring.rs
@include hashes.rs
@include mimc.rs
@item gadgets/src/hashes/mimc.rs MIMC_ROUNDS
@item gadgets/src/hashes/mimc.rs AbstractHashMimcOutput
@item r1cs/src/lib.rs Variable
@item r1cs/src/lib.rs Index
@method unwrap_or vunwrap_or($0, $1)
@call F::BigInt::read vread($1)
@call F::from_repr vfrom_repr($1)
@call Default::default vrepr0()
@assume the MiMC round constants are 322 fixed field elements
@fn mimc_block
@file gadgets/src/hashes/mimc.rs
@name mimc_block
@header
fn mimc_block(xl: F, xr: F, constants: &[F]) -> (ret: F)
    requires constants.len() >= 322,
    ensures ret == mblock(xl, xr, constants@),
@at fs
let ghost (l0, r0) = (xl, xr);
@inv 0
        constants.len() >= 322, end0 == 322, (xl, xr) == mrun(l0, r0, constants@, k0 as int),
@fn mimc_hash
@file gadgets/src/hashes/mimc.rs
@name mimc_hash
@header
fn mimc_hash(b: &[u8], constants: &[F]) -> (ret: (F, F, F))
    requires constants.len() >= 322, b.len() > 0,
    ensures ret.2 == mhash(b@, constants@), ret.2 == mblock(ret.0, ret.1, constants@),
@at fs
proof { lemma_words(b@); }
@inv 0
        v.len() == k0, end0 == b.len() / n, n == 8 * limbs(), 0 < n, b.len() > 0,
        forall|i: int| 0 <= i < k0 ==> #[trigger] v[i] == hword(b@, i),
@at ls0
proof { lemma_words(b@); assert(0 <= (k0 as int) * (n as int)); }
@at let:h
proof { lemma_words(b@); assert(v.len() == nwords(b@)); }
@inv 1
        v.len() == nwords(b@), end1 == v.len(), constants.len() >= 322, xr == v[v.len() - 1], h == mchain(|i: int| hword(b@, i), constants@, k1 as int),
        forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == hword(b@, i),
        k1 == v.len() ==> h == mblock(xl, xr, constants@),
@fn hash
@file gadgets/src/hashes/mimc.rs
@name hash
@header
pub fn hash(b: &[u8]) -> (ret: F)
    requires b.len() > 0,
    ensures ret == mhash(b@, mconsts()),
@fn mimc_block_enforce
@file gadgets/src/hashes/mimc.rs
@name mimc_block_enforce
@op + $0.plus($1)
@op - $0.minus($1)
@op * $0.times($1)
@header
fn mimc_block_enforce(cs: &mut CS, xl: (Option<F>, Variable), xr: (Option<F>, Variable), constants: &[F]) -> (ret: Result<(Option<F>, Variable), SynthesisError>)
    requires constants.len() >= 322, old(cs).prv() ==> xl.0 is Some && xr.0 is Some,
    ensures ret is Ok ==> block_ok(*old(cs), *final(cs), xl, xr, ret->Ok_0, |a: F, b: F| mblock(a, b, constants@)),
@at fs
let ghost c0 = *cs; let ghost c = constants@;
proof { field_laws(); }
@at ls0
let ghost m = *cs; let ghost (ov, ow, lv, lw) = (var_xl, var_xr, xl_value, xr_value);
@at let:var_new_xl
let ghost (xn, xt) = (var_new_xl, var_tmp);
@at le0
proof {
    let cc = c[k0 as int];
    assert forall|w: Asg| wf(w) && #[trigger] cs.sat(w) implies (w(var_xl), w(var_xr)) == mrun(w(xl.1), w(xr.1), c, k0 as int + 1) by {
        let t = fadd(w(ov), cc);
        assert(m.sat(w));
        assert(fmul(t, t) == w(xt));
        assert(fmul(w(xt), t) == fadd(w(xn), fneg(w(ow))));
    }
    assert forall|w: Asg| wf(w) && #[trigger] c0.sat(w) && follows(c0, *cs, w) && rv(xl.0, xl.1, w) && rv(xr.0, xr.1, w) && c0.prv() implies cs.sat(w) && rv(xl_value, var_xl, w) && rv(xr_value, var_xr, w) by {
        lemma_follows(c0, m, *cs, w);
        let t = fadd(w(ov), cc);
        assert(cs.has(xt) && !c0.has(xt) && cs.has(xn) && !c0.has(xn));
        assert(w(xt) == fmul(t, t));
        assert(w(xn) == fadd(fmul(t, fmul(t, t)), w(ow)));
    }
}
@inv 0
        laws(), end0 == 322, constants.len() >= 322, c == constants@, grows(c0, *cs), c0.prv() ==> xl_value is Some && xr_value is Some,
        xl.0 is Some && xr.0 is Some ==> xl_value is Some && xr_value is Some && (xl_value->Some_0, xr_value->Some_0) == mrun(xl.0->Some_0, xr.0->Some_0, c, k0 as int),
        forall|w: Asg| wf(w) && #[trigger] cs.sat(w) ==> (w(var_xl), w(var_xr)) == mrun(w(xl.1), w(xr.1), c, k0 as int),
        forall|w: Asg| wf(w) && #[trigger] c0.sat(w) && follows(c0, *cs, w) && rv(xl.0, xl.1, w) && rv(xr.0, xr.1, w) && c0.prv() ==> cs.sat(w) && rv(xl_value, var_xl, w) && rv(xr_value, var_xr, w),
@fn mimc
@file gadgets/src/hashes/mimc.rs
@name mimc
@header
pub fn mimc(cs: &mut CS, b: Option<&[u8]>) -> (ret: Result<Option<F>, SynthesisError>)
    requires b is Some ==> b->Some_0.len() > 0, old(cs).prv() ==> b is Some,
    ensures ret is Ok ==> grows(*old(cs), *final(cs)),
        ret is Ok ==> (ret->Ok_0 is Some <==> b is Some) && (b is Some ==> ret->Ok_0 == Some(mhash(b->Some_0@, mconsts()))),
        ret is Ok && old(cs).prv() ==> forall|w: Asg| wf(w) && #[trigger] old(cs).sat(w) && follows(*old(cs), *final(cs), w) ==> final(cs).sat(w),
@at fs
let ghost c0 = *cs;
@at let:var_xr
let ghost c1 = *cs;
@at fe
proof {
    assert forall|w: Asg| wf(w) && #[trigger] c0.sat(w) && follows(c0, *cs, w) && c0.prv() implies cs.sat(w) by {
        lemma_follows(c0, c1, *cs, w);
        assert(c1.has(var_xl) && !c0.has(var_xl) && c1.has(var_xr) && !c0.has(var_xr));
        assert(rv(xl_value, var_xl, w)); assert(rv(xr_value, var_xr, w)); assert(c1.sat(w)); assert(c1.prv());
    }
}
@fn out_alloc
@file gadgets/src/hashes/mimc.rs
@impl AbstractHashMimcOutput<F>
@name alloc
@wrap impl AbstractHashMimcOutput {
@header
pub fn alloc(cs: &mut CS, f: Option<F>) -> (ret: Result<Self, SynthesisError>)
    requires old(cs).prv() ==> f is Some,
    ensures ret is Ok ==> allocated(*old(cs), *final(cs), ret->Ok_0.variable, if old(cs).prv() { f } else { None }) && grows(*old(cs), *final(cs)) && ret->Ok_0.value == f
        && !old(cs).has(ret->Ok_0.variable) && final(cs).has(ret->Ok_0.variable),
@fn out_alloc_input
@file gadgets/src/hashes/mimc.rs
@impl AbstractHashMimcOutput<F>
@name alloc_input
@wrap impl AbstractHashMimcOutput {
@header
pub fn alloc_input(cs: &mut CS, f: Option<F>) -> (ret: Result<Self, SynthesisError>)
    requires old(cs).prv() ==> f is Some,
    ensures ret is Ok ==> allocated(*old(cs), *final(cs), ret->Ok_0.variable, if old(cs).prv() { f } else { None }) && grows(*old(cs), *final(cs)) && ret->Ok_0.value == f
        && ret->Ok_0.variable == Variable(Index::Input(old(cs).ni() as usize)) && final(cs).has(ret->Ok_0.variable),
@fn out_value
@file gadgets/src/hashes/mimc.rs
@impl AbstractHashMimcOutput<F>
@name get_value
@wrap impl AbstractHashMimcOutput {
@header
pub fn get_value(&self) -> (ret: Option<F>)
    ensures ret == self.value,
@fn out_vars
@file gadgets/src/hashes/mimc.rs
@impl AbstractHashOutput<F> for AbstractHashMimcOutput<F>
@name get_variables
@wrap impl AbstractHashMimcOutput {
@header
pub fn get_variables(&self) -> (ret: Vec<Variable>)
    ensures ret@ == seq![self.variable],
@fn out_values
@file gadgets/src/hashes/mimc.rs
@impl AbstractHashOutput<F> for AbstractHashMimcOutput<F>
@name get_variable_values
@wrap impl AbstractHashMimcOutput {
@header
pub fn get_variable_values(&self) -> (ret: Vec<Option<F>>)
    ensures ret@ == seq![self.value],
@fn hash_enforce
@file gadgets/src/hashes/mimc.rs
@impl AbstractHash<F> for AbstractHashMimc<F>
@name hash_enforce
@op + $0.plus($1)
@op - $0.minus($1)
@op * $0.times($1)
@refs params
@header
pub fn hash_enforce(cs: &mut CS, params: &[&AbstractHashMimcOutput]) -> (ret: Result<AbstractHashMimcOutput, SynthesisError>)
    requires old(cs).prv() ==> forall|i: int| 0 <= i < params.len() ==> (#[trigger] params[i]).value is Some,
    ensures ret is Ok ==> grows(*old(cs), *final(cs)) && (old(cs).prv() ==> ret->Ok_0.value is Some),
        ret is Ok ==> forall|w: Asg| wf(w) && #[trigger] final(cs).sat(w) ==> w(ret->Ok_0.variable) == mchain(|i: int| w(params[i].variable), mconsts(), params.len() as int),
        ret is Ok && old(cs).prv() ==> forall|w: Asg| wf(w) && #[trigger] old(cs).sat(w) && follows(*old(cs), *final(cs), w) && (forall|i: int| 0 <= i < params.len() ==> rv((#[trigger] params[i]).value, params[i].variable, w)) ==> final(cs).sat(w) && rv(ret->Ok_0.value, ret->Ok_0.variable, w),
@at fs
let ghost c0 = *cs;
proof { field_laws(); }
@at let:h
proof {
    assert forall|w: Asg| wf(w) && #[trigger] cs.sat(w) implies w(h.1) == f0() by { }
}
@inv 0
        laws(), end0 == params.len(), grows(c0, *cs), constants@ == mconsts(), constants.len() == 322, c0.prv() ==> h.0 is Some,
        c0.prv() ==> forall|i: int| 0 <= i < params.len() ==> (#[trigger] params[i]).value is Some,
        forall|w: Asg| wf(w) && #[trigger] cs.sat(w) ==> w(h.1) == mchain(|i: int| w(params[i].variable), mconsts(), k0 as int),
        c0.prv() ==> forall|w: Asg| wf(w) && #[trigger] c0.sat(w) && follows(c0, *cs, w) && (forall|i: int| 0 <= i < params.len() ==> rv((#[trigger] params[i]).value, params[i].variable, w)) ==> cs.sat(w) && rv(h.0, h.1, w),
@at ls0
let ghost m = *cs; let ghost h0 = h;
@at le0
proof {
    assert forall|w: Asg| wf(w) && #[trigger] c0.sat(w) && follows(c0, *cs, w) && c0.prv() && (forall|i: int| 0 <= i < params.len() ==> rv((#[trigger] params[i]).value, params[i].variable, w)) implies cs.sat(w) && rv(h.0, h.1, w) by {
        lemma_follows(c0, m, *cs, w);
        assert(rv(params[k0 as int].value, params[k0 as int].variable, w));
        assert(m.sat(w));
    }
    assert forall|w: Asg| wf(w) && #[trigger] cs.sat(w) implies w(h.1) == mchain(|i: int| w(params[i].variable), mconsts(), k0 as int + 1) by {
        assert(m.sat(w));
        assert(w(h0.1) == mchain(|i: int| w(params[i].variable), mconsts(), k0 as int));
    }
}

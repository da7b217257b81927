@unit hash_sha256
@prelude base field vec
@scalar F Variable bool u32
@circuit
@clones
@include lc.rs
@include cv.rs
@include cs.rs
@include bool.rs
@include ring.rs
@include word.rs
@include multieq.rs
@include addmany.rs
@include shabase.rs
@include sha.rs
@stubs gadget_bool
@stubs gadget_word
@item gadgets/src/hashes/sha256.rs Maybe
@assume the Boolean, UInt32 and MultiEq gadgets satisfy the contracts discharged in the units gadget_bool and gadget_word
@assume chunks, extend and collect have their documented meaning
@type ROUND_CONSTANTS=vk()
@type IV=viv()
@fn vk
@file gadgets/src/hashes/sha256.rs
@impl const
@name ROUND_CONSTANTS
@header
fn vk() -> (ret: Vec<u32>)
    ensures ret@ == kk(), ret@.len() == 64,
@at fe
proof { reveal(kk); assert(ret_@ =~= kk()); }
@fn viv
@file gadgets/src/hashes/sha256.rs
@impl const
@name IV
@header
fn viv() -> (ret: Vec<u32>)
    ensures ret@ == iv(), ret@.len() == 8,
@at fe
proof { reveal(iv); assert(ret_@ =~= iv()); }
@fn get_sha256_iv
@file gadgets/src/hashes/sha256.rs
@name get_sha256_iv
@call UInt32::constant w_const($1)
@header
fn get_sha256_iv() -> (ret: Vec<UInt32>)
    ensures ret@.len() == 8, forall|c: CS| #[trigger] allgood(c, ret@), us(ret@) == iv(),
@inv 0
end0 == 8 && acc0@.len() == k0,
forall|c: CS, i: int| 0 <= i < k0 ==> #[trigger] good(c, acc0@[i]),
forall|i: int| 0 <= i < k0 ==> U(#[trigger] acc0@[i]) == iv()[i],
@at fe
proof { assert(us(ret_@) =~= iv()); assert forall|c: CS| #[trigger] allgood(c, ret_@) by { } }
@fn maybe_compute
@file gadgets/src/hashes/sha256.rs
@impl Maybe
@name compute
@wrap impl Maybe {
@call UInt32::addmany m_addmany($1, $2)
@header
fn compute(self, cs: &mut MultiEq, others: &[UInt32]) -> (ret: Result<UInt32, SynthesisError>)
    requires okm(*old(cs)), old(cs).ops < usize::MAX, mgood(old(cs).cs, self), allgood(old(cs).cs, others@),
    ensures ret is Ok ==> step(*old(cs), *final(cs)) && final(cs).ops <= old(cs).ops + 1 && good(final(cs).cs, ret->Ok_0),
        ret is Ok && hp(*final(cs)) ==> U(ret->Ok_0) == match self { Maybe::Concrete(v) => U(v), Maybe::Deferred(v) => m32(isum(v@, v@.len() as int) + isum(others@, others@.len() as int)) },
@at fs
let ghost v0 = md(self);
@inv 0
end0 == others@.len() && acc0@.len() == k0,
forall|i: int| 0 <= i < k0 ==> acc0@[i] == others@[i],
@at la0
proof { assert(acc0@ =~= others@); }

@at fe
proof {
    lemma_isum_cat(v0, others@, others@.len() as int);
}
@fn compression
@file gadgets/src/hashes/sha256.rs
@name sha256_compression_function
@call UInt32::constant w_const($1)
@call UInt32::from_bits_be w_from_be($1)
@method into_bits_be w_into_be($0)
@method xor m_xor(&mut cs, &$0, $2)
@call UInt32::sha256_ch m_ch(&mut cs, $2, $3, $4)
@call UInt32::sha256_maj m_maj(&mut cs, $2, $3, $4)
@call UInt32::addmany m_addmany(&mut cs, $2)
@method rotr w_rotr(&$0, $1)
@method shr w_shr(&$0, $1)
@method compute $0.compute(&mut cs, $2)
@header
fn sha256_compression_function(cs: CS, input: &[Boolean], current_hash_value: &[UInt32], out: &mut CS) -> (ret: Result<Vec<UInt32>, SynthesisError>)
    requires okcs(cs), input@.len() == 512, forall|i: int| 0 <= i < 512 ==> gbit(cs, #[trigger] input@[i]), current_hash_value@.len() == 8, allgood(cs, current_hash_value@),
    ensures ret is Ok ==> okcs(*final(out)) && later(cs, *final(out)) && ret->Ok_0@.len() == 8 && allgood(*final(out), ret->Ok_0@),
        ret is Ok && hs(*final(out)) ==> us(ret->Ok_0@) == compress(us(current_hash_value@), words(bv(input@))),
@at fs
let ghost o = cs;
let ghost m = words(bv(input@));
let ghost hv = us(current_hash_value@);
@inv 0
end0 == 16 && acc0@.len() == k0 && input@.len() == 512,
m == words(bv(input@)),
forall|i: int| 0 <= i < 512 ==> gbit(o, #[trigger] input@[i]),
allgood(o, acc0@),
forall|i: int| 0 <= i < k0 ==> U(#[trigger] acc0@[i]) == m[i],
@at lm0
proof {
    assert(bv(e@) =~= bv(input@).subrange(32 * k0, 32 * k0 + 32));
    assert forall|i: int| 0 <= i < 32 implies gbit(o, #[trigger] e@[i]) by { assert(e@[i] == input@[32 * k0 + i]); }
}
@at le0
proof { assert(good(o, el0)); }
@at let:cs
proof { lemma_meq_new(o, cs); reveal(okm); }
@inv 1
end1 == 64 && lo1 == 16 && w@.len() == k1,
m == words(bv(input@)),
okm(cs), cs.ops <= k1 - 16, later(o, cs.cs),
allgood(cs.cs, w@),
hp(cs) ==> forall|t: int| 0 <= t < k1 ==> U(#[trigger] w@[t]) == sched(m, t),
@at ls1
let ghost n1 = cs;
proof { reveal_with_fuel(isum, 9); assert(good(n1.cs, w@[k1 - 15])); assert(good(n1.cs, w@[k1 - 2])); assert(good(n1.cs, w@[k1 - 16])); assert(good(n1.cs, w@[k1 - 7])); }
@at let:tmp
let ghost wo = w@;
@at le1
proof {
    lemma_later(n1.cs, cs.cs);
    assert forall|i: int| 0 <= i < k1 + 1 implies good(cs.cs, #[trigger] w@[i]) by { if i < k1 { assert(w@[i] == wo[i]); assert(good(n1.cs, wo[i])); } }
    if hp(cs) {
        assert(hp(n1));
        assert(U(wo[k1 - 15]) == sched(m, k1 - 15));
        assert(U(wo[k1 - 2]) == sched(m, k1 - 2));
        assert(U(wo[k1 - 16]) == sched(m, k1 - 16));
        assert(U(wo[k1 - 7]) == sched(m, k1 - 7));
        assert(U(tmp) == sched(m, k1 as int));
        assert forall|t: int| 0 <= t < k1 + 1 implies U(#[trigger] w@[t]) == sched(m, t) by { if t < k1 { assert(w@[t] == wo[t]); } }
    }
}
@inv 2
end2 == 64 && w@.len() == 64,
okm(cs), cs.ops <= 48 + 2 * k2, later(o, cs.cs),
allgood(cs.cs, w@),
mgood(cs.cs, a), mgood(cs.cs, e), good(cs.cs, b), good(cs.cs, c), good(cs.cs, d), good(cs.cs, f), good(cs.cs, g), good(cs.cs, h),
k2 > 0 ==> a is Deferred && e is Deferred,
hp(cs) ==> forall|t: int| 0 <= t < 64 ==> U(#[trigger] w@[t]) == sched(m, t),
hp(cs) ==> seq![MU(a), U(b), U(c), U(d), MU(e), U(f), U(g), U(h)] == rounds(hv, m, k2 as int),
@at lb2
proof {
    let s = seq![MU(a), U(b), U(c), U(d), MU(e), U(f), U(g), U(h)];
    assert(s =~= hv);
}
@at ls2
let ghost n2 = cs;
let ghost s2 = seq![MU(a), U(b), U(c), U(d), MU(e), U(f), U(g), U(h)];
proof { reveal_with_fuel(isum, 9); assert(good(n2.cs, w@[k2 as int])); }
@inv 3
end3 == 6 && first3 == 5 && temp1@.len() == 5 && acc3@.len() == k3,
forall|i: int| 0 <= i < k3 ==> #[trigger] acc3@[i] == if i < 5 { temp1@[i] } else { d },
@inv 4
end4 == 7 && first4 == 5 && temp1@.len() == 5 && temp2@.len() == 2 && acc4@.len() == k4,
forall|i: int| 0 <= i < k4 ==> #[trigger] acc4@[i] == if i < 5 { temp1@[i] } else { temp2@[i - 5] },
@at le2
proof {
    reveal_with_fuel(isum, 9);
    lemma_later(n2.cs, cs.cs);
    assert forall|i: int| 0 <= i < 64 implies good(cs.cs, #[trigger] w@[i]) by { assert(good(n2.cs, w@[i])); }
    if hp(cs) {
        assert(hp(n2));
        assert(U(w@[k2 as int]) == sched(m, k2 as int));
        let s = seq![MU(a), U(b), U(c), U(d), MU(e), U(f), U(g), U(h)];
        assert(s =~= round(s2, kk()[k2 as int], sched(m, k2 as int)));
    }
}
@at la2
let ghost n3 = cs;
let ghost s3 = seq![MU(a), U(b), U(c), U(d), MU(e), U(f), U(g), U(h)];
proof {
    reveal_with_fuel(isum, 9);
    lemma_isum_nat(md(a), md(a).len() as int); lemma_m32(isum(md(a), md(a).len() as int), U(current_hash_value@[0]) as int);
    lemma_isum_nat(md(e), md(e).len() as int); lemma_m32(isum(md(e), md(e).len() as int), U(current_hash_value@[4]) as int);
}
@at fe
let ghost n4 = cs;
proof { reveal(okm); }
cs.meq_drop();
*out = cs.cs;
proof {
    let r = ret_->Ok_0@;
    assert(step(n3, n4));
    assert(hp(n4) ==> us(r) =~= compress(hv, m));
    lemma_meq_drop(n4, *out);
    lemma_later(n4.cs, *out);
}
@fn sha256
@file gadgets/src/hashes/sha256.rs
@name sha256
@method to_vec vto_vec($0)
@call Boolean::constant Boolean::Constant($1)
@call sha256_compression_function vcompress(cs, $2, $3)
@method into_bits_be w_into_be($0)
@header
pub fn sha256(cs: &mut CS, input: &[Boolean]) -> (ret: Result<Vec<Boolean>, SynthesisError>)
    requires okcs(*old(cs)), input@.len() < 0x1000_0000_0000_0000, forall|i: int| 0 <= i < input@.len() ==> gbit(*old(cs), #[trigger] input@[i]),
    ensures ret is Ok ==> okcs(*final(cs)) && later(*old(cs), *final(cs)) && ret->Ok_0@.len() == 256 && forall|i: int| 0 <= i < 256 ==> gbit(*final(cs), #[trigger] ret->Ok_0@[i]),
        ret is Ok && hs(*final(cs)) ==> bv(ret->Ok_0@) == sha(bv(input@)),
@at fs
let ghost o = *cs;
let ghost l = input@.len() as int;
let ghost t = padlen(l);
proof { field_laws(); lemma_padlen(l); }
@at winv0
invariant
    l == input@.len() && t == padlen(l) && t % 512 == 0 && l + 65 <= t < 0x2000_0000_0000_0000,
    l < padded@.len() <= t - 64,
    forall|i: int| 0 <= i < l ==> #[trigger] padded@[i] == input@[i],
    padded@[l] == Boolean::Constant(true),
    forall|i: int| l < i < padded@.len() ==> #[trigger] padded@[i] == Boolean::Constant(false),
decreases t - 64 - padded@.len(),
@at la0
proof { lemma_padmin(l, padded@.len() as int); }
@inv 1
end1 == 64 && plen == l && l == input@.len() && t == padlen(l) && l + 65 <= t < 0x2000_0000_0000_0000,
padded@.len() == t - 64 + k1,
forall|i: int| 0 <= i < l ==> #[trigger] padded@[i] == input@[i],
padded@[l] == Boolean::Constant(true),
forall|i: int| l < i < t - 64 ==> #[trigger] padded@[i] == Boolean::Constant(false),
forall|i: int| t - 64 <= i < t - 64 + k1 ==> #[trigger] padded@[i] == Boolean::Constant((plen >> ((t - 1 - i) as u64)) & 1u64 == 1u64),
@at la1
let ghost p = padbits(bv(input@));
proof {
    assert(bv(padded@) =~= p);
    assert forall|i: int| 0 <= i < t implies gbit(o, #[trigger] padded@[i]) by {
        if i < l { assert(gbit(o, input@[i])); }
    }
}
@inv 2
end2 == t / 512 && padded@.len() == t && t % 512 == 0,
okcs(*cs) && later(o, *cs),
cur@.len() == 8 && allgood(*cs, cur@),
forall|i: int| 0 <= i < t ==> gbit(o, #[trigger] padded@[i]),
bv(padded@) == p,
hs(*cs) ==> us(cur@) == chain(p, k2 as int),
@at lb2
proof { assert(allgood(*cs, cur@)); }
@at lm2
let ghost c2 = *cs;
let ghost h2 = us(cur@);
proof {
    assert(bv(block@) =~= p.subrange(512 * k2, 512 * k2 + 512));
    assert forall|i: int| 0 <= i < 512 implies gbit(*cs, #[trigger] block@[i]) by { assert(block@[i] == padded@[512 * k2 + i]); assert(gbit(o, padded@[512 * k2 + i])); }
}
@at le2
proof {
    if hs(*cs) { assert(h2 == chain(p, k2 as int)); }
}
@inv 3
end3 == 8 && cur@.len() == 8 && allgood(*cs, cur@),
acc3@.len() == 32 * k3,
forall|i: int| 0 <= i < 32 * k3 ==> gbit(*cs, #[trigger] acc3@[i]),
forall|i: int| 0 <= i < 32 * k3 ==> tv(#[trigger] acc3@[i], gw()) == vbit(U(cur@[i / 32]), 31 - i % 32),
@at lm3
proof { assert(good(*cs, e)); }
let ghost a3 = acc3@;
@at le3
proof {
    let el3s = acc3@.subrange(32 * k3, 32 * k3 + 32);
    assert(bv(el3s) =~= bitsof(seq![U(e)]));
    assert forall|i: int| 0 <= i < 32 * (k3 + 1) implies gbit(*cs, #[trigger] acc3@[i]) && tv(acc3@[i], gw()) == vbit(U(cur@[i / 32]), 31 - i % 32) by {
        if i < 32 * k3 { assert(acc3@[i] == a3[i]); } else {
            let j = i - 32 * k3;
            assert(i / 32 == k3 && i % 32 == j);
            assert(acc3@[i] == el3s[j]);
            assert(bv(el3s)[j] == bitsof(seq![U(e)])[j]);
        }
    }
}
@at fe
proof { assert(bv(ret_->Ok_0@) =~= bitsof(us(cur@))); }
@fn sha256_block
@file gadgets/src/hashes/sha256.rs
@name sha256_block_no_padding
@call sha256_compression_function vcompress(cs, $2, $3)
@method into_bits_be w_into_be($0)
@header
pub fn sha256_block_no_padding(cs: &mut CS, input: &[Boolean]) -> (ret: Result<Vec<Boolean>, SynthesisError>)
    requires okcs(*old(cs)), input@.len() == 512, forall|i: int| 0 <= i < 512 ==> gbit(*old(cs), #[trigger] input@[i]),
    ensures ret is Ok ==> okcs(*final(cs)) && later(*old(cs), *final(cs)) && ret->Ok_0@.len() == 256 && forall|i: int| 0 <= i < 256 ==> gbit(*final(cs), #[trigger] ret->Ok_0@[i]),
        ret is Ok && hs(*final(cs)) ==> bv(ret->Ok_0@) == bitsof(compress(iv(), words(bv(input@)))),
@inv 0
end0 == 8 && base0@.len() == 8 && allgood(*cs, base0@),
acc0@.len() == 32 * k0,
forall|i: int| 0 <= i < 32 * k0 ==> gbit(*cs, #[trigger] acc0@[i]),
forall|i: int| 0 <= i < 32 * k0 ==> tv(#[trigger] acc0@[i], gw()) == vbit(U(base0@[i / 32]), 31 - i % 32),
@at lb0
let ghost ub = us(base0@);
@at lm0
proof { assert(good(*cs, e)); }
let ghost a0 = acc0@;
@at le0
proof {
    let els = acc0@.subrange(32 * k0, 32 * k0 + 32);
    assert(bv(els) =~= bitsof(seq![U(e)]));
    assert forall|i: int| 0 <= i < 32 * (k0 + 1) implies gbit(*cs, #[trigger] acc0@[i]) && tv(acc0@[i], gw()) == vbit(U(base0@[i / 32]), 31 - i % 32) by {
        if i < 32 * k0 { assert(acc0@[i] == a0[i]); } else {
            let j = i - 32 * k0;
            assert(i / 32 == k0 && i % 32 == j);
            assert(acc0@[i] == els[j]);
            assert(bv(els)[j] == bitsof(seq![U(e)])[j]);
        }
    }
}
@at la0
proof { assert(bv(acc0@) =~= bitsof(ub)); }
@fn out_get_value
@file gadgets/src/hashes/sha256.rs
@impl AbstractHashSha256Output
@name get_value
@wrap impl AbstractHashSha256Output {
@method clone vclone_ob(&$0)
@header
pub fn get_value(&self) -> (ret: Option<Vec<Boolean>>)
    ensures ret == self.value,
@fn out_get_variables
@file gadgets/src/hashes/sha256.rs
@impl AbstractHashOutput<F> for AbstractHashSha256Output
@name get_variables
@wrap impl AbstractHashSha256Output {
@method clone vclone_v(&$0)
@header
pub fn get_variables(&self) -> (ret: Vec<Variable>)
    ensures ret == self.variables,
@fn out_values
@file gadgets/src/hashes/sha256.rs
@impl AbstractHashOutput<F> for AbstractHashSha256Output
@name get_variable_values
@wrap impl AbstractHashSha256Output {
@method clone vclone_ob(&$0)
@header
pub fn get_variable_values(&self) -> (ret: Vec<Option<F>>)
    requires self.value is Some, forall|i: int| 0 <= i < self.value->Some_0@.len() ==> (#[trigger] self.value->Some_0@[i]).known() is Some,
    ensures ret@.len() == self.value->Some_0@.len(), forall|i: int| 0 <= i < ret@.len() ==> #[trigger] ret@[i] == Some(b2f(self.value->Some_0@[i].known()->Some_0)),
@inv 0
end0 == value_vec@.len() && ret_vec@.len() == end0 && self.value == Some(value_vec),
forall|i: int| 0 <= i < self.value->Some_0@.len() ==> (#[trigger] self.value->Some_0@[i]).known() is Some,
forall|i: int| 0 <= i < k0 ==> #[trigger] ret_vec@[i] == Some(b2f(value_vec@[i].known()->Some_0)),
@fn out_alloc
@file gadgets/src/hashes/sha256.rs
@impl AbstractHashSha256Output
@name alloc
@wrap impl AbstractHashSha256Output {
@method into $0.conv()
@at ty:values
: Vec<Boolean>
@at ty:acc1
: Vec<bool>
@at ty:acc0
: Vec<bool>
@header
pub fn alloc(cs: &mut CS, bytes: Vec<u8>) -> (ret: Result<AbstractHashSha256Output, SynthesisError>)
    requires bytes@.len() < 0x1000_0000,
    ensures ret is Ok ==> grows(*old(cs), *final(cs)) && outof(*old(cs), *final(cs), ret->Ok_0, bytes@),
@at fs
let ghost c0 = *cs;
@inv 0
end0 == bytes@.len() && bytes@.len() < 0x1000_0000 && acc0@.len() == 8 * k0,
forall|j: int| 0 <= j < 8 * k0 ==> #[trigger] acc0@[j] == ebit(bytes@, j),
@inv 1
end1 == 8 && k0 < bytes@.len() && byte == bytes@[k0 as int] && acc1@.len() == k1,
forall|j: int| 0 <= j < k1 ==> #[trigger] acc1@[j] == ebit(bytes@, 8 * k0 + j),
@inv 2
end2 == 8 * bytes@.len() && s@.len() == end2 && values@.len() == k2 && variables@.len() == k2 && grows(c0, *cs),
forall|j: int| 0 <= j < s@.len() ==> #[trigger] s@[j] == ebit(bytes@, j),
forall|j: int| 0 <= j < k2 ==> values@[j] is Is && (#[trigger] values@[j]).known() == Some(ebit(bytes@, j)) && values@[j]->Is_0.variable == variables@[j],
forall|w: Asg| wf(w) && #[trigger] cs.sat(w) ==> forall|j: int| 0 <= j < k2 ==> isbit(#[trigger] values@[j], w),
forall|w: Asg| wf(w) && #[trigger] c0.sat(w) && follows(c0, *cs, w) && c0.prv() ==> cs.sat(w) && forall|j: int| 0 <= j < k2 ==> right(#[trigger] values@[j], w),
@at ls2
let ghost m = *cs;
let ghost vo = values@;
@at le2
proof {
    assert forall|w: Asg| wf(w) && #[trigger] cs.sat(w) implies forall|j: int| 0 <= j < k2 + 1 ==> isbit(#[trigger] values@[j], w) by { assert(m.sat(w)); assert forall|j: int| 0 <= j < k2 implies values@[j] == vo[j] by { } }
    assert forall|w: Asg| wf(w) && #[trigger] c0.sat(w) && follows(c0, *cs, w) && c0.prv() implies cs.sat(w) && forall|j: int| 0 <= j < k2 + 1 ==> right(#[trigger] values@[j], w) by {
        lemma_follows(c0, m, *cs, w);
        assert(m.sat(w));
        assert forall|j: int| 0 <= j < k2 implies values@[j] == vo[j] by { }
    }
}
@fn out_alloc_input
@from hash_sha256.out_alloc
@name alloc_input
@header
pub fn alloc_input(cs: &mut CS, bytes: Vec<u8>) -> (ret: Result<AbstractHashSha256Output, SynthesisError>)
    requires bytes@.len() < 0x1000_0000,
    ensures ret is Ok ==> grows(*old(cs), *final(cs)) && outof(*old(cs), *final(cs), ret->Ok_0, bytes@),
@fn hash_enforce
@file gadgets/src/hashes/sha256.rs
@impl AbstractHash<F> for AbstractHashSha256<F>
@name hash_enforce
@call Boolean::from from_bit($1)
@call Boolean::enforce_equal Boolean::enforce_equal($1, $2, &$3)
@header
fn hash_enforce(cs: &mut CS, params: &[&AbstractHashSha256Output]) -> (ret: Result<AbstractHashSha256Output, SynthesisError>)
    requires okcs(*old(cs)), plen(params@, params@.len() as int) < 0x1000_0000_0000_0000,
        forall|i: int, j: int| 0 <= i < params@.len() && params@[i].value is Some && 0 <= j < params@[i].value->Some_0@.len() ==> gbit(*old(cs), #[trigger] params@[i].value->Some_0@[j]),
    ensures ret is Ok ==> okcs(*final(cs)) && later(*old(cs), *final(cs)) && ret->Ok_0.value is Some && ret->Ok_0.value->Some_0@.len() == 256 && ret->Ok_0.variables@.len() == 256,
        ret is Ok && hs(*final(cs)) ==> bv(ret->Ok_0.value->Some_0@) == sha(bv(pcat(params@, params@.len() as int))),
        ret is Ok && hs(*final(cs)) ==> forall|i: int| 0 <= i < 256 ==> gw()(#[trigger] ret->Ok_0.variables@[i]) == b2f(bv(ret->Ok_0.value->Some_0@)[i]),
@at fs
let ghost oo = *cs;
@at ty:inputs
: Vec<Boolean>
@inv 0
end0 == params@.len() && *cs == oo && plen(params@, params@.len() as int) < 0x1000_0000_0000_0000,
forall|i: int, j: int| 0 <= i < params@.len() && params@[i].value is Some && 0 <= j < params@[i].value->Some_0@.len() ==> gbit(oo, #[trigger] params@[i].value->Some_0@[j]),
inputs@ == pcat(params@, k0 as int) && inputs@.len() == plen(params@, k0 as int),
forall|i: int| 0 <= i < inputs@.len() ==> gbit(oo, #[trigger] inputs@[i]),
@at ls0
let ghost in0 = inputs@;
@inv 1
end1 == l@.len() && acc1@.len() == k1,
forall|i: int| 0 <= i < k1 ==> #[trigger] acc1@[i] == l@[i],
@at la1
proof { assert(acc1@ =~= l@); assert(params@[k0 as int].value == Some(l)); }
@at le0
proof {
    let l = params@[k0 as int].value->Some_0@;
    assert(inputs@ =~= in0 + l);
    assert forall|i: int| 0 <= i < inputs@.len() implies gbit(oo, #[trigger] inputs@[i]) by { if i >= in0.len() { assert(inputs@[i] == params@[k0 as int].value->Some_0@[i - in0.len()]); } }
}
@at let:booleans
let ghost c1 = *cs;
proof { field_laws(); }
@inv 2
end2 == 256 && booleans@.len() == 256 && var@.len() == k2,
okcs(*cs) && later(c1, *cs),
forall|i: int| 0 <= i < 256 ==> gbit(c1, #[trigger] booleans@[i]),
hs(*cs) ==> forall|i: int| 0 <= i < k2 ==> gw()(#[trigger] var@[i]) == b2f(bv(booleans@)[i]),
@at ls2
let ghost c2 = *cs;
let ghost var0 = var@;
@at let:a
let ghost c3 = *cs;
@at le2
proof {
    field_laws();
    assert(gbit(c1, booleans@[k2 as int]));
    reveal(okcs); reveal(hs); reveal(hc);
    assert(grows(c2, c3));
    if hc(*cs) {
        lemma_follows(gc(), c3, *cs, gw()); lemma_follows(gc(), c2, c3, gw());
        assert(hc(c2)); assert(c2.sat(gw())); assert(c3.sat(gw()));
        assert(hc(c1));
    }
    if hs(*cs) {
        assert(c3.sat(gw()) && c2.sat(gw()));
        assert(hs(c2)); assert(hs(c1));
        assert forall|i: int| 0 <= i < k2 + 1 implies gw()(#[trigger] var@[i]) == b2f(bv(booleans@)[i]) by { if i < k2 { assert(var@[i] == var0[i]); } }
    }
}

@unit hash_blake2s
@prelude base field vec
@scalar F Variable bool u32
@circuit
@clones
@include lc.rs
@include cv.rs
@include cs.rs
@include bool.rs
@include ring.rs
@include word.rs
@include multieq.rs
@include addmany.rs
@include shabase.rs
@include blake.rs
@stubs gadget_bool
@stubs gadget_word
@assume the Boolean, UInt32 and MultiEq gadgets satisfy the contracts discharged in the units gadget_bool and gadget_word
@assume chunks, extend_from_slice and collect have their documented meaning; LittleEndian::read_u32 reads four bytes, least significant first
@type R1=vr1()
@type R2=vr2()
@type R3=vr3()
@type R4=vr4()
@type SIGMA=vsigma()
@call UInt32::constant w_const($1)
@fn vr1
@file gadgets/src/hashes/blake2s.rs
@impl const
@name R1
@header
fn vr1() -> (ret: usize)
    ensures ret == 16,
@fn vr2
@from hash_blake2s.vr1
@name R2
@header
fn vr2() -> (ret: usize)
    ensures ret == 12,
@fn vr3
@from hash_blake2s.vr1
@name R3
@header
fn vr3() -> (ret: usize)
    ensures ret == 8,
@fn vr4
@from hash_blake2s.vr1
@name R4
@header
fn vr4() -> (ret: usize)
    ensures ret == 7,
@fn vsigma
@file gadgets/src/hashes/blake2s.rs
@impl const
@name SIGMA
@header
fn vsigma() -> (ret: Vec<[usize; 16]>)
    ensures ret@.len() == 10, forall|r: int| 0 <= r < 10 ==> #[trigger] ret@[r]@ == sigma(r), forall|r: int, j: int| 0 <= r < 10 && 0 <= j < 16 ==> #[trigger] sigma(r)[j] < 16,
@at fe
proof {
    reveal(sigma);
    assert(ret_@[0]@ =~= sigma(0)); assert(ret_@[1]@ =~= sigma(1)); assert(ret_@[2]@ =~= sigma(2)); assert(ret_@[3]@ =~= sigma(3)); assert(ret_@[4]@ =~= sigma(4));
    assert(ret_@[5]@ =~= sigma(5)); assert(ret_@[6]@ =~= sigma(6)); assert(ret_@[7]@ =~= sigma(7)); assert(ret_@[8]@ =~= sigma(8)); assert(ret_@[9]@ =~= sigma(9));
}
@fn mixing_g
@file gadgets/src/hashes/blake2s.rs
@name mixing_g
@method xor m_xor(cs, &$0, $2)
@call UInt32::addmany m_addmany(cs, $2)
@method rotr w_rotr(&$0, $1)
@header
fn mixing_g(cs: &mut MultiEq, v: &mut Vec<UInt32>, a: usize, b: usize, c: usize, d: usize, x: &UInt32, y: &UInt32) -> (ret: Result<(), SynthesisError>)
    requires okm(*old(cs)), old(cs).ops < 1000, old(v)@.len() == 16, a < 16, b < 16, c < 16, d < 16, a != b && a != c && a != d && b != c && b != d && c != d,
        allgood(old(cs).cs, old(v)@), good(old(cs).cs, *x), good(old(cs).cs, *y),
    ensures ret is Ok ==> step(*old(cs), *final(cs)) && final(cs).ops <= old(cs).ops + 4 && final(v)@.len() == 16 && allgood(final(cs).cs, final(v)@),
        ret is Ok && hp(*final(cs)) ==> us(final(v)@) == gmix(us(old(v)@), a as int, b as int, c as int, d as int, U(*x), U(*y)),
@at fs
let ghost v0 = us(v@);
proof { reveal_with_fuel(isum, 4); reveal(gmix); }
@at fe
proof {
    if hp(*cs) { assert(us(v@) =~= gmix(v0, a as int, b as int, c as int, d as int, U(*x), U(*y))); }
}
@fn compression
@file gadgets/src/hashes/blake2s.rs
@name blake2s_compression
@method xor c_xor(cs, &$0, $2)
@method extend_from_slice vext_words(&mut $0, $1)
@call mixing_g mixing_g(&mut $1, $2, $3, $4, $5, $6, $7, $8)
@call MultiEq::new MultiEq::new(vtake(cs))
@header
fn blake2s_compression(cs: &mut CS, h: &mut Vec<UInt32>, m: &[UInt32], t: u64, f: bool) -> (ret: Result<(), SynthesisError>)
    requires okcs(*old(cs)), old(h)@.len() == 8, m@.len() == 16, allgood(*old(cs), old(h)@), allgood(*old(cs), m@),
    ensures ret is Ok ==> okcs(*final(cs)) && later(*old(cs), *final(cs)) && final(h)@.len() == 8 && allgood(*final(cs), final(h)@),
        ret is Ok && hs(*final(cs)) ==> us(final(h)@) == bcomp(us(old(h)@), us(m@), t, f),
@call u32::max_value u32::MAX
@at fs
let ghost o = *cs;
let ghost hv = us(h@);
let ghost mv = us(m@);
let ghost vs = bstart(hv, t, f);
@at let:cs
proof {
    let c = cs_in.cs;
    assert(okcs(c));
    reveal(okcs); reveal(okm); reveal(iv);
    lemma_meq_new(c, cs_in);
    if hs(c) { assert(us(v@) =~= vs); }
    assert(hp(cs_in) ==> hs(c)) by { reveal(hp); reveal(hs); }
}
@inv 0
end0 == 10 && v@.len() == 16 && m@.len() == 16,
okm(cs_in) && cs_in.ops <= 32 * k0 && later(o, cs_in.cs) && (hp(cs_in) ==> hs(cs_in.cs)),
allgood(o, m@) && allgood(cs_in.cs, v@),
mv == us(m@),
hp(cs_in) ==> us(v@) == brounds(vs, mv, k0 as int),
@at ls0
let ghost n0 = cs_in;
let ghost w0 = us(v@);
@at let:s
proof {
    assert forall|j: int| 0 <= j < 16 implies good(n0.cs, #[trigger] m@[j]) by { assert(good(o, m@[j])); }
}
@at le0
proof {
    if hp(cs_in) {
        assert(hp(n0));
        assert(us(v@) == bround(w0, mv, sigma(k0 as int)));
    }
    assert(hp(cs_in) ==> hs(cs_in.cs)) by { reveal(hp); reveal(hs); }
}
@at la0
let ghost n1 = cs_in;
proof { reveal(okm); }
cs_in.meq_drop();
*cs = cs_in.cs;
proof { lemma_meq_drop(n1, *cs); lemma_later(n1.cs, *cs); }
@at lb1
let ghost vv = us(v@);
proof {
    lemma_later(o, *cs);
    if hs(*cs) { assert(vv == brounds(vs, mv, 10)); }
    assert forall|i: int| 0 <= i < 8 implies good(*cs, #[trigger] h@[i]) by { assert(good(o, h@[i])); }
    assert forall|i: int| 0 <= i < 8 implies U(#[trigger] h@[i]) == hv[i] by { }
}
@inv 1
end1 == 8 && h@.len() == 8 && v@.len() == 16,
okcs(*cs) && later(o, *cs) && allgood(*cs, h@) && allgood(*cs, v@),
vv == us(v@),
hs(*cs) ==> vv == brounds(vs, mv, 10),
hs(*cs) ==> forall|i: int| 0 <= i < 8 ==> U(#[trigger] h@[i]) == if i < k1 { (hv[i] ^ vv[i]) ^ vv[i + 8] } else { hv[i] },
@at ls1
let ghost h1 = h@;
let ghost c1 = *cs;
@at le1
proof {
    assert forall|i: int| 0 <= i < 16 implies good(*cs, #[trigger] v@[i]) by { assert(good(c1, v@[i])); }
    assert forall|i: int| 0 <= i < 8 implies good(*cs, #[trigger] h@[i]) by { assert(good(c1, h1[i])); }
    if hs(*cs) {
        assert(hs(c1));
        assert(U(v@[k1 as int]) == vv[k1 as int] && U(v@[k1 + 8]) == vv[k1 + 8]);
        assert forall|i: int| 0 <= i < 8 implies U(#[trigger] h@[i]) == if i < k1 + 1 { (hv[i] ^ vv[i]) ^ vv[i + 8] } else { hv[i] } by { assert(U(h1[i]) == if i < k1 { (hv[i] ^ vv[i]) ^ vv[i + 8] } else { hv[i] }); }
    }
}
@at fe
proof { if hs(*cs) { assert(us(h@) =~= bcomp(hv, mv, t, f)); } }
@fn blake2s
@file gadgets/src/hashes/blake2s.rs
@name blake2s
@method to_vec vto_vec($0)
@method is_empty ($0.len() == 0)
@call Boolean::constant Boolean::Constant($1)
@call UInt32::from_bits w_from_le($1)
@call LittleEndian::read_u32 vread_u32($1)
@method into_bits w_into_le($0)
@refs block
@header
pub fn blake2s(cs: &mut CS, input: &[Boolean], personalization: &[u8]) -> (ret: Result<Vec<Boolean>, SynthesisError>)
    requires okcs(*old(cs)), input@.len() < 0x1000_0000_0000_0000, forall|i: int| 0 <= i < input@.len() ==> gbit(*old(cs), #[trigger] input@[i]),
    ensures ret is Ok ==> okcs(*final(cs)) && later(*old(cs), *final(cs)) && ret->Ok_0@.len() == 256 && forall|i: int| 0 <= i < 256 ==> gbit(*final(cs), #[trigger] ret->Ok_0@[i]),
        ret is Ok && hs(*final(cs)) ==> bv(ret->Ok_0@) == blake(bv(input@), personalization@),
@at fs
let ghost o = *cs;
let ghost l = input@.len() as int;
let ghost p = personalization@;
let ghost mb = bv(input@);
proof { field_laws(); }
@at let:blocks
proof {
    reveal(iv);
    assert(us(h@) =~= bh0(p));
    assert(allgood(o, h@));
}
@inv 0
l == input@.len() && l < 0x1000_0000_0000_0000 && mb == bv(input@) && end0 == cdiv(l, 512),
blocks@.len() == k0,
forall|i: int| 0 <= i < l ==> gbit(o, #[trigger] input@[i]),
forall|b: int| 0 <= b < k0 ==> isblk(o, #[trigger] blocks@[b]@, mb, b),
@at lm0
proof { lemma_cdiv(l, 512, k0 as int); }
@inv 1
l == input@.len() && l < 0x1000_0000_0000_0000 && mb == bv(input@) && 0 <= k0 && 512 * k0 < l,
block@ == input@.subrange(512 * k0, if 512 * (k0 + 1) <= l { 512 * (k0 + 1) } else { l }),
end1 == cdiv(block@.len() as int, 32) && end1 <= 16,
forall|i: int| 0 <= i < l ==> gbit(o, #[trigger] input@[i]),
this_block@.len() == k1,
forall|t: int| 0 <= t < k1 ==> good(o, #[trigger] this_block@[t]) && U(this_block@[t]) == mword(mb, 16 * k0 + t),
@at let:tmp
proof { lemma_cdiv(block@.len() as int, 32, k1 as int); }
let ghost base = 512 * k0 + 32 * k1;
proof {
    assert forall|i: int| 0 <= i < tmp@.len() implies tmp@[i] == input@[base + i] by { assert(tmp@[i] == block@[32 * k1 + i]); }
}
@at winv2
invariant
    l == input@.len() && mb == bv(input@) && tmp@.len() <= 32 && 0 <= base,
    forall|i: int| 0 <= i < l ==> gbit(o, #[trigger] input@[i]),
    base + tmp@.len() <= l || forall|i: int| 0 <= i < tmp@.len() && base + i >= l ==> #[trigger] tmp@[i] == Boolean::Constant(false),
    base + tmp@.len() >= l || tmp@.len() == 32,
    forall|i: int| 0 <= i < tmp@.len() && base + i < l ==> #[trigger] tmp@[i] == input@[base + i],
decreases 32 - tmp@.len(),
@at la2
proof {
    assert forall|i: int| 0 <= i < 32 implies gbit(o, #[trigger] tmp@[i]) && tv(tmp@[i], gw()) == mbit(mb, 32 * (16 * k0 + k1) + i) by {
        if base + i < l { assert(gbit(o, input@[base + i])); assert(mb[base + i] == tv(input@[base + i], gw())); }
    }
}
let ghost tb = this_block@;
@at le1
proof {
    let w = this_block@[k1 as int];
    assert(good(o, w));
    assert(ismw(mb, 16 * k0 + k1, U(w)));
    lemma_mword(mb, 16 * k0 + k1, U(w));
    assert forall|t: int| 0 <= t < k1 + 1 implies good(o, #[trigger] this_block@[t]) && U(this_block@[t]) == mword(mb, 16 * k0 + t) by { if t < k1 { assert(this_block@[t] == tb[t]); assert(good(o, tb[t])); } }
}
@at la1
proof { lemma_cdiv(block@.len() as int, 32, end1 as int); }
@at winv3
invariant
    mb == bv(input@) && l == input@.len() && end1 <= this_block@.len() <= 16,
    end1 < 16 ==> l <= 512 * k0 + 32 * end1,
    forall|t: int| 0 <= t < this_block@.len() ==> good(o, #[trigger] this_block@[t]) && U(this_block@[t]) == mword(mb, 16 * k0 + t),
decreases 16 - this_block@.len(),
@at ls3
let ghost tc = this_block@;
proof { lemma_zword(mb, 16 * k0 + this_block@.len()); }
@at le3
proof {
    assert forall|t: int| 0 <= t < this_block@.len() implies good(o, #[trigger] this_block@[t]) && U(this_block@[t]) == mword(mb, 16 * k0 + t) by { if t < tc.len() { assert(this_block@[t] == tc[t]); assert(good(o, tc[t])); } }
}
@at la3
proof { assert(us(this_block@) =~= mblock(mb, k0 as int)); assert(isblk(o, this_block@, mb, k0 as int)); }
let ghost bs = blocks@;
@at le0
proof { assert forall|b: int| 0 <= b < k0 + 1 implies isblk(o, #[trigger] blocks@[b]@, mb, b) by { if b < k0 { assert(blocks@[b] == bs[b]); assert(isblk(o, bs[b]@, mb, b)); } } }
@inv 4
end4 == 16 && acc4@.len() == k4,
forall|t: int| 0 <= t < k4 ==> good(o, #[trigger] acc4@[t]) && U(acc4@[t]) == 0,
@at la4
proof {
    assert forall|t: int| 0 <= t < 16 implies U(#[trigger] acc4@[t]) == mword(mb, t) by { lemma_zword(mb, t); }
    assert(us(acc4@) =~= mblock(mb, 0));
    assert(isblk(o, acc4@, mb, 0));
}
@inv 5
l == input@.len() && l < 0x1000_0000_0000_0000 && p == personalization@ && mb == bv(input@),
blocks@.len() == nblocks(l) && end5 == blocks@.len() - 1 && end5 < 0x80_0000_0000_0000,
forall|b: int| 0 <= b < blocks@.len() ==> isblk(o, #[trigger] blocks@[b]@, mb, b),
okcs(*cs) && later(o, *cs),
h@.len() == 8 && allgood(*cs, h@),
hs(*cs) ==> us(h@) == bchain(mb, p, k5 as int),
@at lb5
proof { lemma_cdiv(l, 512, 0); }
@at lm5
let ghost c5 = *cs;
let ghost h5 = us(h@);
proof { assert(isblk(o, blocks@[k5 as int]@, mb, k5 as int)); lemma_allgood(o, *cs, block@); }
@at le5
proof { if hs(*cs) { assert(h5 == bchain(mb, p, k5 as int)); assert((64 * (k5 + 1)) as u64 == ((k5 as u64) + 1) * 64); } }
@at la5
let ghost h6 = us(h@);
proof { assert(isblk(o, blocks@[end5 as int]@, mb, end5 as int)); lemma_allgood(o, *cs, blocks@[end5 as int]@); }
@inv 6
end6 == 8 && h@.len() == 8 && allgood(*cs, h@),
acc6@.len() == 32 * k6,
forall|i: int| 0 <= i < 32 * k6 ==> gbit(*cs, #[trigger] acc6@[i]),
forall|i: int| 0 <= i < 32 * k6 ==> tv(#[trigger] acc6@[i], gw()) == vbit(U(h@[i / 32]), i % 32),
@at lm6
proof { assert(good(*cs, b)); }
let ghost a6 = acc6@;
@at le6
proof {
    let e6 = acc6@.subrange(32 * k6, 32 * k6 + 32);
    assert forall|i: int| 0 <= i < 32 * (k6 + 1) implies gbit(*cs, #[trigger] acc6@[i]) && tv(acc6@[i], gw()) == vbit(U(h@[i / 32]), i % 32) by {
        if i < 32 * k6 { assert(acc6@[i] == a6[i]); } else {
            let j = i - 32 * k6;
            assert(i / 32 == k6 && i % 32 == j);
            assert(acc6@[i] == e6[j]);
        }
    }
}
@at fe
proof { if hs(*cs) { assert(h6 == bchain(mb, p, end5 as int)); assert(bv(ret_->Ok_0@) =~= bitsle(us(h@))); } }

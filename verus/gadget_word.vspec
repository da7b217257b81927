@unit gadget_word
@prelude base field vec
@scalar F Variable bool u32
@circuit
@include lc.rs
@include cv.rs
@include cs.rs
@include bool.rs
@include ring.rs
@include word.rs
@include multieq.rs
@include addmany.rs
@stubs gadget_bool
@item r1cs/src/lib.rs Variable
@item r1cs/src/lib.rs Index
@item gadgets/src/algebra/boolean.rs AllocatedBit
@item gadgets/src/algebra/boolean.rs Boolean
@item gadgets/src/algebra/uint32.rs UInt32
@assume the Boolean gadgets satisfy the contracts discharged in the unit gadget_bool
@assume u32::rotate_right rotates
@method into $0.conv()
@method expect vunwrap($0)
@method rotate_right rotr32($0, $1)
@method to_vec vto_vec($0)
@method reverse vreverse(&mut $0)
@call u32::max_value u32::MAX
@method pow fpow1($0, ($1)[0])
@method get_root $0
@call F::from ffrom($1)
@call F::size_in_bits vsize_in_bits()
@type F::Params::CAPACITY=vcapacity()
@call LinearCombination::zero LinearCombination::lc_zero()
@call Boolean::from from_bit($1)
@call Boolean::xor Boolean::xor($1, &$2, &$3)
@op + $0.plus($1)
@op - $0.minus($1)
@op * $0.times($1)
@op neg $0.negate()
@op ^ $0.bxor($1)
@op & $0.band($1)
@op | $0.bor($1)
@fn constant
@file gadgets/src/algebra/uint32.rs
@impl UInt32
@name constant
@wrap impl UInt32 {
@header
pub fn constant(value: u32) -> (ret: Self)
    ensures winv(ret, true), ret.value == Some(value), forall|i: int| 0 <= i < 32 ==> #[trigger] ret.bits@[i] == Boolean::Constant(vbit(value, i)),
@at fs
proof { lemma_shr(value, 0); }
@inv 0
tmp == value >> (k0 as u32),
bits@.len() == k0,
end0 == 32,
forall|i: int| 0 <= i < k0 ==> #[trigger] bits@[i] == Boolean::Constant(vbit(value, i)),
@at le0
proof { lemma_shr(value, k0 as int); }
@at fe
proof { assert forall|i: int| 0 <= i < 32 implies (#[trigger] ret_.bits@[i]).known() == Some(vbit(value, i)) by { } }
@fn alloc
@file gadgets/src/algebra/uint32.rs
@impl UInt32
@name alloc
@wrap impl UInt32 {
@header
pub fn alloc(cs: &mut CS, value: Option<u32>) -> (ret: Result<Self, SynthesisError>)
    ensures ret is Ok ==> grows(*old(cs), *final(cs)) && winv(ret->Ok_0, true) && ret->Ok_0.value == value,
        ret is Ok ==> forall|w: Asg| wf(w) && #[trigger] final(cs).sat(w) ==> wbits(ret->Ok_0, w),
        ret is Ok ==> forall|w: Asg| wf(w) && #[trigger] old(cs).sat(w) && follows(*old(cs), *final(cs), w) && old(cs).prv() ==> final(cs).sat(w) && wright(ret->Ok_0, w),
        ret is Ok && old(cs).prv() ==> value is Some,
@at fs
let ghost c0 = *cs;
proof { field_laws(); }
@at lb0
proof { lemma_shr(val, 0); }
let ghost v0 = val;
@inv 0
val == v0 >> (k0 as u32),
v@.len() == k0,
end0 == 32,
forall|i: int| 0 <= i < k0 ==> #[trigger] v@[i] == Some(vbit(v0, i)),
@at le0
proof { lemma_shr(v0, k0 as int); }
@at let:values
proof { assert forall|i: int| 0 <= i < 32 implies #[trigger] values@[i] == match value { Some(x) => Some(vbit(x, i)), None => None } by { } }
@at ty:acc1
: Vec<Boolean>
@inv 1
end1 == 32 && values@.len() == 32 && acc1@.len() == k1,
grows(c0, *cs),
forall|i: int| 0 <= i < 32 ==> #[trigger] values@[i] == match value { Some(x) => Some(vbit(x, i)), None => None },
forall|i: int| 0 <= i < k1 ==> (#[trigger] acc1@[i]).known() == values@[i],
forall|w: Asg| wf(w) && #[trigger] cs.sat(w) ==> forall|i: int| 0 <= i < k1 ==> isbit(#[trigger] acc1@[i], w),
forall|w: Asg| wf(w) && #[trigger] c0.sat(w) && follows(c0, *cs, w) && c0.prv() ==> cs.sat(w) && forall|i: int| 0 <= i < k1 ==> right(#[trigger] acc1@[i], w),
c0.prv() && k1 > 0 ==> value is Some,
@at ls1
let ghost m = *cs;
let ghost acc_ = acc1@;
@at le1
proof {
    assert forall|i: int| 0 <= i < k1 implies acc1@[i] == acc_[i] by { }
    assert forall|w: Asg| wf(w) && #[trigger] cs.sat(w) implies forall|i: int| 0 <= i < k1 + 1 ==> isbit(#[trigger] acc1@[i], w) by { assert(m.sat(w)); }
    assert forall|w: Asg| wf(w) && #[trigger] c0.sat(w) && follows(c0, *cs, w) && c0.prv() implies cs.sat(w) && forall|i: int| 0 <= i < k1 + 1 ==> right(#[trigger] acc1@[i], w) by {
        lemma_follows(c0, m, *cs, w);
        assert(m.sat(w));
    }
}
@fn into_bits_be
@file gadgets/src/algebra/uint32.rs
@impl UInt32
@name into_bits_be
@wrap impl UInt32 {
@header
pub fn into_bits_be(self) -> (ret: Vec<Boolean>)
    ensures ret@.len() == self.bits@.len(), forall|i: int| 0 <= i < self.bits@.len() ==> #[trigger] ret@[i] == self.bits@[self.bits@.len() - 1 - i],

@fn from_bits_be
@file gadgets/src/algebra/uint32.rs
@impl UInt32
@name from_bits_be
@wrap impl UInt32 {
@header
pub fn from_bits_be(bits: &[Boolean]) -> (ret: Self)
    ensures bits@.len() == 32, winv(ret, true),
        forall|i: int| 0 <= i < 32 ==> #[trigger] ret.bits@[i] == bits@[31 - i],
        (forall|i: int| 0 <= i < 32 ==> (#[trigger] bits@[i]).known() is Some) ==> ret.value is Some,
@inv 0
end0 == 32 && bits@.len() == 32,
value is Some ==> forall|j: int| 0 <= j < k0 ==> (#[trigger] bits@[j]).known() == Some(vbit(value->Some_0, k0 - 1 - j)),
value is None ==> exists|j: int| 0 <= j < k0 && (#[trigger] bits@[j]).known() is None,
@at ls0
let ghost v0 = value;
proof { if v0 is Some { lemma_shl(v0->Some_0); } }
@at le0
proof { assert(bits@[k0 as int].known() is None ==> value is None); }
@inv 1
end1 == 32 && bits@.len() == 32 && acc1@.len() == k1,
forall|i: int| 0 <= i < k1 ==> #[trigger] acc1@[i] == bits@[31 - i],
value is Some ==> forall|j: int| 0 <= j < 32 ==> (#[trigger] bits@[j]).known() == Some(vbit(value->Some_0, 31 - j)),
value is None ==> exists|j: int| 0 <= j < 32 && (#[trigger] bits@[j]).known() is None,
@fn into_bits
@file gadgets/src/algebra/uint32.rs
@impl UInt32
@name into_bits
@wrap impl UInt32 {
@header
pub fn into_bits(self) -> (ret: Vec<Boolean>)
    ensures ret == self.bits,

@fn from_bits
@file gadgets/src/algebra/uint32.rs
@impl UInt32
@name from_bits
@wrap impl UInt32 {
@header
pub fn from_bits(bits: &[Boolean]) -> (ret: Self)
    ensures bits@.len() == 32, winv(ret, true),
        forall|i: int| 0 <= i < 32 ==> #[trigger] ret.bits@[i] == bits@[i],
        (forall|i: int| 0 <= i < 32 ==> (#[trigger] bits@[i]).known() is Some) ==> ret.value is Some,
@inv 0
end0 == 32 && new_bits@.len() == 32,
value is Some ==> forall|j: int| 0 <= j < k0 ==> (#[trigger] new_bits@[31 - j]).known() == Some(vbit(value->Some_0, k0 - 1 - j)),
value is None ==> exists|j: int| 0 <= j < k0 && (#[trigger] new_bits@[31 - j]).known() is None,
@at ls0
let ghost v0 = value;
let ghost b_ = new_bits@[31 - k0];
proof { if v0 is Some { lemma_shl(v0->Some_0); } }
@at le0
proof { assert(new_bits@[31 - k0].known() is None ==> value is None); }
@at fe
proof { if value is Some { assert forall|i: int| 0 <= i < 32 implies (#[trigger] new_bits@[i]).known() == Some(vbit(value->Some_0, i)) by { assert(new_bits@[31 - (31 - i)].known() == Some(vbit(value->Some_0, i))); } } }
@fn rotr
@file gadgets/src/algebra/uint32.rs
@impl UInt32
@name rotr
@wrap impl UInt32 {
@header
pub fn rotr(&self, by: usize) -> (ret: Self)
    requires self.bits@.len() == 32,
    ensures ret.bits@.len() == 32, forall|i: int| 0 <= i < 32 ==> #[trigger] ret.bits@[i] == self.bits@[(i + by as int) % 32],
        forall|p: bool| #[trigger] winv(*self, p) ==> winv(ret, p),
        ret.value is Some == self.value is Some,
        self.value is Some ==> forall|i: int| 0 <= i < 32 ==> #[trigger] vbit(ret.value->Some_0, i) == vbit(self.value->Some_0, (i + by as int) % 32),
@at fs
let ghost by0 = by as int;
@inv 0
end0 == 32 && self.bits@.len() == 32 && by < 32 && by == by0 % 32 && first0 == 32 - by && acc0@.len() == k0,
forall|i: int| 0 <= i < k0 ==> #[trigger] acc0@[i] == self.bits@[(i + by0) % 32],
@at le0
proof { assert((k0 + by0) % 32 == (k0 + by) % 32); if k0 + by < 32 { } else { assert((k0 + by) % 32 == k0 + by - 32); } }
@at fe
proof {
    assert forall|i: int| 0 <= i < 32 implies (i + by as int) % 32 == (i + by0) % 32 && 0 <= #[trigger] ((i + by0) % 32) < 32 by { }
    assert forall|p: bool| #[trigger] winv(*self, p) implies winv(ret_, p) by {
        if self.value is Some {
            assert forall|i: int| 0 <= i < 32 implies (p ==> (#[trigger] ret_.bits@[i]).known() == Some(vbit(ret_.value->Some_0, i))) && okc(ret_.bits@[i].cst(), vbit(ret_.value->Some_0, i)) by {
                let b = self.bits@[(i + by0) % 32];
                assert(p ==> b.known() == Some(vbit(self.value->Some_0, (i + by0) % 32)));
                assert(okc(b.cst(), vbit(self.value->Some_0, (i + by0) % 32)));
            }
        }
    }
}
@fn shr
@file gadgets/src/algebra/uint32.rs
@impl UInt32
@name shr
@wrap impl UInt32 {
@header
pub fn shr(&self, by: usize) -> (ret: Self)
    requires self.bits@.len() == 32,
    ensures ret.bits@.len() == 32, forall|i: int| 0 <= i < 32 ==> #[trigger] ret.bits@[i] == (if i + (by as int) % 32 < 32 { self.bits@[i + (by as int) % 32] } else { Boolean::Constant(false) }),
        forall|p: bool| #[trigger] winv(*self, p) ==> winv(ret, p),
        ret.value is Some == self.value is Some,
        self.value is Some ==> ret.value == Some(self.value->Some_0 >> ((by % 32) as u32)),
@at fs
let ghost by0 = by as int;
@inv 0
end0 == 32 && self.bits@.len() == 32 && by < 32 && by == by0 % 32 && first0 == 32 - by && acc0@.len() == k0,
fill == Boolean::Constant(false),
forall|i: int| 0 <= i < k0 ==> #[trigger] acc0@[i] == (if i + by < 32 { self.bits@[i + by] } else { Boolean::Constant(false) }),
@at fe
proof {
    assert forall|p: bool| #[trigger] winv(*self, p) implies winv(ret_, p) by {
        if self.value is Some {
            let v = self.value->Some_0;
            assert forall|i: int| 0 <= i < 32 implies (p ==> (#[trigger] ret_.bits@[i]).known() == Some(vbit(ret_.value->Some_0, i))) && okc(ret_.bits@[i].cst(), vbit(ret_.value->Some_0, i)) by {
                lemma_shr2(v, by as u32, i);
                if i + by < 32 { let b = self.bits@[i + by]; assert(p ==> b.known() == Some(vbit(v, i + by))); assert(okc(b.cst(), vbit(v, i + by))); }
            }
        }
    }
}
@fn triop
@file gadgets/src/algebra/uint32.rs
@impl UInt32
@name triop
@wrap impl UInt32 {
@call tri_fn op.word($1, $2, $3)
@call circuit_fn op.bit($1, $2, &$3, &$4, &$5)
@header
fn triop<T: TriOp>(cs: &mut CS, a: &Self, b: &Self, c: &Self, op: T) -> (ret: Result<Self, SynthesisError>)
    requires winv(*a, old(cs).prv()), winv(*b, old(cs).prv()), winv(*c, old(cs).prv()),
    ensures ret is Ok ==> wgate3(*old(cs), *final(cs), *a, *b, *c, ret->Ok_0, op.f()),
@at fs
let ghost c0 = *cs;
let ghost wa = *a;
let ghost wb = *b;
let ghost wc = *c;
let ghost f = op.f();
proof { field_laws(); }
@at let:new_value
proof {
    if new_value is Some {  }
    assert(wa.value is Some && wb.value is Some && wc.value is Some ==> new_value is Some && forall|i: int| 0 <= i < 32 ==> #[trigger] vbit(new_value->Some_0, i) == f(vbit(wa.value->Some_0, i), vbit(wb.value->Some_0, i), vbit(wc.value->Some_0, i)));
}
@at ty:acc0
: Vec<Boolean>
@inv 0
wa == *a && wb == *b && wc == *c && winv(wa, c0.prv()) && winv(wb, c0.prv()) && winv(wc, c0.prv()),
end0 == 32 && acc0@.len() == k0,
f == op.f(),
grows(c0, *cs),
new_value is Some ==> wa.value is Some && wb.value is Some && wc.value is Some,
new_value is Some ==> forall|i: int| 0 <= i < 32 ==> #[trigger] vbit(new_value->Some_0, i) == f(vbit(wa.value->Some_0, i), vbit(wb.value->Some_0, i), vbit(wc.value->Some_0, i)),
new_value is Some && c0.prv() ==> forall|i: int| 0 <= i < k0 ==> (#[trigger] acc0@[i]).known() == Some(vbit(new_value->Some_0, i)),
new_value is Some ==> forall|i: int| 0 <= i < k0 ==> okc((#[trigger] acc0@[i]).cst(), vbit(new_value->Some_0, i)),
forall|w: Asg| wf(w) && #[trigger] cs.sat(w) && wbits(wa, w) && wbits(wb, w) && wbits(wc, w) ==> forall|i: int| 0 <= i < k0 ==> (#[trigger] acc0@[i]).fv(w) == b2f(f(wtv(wa, w, i), wtv(wb, w, i), wtv(wc, w, i))),
forall|w: Asg| wf(w) && #[trigger] c0.sat(w) && follows(c0, *cs, w) && wright(wa, w) && wright(wb, w) && wright(wc, w) && c0.prv() ==> cs.sat(w) && forall|i: int| 0 <= i < k0 ==> right(#[trigger] acc0@[i], w),
@at ls0
let ghost m = *cs;
let ghost acc_ = acc0@;
@at le0
proof {
    assert forall|i: int| 0 <= i < k0 implies acc0@[i] == acc_[i] by { }
    if new_value is Some { assert(vbit(new_value->Some_0, k0 as int) == f(vbit(wa.value->Some_0, k0 as int), vbit(wb.value->Some_0, k0 as int), vbit(wc.value->Some_0, k0 as int))); assert(okc(wa.bits@[k0 as int].cst(), vbit(wa.value->Some_0, k0 as int))); assert(okc(wb.bits@[k0 as int].cst(), vbit(wb.value->Some_0, k0 as int))); assert(okc(wc.bits@[k0 as int].cst(), vbit(wc.value->Some_0, k0 as int))); }
    assert forall|w: Asg| wf(w) && #[trigger] cs.sat(w) && wbits(wa, w) && wbits(wb, w) && wbits(wc, w) implies forall|i: int| 0 <= i < k0 + 1 ==> (#[trigger] acc0@[i]).fv(w) == b2f(f(wtv(wa, w, i), wtv(wb, w, i), wtv(wc, w, i))) by { assert(m.sat(w)); }
    assert forall|w: Asg| wf(w) && #[trigger] c0.sat(w) && follows(c0, *cs, w) && wright(wa, w) && wright(wb, w) && wright(wc, w) && c0.prv() implies cs.sat(w) && forall|i: int| 0 <= i < k0 + 1 ==> right(#[trigger] acc0@[i], w) by {
        lemma_follows(c0, m, *cs, w);
        assert(m.sat(w));
    }
}
@fn maj_word
@file gadgets/src/algebra/uint32.rs
@impl UInt32
@name sha256_maj
@closure 0
@header
pub fn maj_word(a: u32, b: u32, c: u32) -> (ret: u32)
    ensures forall|i: int| 0 <= i < 32 ==> #[trigger] vbit(ret, i) == majf(vbit(a, i), vbit(b, i), vbit(c, i)),
@at fs
proof { lemma_xor(a, b); lemma_xor(a, c); lemma_xor(b, c); lemma_xor(a & b, a & c); lemma_xor((a & b) ^ (a & c), b & c); }
@fn maj_bit
@file gadgets/src/algebra/uint32.rs
@impl UInt32
@name sha256_maj
@closure 1
@header
pub fn maj_bit(cs: &mut CS, i: usize, a: &Boolean, b: &Boolean, c: &Boolean) -> (ret: Result<Boolean, SynthesisError>)
    ensures ret is Ok ==> gate3(*old(cs), *final(cs), *a, *b, *c, ret->Ok_0, |x: bool, y: bool, z: bool| ((x && y) != (x && z)) != (y && z)),

@fn sha256_maj
@file gadgets/src/algebra/uint32.rs
@impl UInt32
@name sha256_maj
@wrap impl UInt32 {
@call Self::triop UInt32::triop($1, $2, $3, $4, Maj)
@header
pub fn sha256_maj(cs: &mut CS, a: &Self, b: &Self, c: &Self) -> (ret: Result<Self, SynthesisError>)
    requires winv(*a, old(cs).prv()), winv(*b, old(cs).prv()), winv(*c, old(cs).prv()),
    ensures ret is Ok ==> wgate3(*old(cs), *final(cs), *a, *b, *c, ret->Ok_0, |x: bool, y: bool, z: bool| ((x && y) != (x && z)) != (y && z)),

@fn ch_word
@file gadgets/src/algebra/uint32.rs
@impl UInt32
@name sha256_ch
@closure 0
@header
pub fn ch_word(a: u32, b: u32, c: u32) -> (ret: u32)
    ensures forall|i: int| 0 <= i < 32 ==> #[trigger] vbit(ret, i) == chf(vbit(a, i), vbit(b, i), vbit(c, i)),
@at fs
proof { lemma_xor(a, b); lemma_not(a); lemma_xor(!a, c); lemma_xor(a & b, (!a) & c); }
@fn ch_bit
@file gadgets/src/algebra/uint32.rs
@impl UInt32
@name sha256_ch
@closure 1
@header
pub fn ch_bit(cs: &mut CS, i: usize, a: &Boolean, b: &Boolean, c: &Boolean) -> (ret: Result<Boolean, SynthesisError>)
    ensures ret is Ok ==> gate3(*old(cs), *final(cs), *a, *b, *c, ret->Ok_0, |x: bool, y: bool, z: bool| (x && y) != (!x && z)),

@fn sha256_ch
@file gadgets/src/algebra/uint32.rs
@impl UInt32
@name sha256_ch
@wrap impl UInt32 {
@call Self::triop UInt32::triop($1, $2, $3, $4, Ch)
@header
pub fn sha256_ch(cs: &mut CS, a: &Self, b: &Self, c: &Self) -> (ret: Result<Self, SynthesisError>)
    requires winv(*a, old(cs).prv()), winv(*b, old(cs).prv()), winv(*c, old(cs).prv()),
    ensures ret is Ok ==> wgate3(*old(cs), *final(cs), *a, *b, *c, ret->Ok_0, |x: bool, y: bool, z: bool| (x && y) != (!x && z)),

@fn xor
@file gadgets/src/algebra/uint32.rs
@impl UInt32
@name xor
@wrap impl UInt32 {
@header
pub fn xor(&self, cs: &mut CS, other: &Self) -> (ret: Result<Self, SynthesisError>)
    requires winv(*self, old(cs).prv()), winv(*other, old(cs).prv()),
    ensures ret is Ok ==> wgate2(*old(cs), *final(cs), *self, *other, ret->Ok_0, |x: bool, y: bool| x != y),
@at fs
let ghost c0 = *cs;
let ghost wa = *self;
let ghost wb = *other;
let ghost f = |x: bool, y: bool| x != y;
proof { field_laws(); }
@at let:new_value
proof {
    if new_value is Some { lemma_xor(wa.value->Some_0, wb.value->Some_0); }
    assert(wa.value is Some && wb.value is Some ==> new_value is Some && forall|i: int| 0 <= i < 32 ==> #[trigger] vbit(new_value->Some_0, i) == f(vbit(wa.value->Some_0, i), vbit(wb.value->Some_0, i)));
}
@at ty:acc0
: Vec<Boolean>
@inv 0
wa == *self && wb == *other && winv(wa, c0.prv()) && winv(wb, c0.prv()),
end0 == 32 && acc0@.len() == k0,
f == |x: bool, y: bool| x != y,
grows(c0, *cs),
new_value is Some ==> wa.value is Some && wb.value is Some,
new_value is Some ==> forall|i: int| 0 <= i < 32 ==> #[trigger] vbit(new_value->Some_0, i) == f(vbit(wa.value->Some_0, i), vbit(wb.value->Some_0, i)),
new_value is Some && c0.prv() ==> forall|i: int| 0 <= i < k0 ==> (#[trigger] acc0@[i]).known() == Some(vbit(new_value->Some_0, i)),
new_value is Some ==> forall|i: int| 0 <= i < k0 ==> okc((#[trigger] acc0@[i]).cst(), vbit(new_value->Some_0, i)),
forall|w: Asg| wf(w) && #[trigger] cs.sat(w) && wbits(wa, w) && wbits(wb, w) ==> forall|i: int| 0 <= i < k0 ==> (#[trigger] acc0@[i]).fv(w) == b2f(f(wtv(wa, w, i), wtv(wb, w, i))),
forall|w: Asg| wf(w) && #[trigger] c0.sat(w) && follows(c0, *cs, w) && wright(wa, w) && wright(wb, w) && c0.prv() ==> cs.sat(w) && forall|i: int| 0 <= i < k0 ==> right(#[trigger] acc0@[i], w),
@at ls0
let ghost m = *cs;
let ghost acc_ = acc0@;
@at le0
proof {
    assert forall|i: int| 0 <= i < k0 implies acc0@[i] == acc_[i] by { }
    if new_value is Some { assert(vbit(new_value->Some_0, k0 as int) == f(vbit(wa.value->Some_0, k0 as int), vbit(wb.value->Some_0, k0 as int))); assert(okc(wa.bits@[k0 as int].cst(), vbit(wa.value->Some_0, k0 as int))); assert(okc(wb.bits@[k0 as int].cst(), vbit(wb.value->Some_0, k0 as int))); }
    assert forall|w: Asg| wf(w) && #[trigger] cs.sat(w) && wbits(wa, w) && wbits(wb, w) implies forall|i: int| 0 <= i < k0 + 1 ==> (#[trigger] acc0@[i]).fv(w) == b2f(f(wtv(wa, w, i), wtv(wb, w, i))) by { assert(m.sat(w)); }
    assert forall|w: Asg| wf(w) && #[trigger] c0.sat(w) && follows(c0, *cs, w) && wright(wa, w) && wright(wb, w) && c0.prv() implies cs.sat(w) && forall|i: int| 0 <= i < k0 + 1 ==> right(#[trigger] acc0@[i], w) by {
        lemma_follows(c0, m, *cs, w);
        assert(m.sat(w));
    }
}
@fn meq_new
@file gadgets/src/operator/multieq.rs
@impl MultiEq<F,CS>
@name new
@wrap impl MultiEq {
@header
pub fn new(cs: CS) -> (ret: Self)
    ensures ret.cs == cs, meq_ok(ret), ret.ops == 0, forall|w: Asg| #[trigger] small(ret, w), forall|w: Asg| #[trigger] pend(ret, w) == cs.sat(w),
@at fe
proof { lemma2_to64(); assert forall|w: Asg| #[trigger] small(ret_, w) by { assert(small2(ret_, w, 0, 0)); } }
@fn accumulate
@file gadgets/src/operator/multieq.rs
@impl MultiEq<F,CS>
@name accumulate
@wrap impl MultiEq {
@header
fn accumulate(&mut self)
    requires old(self).ops < usize::MAX,
    ensures final(self).bits_used == 0, final(self).ops == old(self).ops + 1, grows(old(self).cs, final(self).cs),
        final(self).cs.ni() == old(self).cs.ni(), final(self).cs.na() == old(self).cs.na(), final(self).cs.hon() == old(self).cs.hon(),
        forall|w: Asg| #[trigger] small(*final(self), w),
        forall|w: Asg| wf(w) ==> #[trigger] final(self).cs.sat(w) == pend(*old(self), w),
        forall|w: Asg| wf(w) ==> #[trigger] pend(*final(self), w) == pend(*old(self), w),
@at fe
proof {
    lemma2_to64();
    assert forall|w: Asg| #[trigger] small(*self, w) by { assert(small2(*self, w, 0, 0)); }
}
@fn enforce_equal
@file gadgets/src/operator/multieq.rs
@impl MultiEq<F,CS>
@name enforce_equal
@wrap impl MultiEq {
@macro assert vmust($0)
@header
pub fn enforce_equal(&mut self, num_bits: usize, lhs: &LinearCombination, rhs: &LinearCombination)
    requires meq_ok(*old(self)), old(self).ops < usize::MAX, num_bits <= 0xffff, num_bits < cap(),
    ensures meq_ok(*final(self)), final(self).ops <= old(self).ops + 1, grows(old(self).cs, final(self).cs),
        final(self).cs.ni() == old(self).cs.ni(), final(self).cs.na() == old(self).cs.na(), final(self).cs.hon() == old(self).cs.hon(),
        forall|w: Asg, l: int, r: int| wf(w) && #[trigger] small(*old(self), w) && 0 <= l < pow2(num_bits as nat) && 0 <= r < pow2(num_bits as nat)
            && lhs.val(w) == #[trigger] fint(l) && rhs.val(w) == #[trigger] fint(r) ==>
            small(*final(self), w) && (pend(*final(self), w) <==> pend(*old(self), w) && l == r),
@at let:coeff
let ghost m = *self;
proof { lemma_pow(self.bits_used as nat); }
@at fe
proof {
    assert forall|w: Asg, l: int, r: int| wf(w) && #[trigger] small(*old(self), w) && 0 <= l < pow2(num_bits as nat) && 0 <= r < pow2(num_bits as nat)
            && lhs.val(w) == #[trigger] fint(l) && rhs.val(w) == #[trigger] fint(r) implies
            small(*self, w) && (pend(*self, w) <==> pend(*old(self), w) && l == r) by {
        assert(small(m, w));
        assert(pend(m, w) == pend(*old(self), w));
        lemma_pending(m, *self, w, num_bits as nat, coeff, l, r, lhs.val(w), rhs.val(w));
    }
}
@fn meq_drop
@file gadgets/src/operator/multieq.rs
@impl Drop for MultiEq<F,CS>
@name drop
@wrap impl MultiEq {
@header
pub fn meq_drop(&mut self)
    requires meq_ok(*old(self)), old(self).ops < usize::MAX,
    ensures grows(old(self).cs, final(self).cs), forall|w: Asg| wf(w) && #[trigger] small(*old(self), w) ==> final(self).cs.sat(w) == pend(*old(self), w),
@at fs
proof {
    lemma2_to64();
}
@fn addmany
@file gadgets/src/algebra/uint32.rs
@impl UInt32
@name addmany
@wrap impl UInt32 {
@call AllocatedBit::alloc AllocatedBit::alloc(&mut cs.cs, $2)
@header
pub fn addmany(cs: &mut MultiEq, operands: &[UInt32]) -> (ret: Result<UInt32, SynthesisError>)
    requires meq_ok(*old(cs)), old(cs).ops < usize::MAX, forall|i: int| 0 <= i < operands@.len() ==> winv(#[trigger] operands@[i], old(cs).cs.prv()),
    ensures ret is Ok ==> added(*old(cs), *final(cs), operands@, ret->Ok_0) && final(cs).ops <= old(cs).ops + 1,
@refs op
@op &= $0 = $0.band($1)
@at fs
let ghost m0 = *cs;
let ghost c0 = cs.cs;
let ghost ops = operands@;
let ghost n = operands@.len() as int;
proof { field_laws(); lemma2_to64(); lemma_fint_succ(0); }
@at let:max_value
let ghost max0 = max_value;
@inv 0
2 <= n <= 10 && end0 == n && ops == operands@ && ops.len() == n && max_value == max0 && max0 == n * 0xffff_ffff,
*cs == m0 && c0 == m0.cs,
forall|i: int| 0 <= i < n ==> winv(#[trigger] ops[i], c0.prv()),
forall|w: Asg| wf(w) && #[trigger] allbits(ops, w) ==> lc.val(w) == fint(osum(ops, w, k0 as int)),
result_value is Some ==> result_value->Some_0 as int == wsum(ops, k0 as int) && wsum(ops, k0 as int) <= k0 * 0xffff_ffff && allsome(ops, k0 as int),
result_value is None ==> !allsome(ops, k0 as int),
all_constants ==> forall|i: int| 0 <= i < k0 ==> isconst(#[trigger] ops[i], 32),
@at ls0
proof { assert(ops[k0 as int] == operands@[k0 as int]); assert(winv(ops[k0 as int], c0.prv())); }
let ghost ac0 = all_constants;
@at lb1
proof { assert(lsum(lc, ops, k0 as int, 0)); }
@inv 1
end1 == 32 && k0 < n && ops.len() == n && *op == ops[k0 as int] && op.bits@.len() == 32,
coeff == fint(pow2(k1 as nat) as int),
lsum(lc, ops, k0 as int, k1 as int),
all_constants ==> ac0 && isconst(ops[k0 as int], k1 as int),
@at ls1
let ghost lc1 = lc;
@at le1
proof {
    lemma_dbl(k1 as nat);
    assert forall|w: Asg| wf(w) && #[trigger] allbits(ops, w) implies lc.val(w) == fint(osum(ops, w, k0 as int) + psum(ops[k0 as int].bits@, w, k1 + 1)) by {
        let b = ops[k0 as int].bits@[k1 as int];
        assert(wbits(ops[k0 as int], w));
        assert(isbit(b, w));
        field_laws();
        lemma_addbit(osum(ops, w, k0 as int) + psum(ops[k0 as int].bits@, w, k1 as int), k1 as nat, tv(b, w), b.fv(w));
        assert(lc1.val(w) == fint(osum(ops, w, k0 as int) + psum(ops[k0 as int].bits@, w, k1 as int)));
    }
}
@at ret0
proof {
    let r = ret_->Ok_0;
    let v = result_value->Some_0;
    lemma_trunc(v);
    assert forall|w: Asg| wf(w) implies #[trigger] wbits(r, w) && wright(r, w) && wval(r, w) == osum(ops, w, n) % 0x1_0000_0000 by {
        lemma_wval(r, w, v as u32);
        assert forall|i: int, j: int| 0 <= i < ops.len() && 0 <= j < 32 implies (#[trigger] ops[i].bits@[j]).fv(w) == b2f(vbit(ops[i].value->Some_0, j)) by {
            assert(isconst(ops[i], 32)); assert(winv(ops[i], c0.prv())); assert(ops[i].value is Some);
            assert(okc(ops[i].bits@[j].cst(), vbit(ops[i].value->Some_0, j)));
        }
        lemma_osum(ops, w, n);
    }
    assert(winv(r, c0.prv()));
    assert forall|w: Asg| wf(w) && #[trigger] small(m0, w) implies wbits(r, w) && wright(r, w) && wval(r, w) == osum(ops, w, n) % 0x1_0000_0000 by { assert(wbits(r, w)); }
}
@at ty:result_bits
: Vec<Boolean>
@at ty:i
: usize
@at lb2
proof { lemma_shr64(max0, 0); lemma_bits(max0, n, 0); }
@at winv2
invariant
    2 <= n <= 10 && ops.len() == n && max0 == n * 0xffff_ffff && c0 == m0.cs && 0 <= i <= 36 && max_value == max0 >> (i as u64) && result_bits@.len() == i,
    cs.lhs == m0.lhs && cs.rhs == m0.rhs && cs.bits_used == m0.bits_used && cs.ops == m0.ops,
    grows(c0, cs.cs),
    coeff == fint(pow2(i as nat) as int),
    forall|j: int| 0 <= j < i ==> (#[trigger] result_bits@[j]) is Is,
    forall|j: int| 0 <= j < i ==> (#[trigger] result_bits@[j]).known() == match result_value { Some(v) => Some(ubit(v, j)), None => None },
    forall|w: Asg| wf(w) && #[trigger] cs.cs.sat(w) ==> forall|j: int| 0 <= j < i ==> isbit(#[trigger] result_bits@[j], w),
    forall|w: Asg| wf(w) && #[trigger] cs.cs.sat(w) ==> result_lc.val(w) == fint(psum(result_bits@, w, i as int)),
    forall|w: Asg| wf(w) && #[trigger] c0.sat(w) && follows(c0, cs.cs, w) && c0.prv() ==> cs.cs.sat(w) && forall|j: int| 0 <= j < i ==> right(#[trigger] result_bits@[j], w),
    c0.prv() && i > 0 ==> result_value is Some,
decreases 36 - i,
@at ls2
let ghost m = cs.cs;
let ghost acc_ = result_bits@;
let ghost lc2 = result_lc;
proof { lemma_bits(max0, n, i as int); lemma_shr64(max0, i as int); lemma_dbl(i as nat); }
let ghost i0 = i as int;
@at le2
proof {
    field_laws();
    assert forall|j: int| 0 <= j < i0 implies result_bits@[j] == acc_[j] by { }
    assert forall|w: Asg| wf(w) && #[trigger] cs.cs.sat(w) implies forall|j: int| 0 <= j < i0 + 1 ==> isbit(#[trigger] result_bits@[j], w) by { assert(m.sat(w)); }
    assert forall|w: Asg| wf(w) && #[trigger] cs.cs.sat(w) implies result_lc.val(w) == fint(psum(result_bits@, w, i0 + 1)) by {
        assert(m.sat(w));
        lemma_psum_ext(acc_, result_bits@, w, i0);
        let b = result_bits@[i0];
        assert(isbit(b, w));
        lemma_addbit(psum(acc_, w, i0), i0 as nat, tv(b, w), b.fv(w));
    }
    assert forall|w: Asg| wf(w) && #[trigger] c0.sat(w) && follows(c0, cs.cs, w) && c0.prv() implies cs.cs.sat(w) && forall|j: int| 0 <= j < i0 + 1 ==> right(#[trigger] result_bits@[j], w) by {
        lemma_follows(c0, m, cs.cs, w);
        assert(m.sat(w));
    }
}
@at la2
let ghost m1 = *cs;
let ghost rb = result_bits@;
proof { lemma_bits(max0, n, i as int); }
@at fe
proof {
    let r = ret_->Ok_0;
    let k = i as int;
    if result_value is Some {
        let v = result_value->Some_0;
        lemma_trunc(v);
        assert forall|j: int| 0 <= j < 32 implies (#[trigger] r.bits@[j]).known() == Some(vbit(r.value->Some_0, j)) by { lemma_low(v, j); assert(r.bits@[j] == rb[j]); }
    }
    assert forall|w: Asg| wf(w) && #[trigger] small(m0, w) implies small(m1, w) && (pend(m1, w) <==> m1.cs.sat(w) && m0.lhs.val(w) == m0.rhs.val(w)) by {
        let (l, q) = choose|l: int, q: int| #[trigger] small2(m0, w, l, q);
        assert(small2(m1, w, l, q));
    }
    assert forall|w: Asg| wf(w) && #[trigger] small(m0, w) && m1.cs.sat(w) && allbits(ops, w) implies
            small(*cs, w) && wbits(r, w) && (pend(*cs, w) <==> pend(m1, w) && osum(ops, w, n) == psum(rb, w, k)) && (osum(ops, w, n) == psum(rb, w, k) ==> wval(r, w) == osum(ops, w, n) % 0x1_0000_0000) by {
        assert(small(m1, w));
        lemma_osum_bound(ops, w, n);
        lemma_psum_bound(rb, w, k);
        assert(lc.val(w) == fint(osum(ops, w, n)));
        assert(result_lc.val(w) == fint(psum(rb, w, k)));
        lemma_psum_mod(rb, w, k);
        lemma_psum_ext(r.bits@, rb, w, 32);
        assert forall|j: int| 0 <= j < 32 implies isbit(#[trigger] r.bits@[j], w) by { assert(r.bits@[j] == rb[j]); }
    }
    assert forall|w: Asg| wf(w) && #[trigger] small(m0, w) && pend(m0, w) && follows(c0, cs.cs, w) && allright(ops, w) && c0.prv() implies small(*cs, w) && pend(*cs, w) && wright(r, w) by {
        field_laws();
        lemma_follows(c0, m1.cs, cs.cs, w);
        assert(c0.sat(w));
        assert(m1.cs.sat(w));
        assert forall|q: int| 0 <= q < ops.len() implies wbits(#[trigger] ops[q], w) by { assert(wright(ops[q], w)); }
        assert(allbits(ops, w));
        let v = result_value->Some_0;
        assert forall|q: int, j: int| 0 <= q < ops.len() && 0 <= j < 32 implies (#[trigger] ops[q].bits@[j]).fv(w) == b2f(vbit(ops[q].value->Some_0, j)) by {
            assert(winv(ops[q], c0.prv())); assert(ops[q].value is Some); assert(wright(ops[q], w)); assert(right(ops[q].bits@[j], w));
            assert(ops[q].bits@[j].known() == Some(vbit(ops[q].value->Some_0, j)));
        }
        lemma_osum(ops, w, n);
        assert forall|j: int| 0 <= j < k implies tv(#[trigger] rb[j], w) == ubit(v, j) by { assert(right(rb[j], w)); }
        lemma_psum_ubit(rb, w, v, k);
        lemma_small_mod(v as nat, pow2(k as nat));
        assert forall|j: int| 0 <= j < 32 implies right(#[trigger] r.bits@[j], w) by { assert(r.bits@[j] == rb[j]); }
    }
}

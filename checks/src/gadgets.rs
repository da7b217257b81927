//! P03 Boolean gadgets, P04 32-bit words, P06 field elements and ranges, P08 lookups.
use crate::csolve::*;
use crate::ctx::*;
use crate::rec::Rec;
use ark_bls12_381::Fr;
use ark_ff::{BitIteratorLE, Field, One, PrimeField, Zero};
use rand::{Rng, RngCore, SeedableRng};
use vmodel::*;
use zkp_gadgets::algebra::boolean::*;
use zkp_gadgets::algebra::fr::AllocatedFr;
use zkp_gadgets::algebra::uint32::UInt32;
use zkp_gadgets::lookup::table::*;
use zkp_gadgets::operator::multieq::MultiEq;
use zkp_gadgets::operator::rangeproof::RangeProof;
use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};

type R = Rec<Fr>;
pub fn srng(seed: u64) -> rand::rngs::StdRng {
    rand::rngs::StdRng::seed_from_u64(seed)
}
pub fn f(x: u64) -> Fr {
    Fr::from(x)
}
/// operand kinds: constant, plain and negated, each with both values; `None` in the shape run
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    C(bool),
    Is(bool),
    Not(bool),
}
impl Kind {
    pub fn all() -> Vec<Kind> {
        let mut r = vec![];
        for b in [false, true].iter() {
            r.push(Kind::C(*b));
            r.push(Kind::Is(*b));
            r.push(Kind::Not(*b));
        }
        r
    }
    pub fn value(&self) -> bool {
        match self {
            Kind::C(b) | Kind::Is(b) => *b,
            Kind::Not(b) => !*b,
        }
    }
    pub fn mk<F: PrimeField>(&self, cs: &mut Rec<F>) -> Boolean {
        let sh = cs.shape_only;
        let o = |b: bool| if sh { None } else { Some(b) };
        match self {
            Kind::C(b) => Boolean::constant(*b),
            Kind::Is(b) => Boolean::from(AllocatedBit::alloc(cs, o(*b)).unwrap()),
            Kind::Not(b) => Boolean::from(AllocatedBit::alloc(cs, o(*b)).unwrap()).not(),
        }
    }
}
pub fn bvar(b: &Boolean) -> Option<Variable> {
    match b {
        Boolean::Is(v) | Boolean::Not(v) => Some(v.get_variable()),
        _ => None,
    }
}
/// is every target determined by the fixed variables?  A second witness is the counterexample.
pub fn determined<F: Val>(c: &mut Ctx, name: &str, r: &Rec<F>, fixed: &[Variable], targets: &[Variable], what: &str) {
    let s = Sys::of(r);
    let fx: Vec<usize> = fixed.iter().map(|v| r.num(*v)).collect();
    let tg: Vec<usize> = targets.iter().map(|v| r.num(*v)).collect();
    let d = s.structural(&fx);
    if tg.iter().all(|t| d[*t]) {
        c.ob(name, By::Det, true, || String::new());
    } else if let Some((t, w)) = s.second_witness(&fx, &tg, 60) {
        c.ob(name, By::Ground, false, || {
            let diff: Vec<String> = (0..w.len()).filter(|i| w[*i] != s.vals[*i]).take(8).map(|i| format!("v{}: {} -> {}", i, s.vals[i], w[i])).collect();
            format!("{}: variable {} is not determined; second witness: {}", what, t, diff.join(", "))
        });
    } else {
        c.ob(name, By::Ground, true, || String::new());
    }
}
pub fn sat<F: PrimeField>(c: &mut Ctx, name: &str, r: &Rec<F>, what: &str) {
    let v = r.violated();
    c.ob(name, By::Ground, v.is_none(), || format!("{}: constraint {} is violated by the honest assignment", what, v.unwrap()));
}

/// one Boolean operation on operands of the given kinds
fn bool_op(
    c: &mut Ctx,
    name: &str,
    kinds: &[Kind],
    alias: bool,
    want: bool,
    op: &dyn Fn(&mut R, &[Boolean]) -> Result<Boolean, SynthesisError>,
) {
    let what = format!("{} {:?}{}", name, kinds, if alias { " same variable" } else { "" });
    let go = |sh: bool| {
        let mut r = if sh { R::shape() } else { R::new() };
        let mut ops: Vec<Boolean> = vec![];
        for (i, k) in kinds.iter().enumerate() {
            if alias && i > 0 && !ops[0].is_constant() {
                // the same variable again, negated if the kind says so
                let p = match ops[0] {
                    Boolean::Is(v) | Boolean::Not(v) => v,
                    _ => unreachable!(),
                };
                ops.push(match k {
                    Kind::Not(_) => Boolean::Not(p),
                    _ => Boolean::Is(p),
                });
            } else {
                ops.push(k.mk(&mut r));
            }
        }
        let n = r.cons.len();
        let res = op(&mut r, &ops);
        (r, ops, res, n)
    };
    let g = guarded(|| go(false));
    let (r, ops, res, _) = match g {
        Ok(x) => x,
        Err(e) => {
            c.ob("Boolean gadgets do not fail on valid operands", By::Ground, false, || format!("{}: {}", what, e));
            return;
        }
    };
    let res = match res {
        Ok(b) => b,
        Err(e) => {
            c.ob("Boolean gadgets do not fail on valid operands", By::Ground, false, || format!("{}: {:?}", what, e));
            return;
        }
    };
    c.ob(&format!("{}: value is the function of the operand values", name), By::Ground, res.get_value() == Some(want), || {
        format!("{}: {:?}, want {}", what, res.get_value(), want)
    });
    let k = f(29);
    let e = r.ev(&res.lc(R::one(), k));
    c.ob(&format!("{}: assigned value is the function of the operand values", name), By::Ground, e == if want { k } else { Fr::zero() }, || format!("{}: {}", what, e));
    sat(c, &format!("{}: honest witness satisfies the constraints", name), &r, &what);
    if let Some(v) = bvar(&res) {
        let fx: Vec<Variable> = ops.iter().filter_map(bvar).collect();
        determined(c, &format!("{}: the constraints determine the result", name), &r, &fx, &[v], &what);
    }
    if let Ok((r2, _, Ok(res2), _)) = guarded(|| go(true)) {
        c.ob("the constraints do not depend on the witness", By::Ground, r.same_shape(&r2) && bvar(&res) == bvar(&res2), || what.clone());
        let known = res2.is_constant() || res2.get_value().is_none();
        c.ob("an unknown operand gives an unknown or constant result", By::Ground, known, || what.clone());
    } else {
        c.ob("the constraints do not depend on the witness", By::Ground, false, || format!("{}: no shape without values", what));
    }
}
pub fn p03(c: &mut Ctx) {
    c.set_shape("all kinds and values of the operands (complete)");
    let ks = Kind::all();
    let e = |r: Result<AllocatedBit, SynthesisError>| r.map(Boolean::from);
    let bit = |b: &Boolean| match b {
        Boolean::Is(v) | Boolean::Not(v) => *v,
        _ => unreachable!(),
    };
    for a in &ks {
        bool_op(c, "not", &[*a], false, !a.value(), &|_, o| Ok(o[0].not()));
        for b in &ks {
            for alias in [false, true].iter() {
                let al = *alias;
                let (mut x, mut y) = (a.value(), b.value());
                if al {
                    // both are views of one variable
                    if let (Kind::C(_), _) | (_, Kind::C(_)) = (a, b) {
                        continue;
                    }
                    let under = match a {
                        Kind::Is(v) | Kind::Not(v) => *v,
                        _ => false,
                    };
                    y = if let Kind::Not(_) = b { !under } else { under };
                    x = a.value();
                }
                bool_op(c, "xor", &[*a, *b], al, x ^ y, &|cs, o| Boolean::xor(cs, &o[0], &o[1]));
                bool_op(c, "and", &[*a, *b], al, x & y, &|cs, o| Boolean::and(cs, &o[0], &o[1]));
                if let (Kind::Is(_), Kind::Is(_)) = (a, b) {
                    bool_op(c, "AllocatedBit::xor", &[*a, *b], al, x ^ y, &|cs, o| e(AllocatedBit::xor(cs, &bit(&o[0]), &bit(&o[1]))));
                    bool_op(c, "AllocatedBit::and", &[*a, *b], al, x & y, &|cs, o| e(AllocatedBit::and(cs, &bit(&o[0]), &bit(&o[1]))));
                    bool_op(c, "AllocatedBit::and_not", &[*a, *b], al, x & !y, &|cs, o| e(AllocatedBit::and_not(cs, &bit(&o[0]), &bit(&o[1]))));
                    bool_op(c, "AllocatedBit::nor", &[*a, *b], al, !x & !y, &|cs, o| e(AllocatedBit::nor(cs, &bit(&o[0]), &bit(&o[1]))));
                }
                // enforce_equal
                let r = guarded(|| {
                    let mut r = R::new();
                    let p = a.mk(&mut r);
                    let q = if al {
                        match b {
                            Kind::Not(_) => Boolean::Not(bit(&p)),
                            _ => Boolean::Is(bit(&p)),
                        }
                    } else {
                        b.mk(&mut r)
                    };
                    let ok = Boolean::enforce_equal(&mut r, &p, &q).is_ok();
                    (ok, r.violated().is_none())
                });
                let got = r.clone().map(|(ok, s)| ok && s);
                c.ob("enforce_equal: satisfied exactly when the operands are equal", By::Ground, got == Ok(x == y), || format!("{:?} {:?} alias {}: {:?}", a, b, al, r));
            }
            for d in &ks {
                let (x, y, z) = (a.value(), b.value(), d.value());
                bool_op(c, "sha256_ch", &[*a, *b, *d], false, if x { y } else { z }, &|cs, o| Boolean::sha256_ch(cs, &o[0], &o[1], &o[2]));
                bool_op(c, "sha256_maj", &[*a, *b, *d], false, (x & y) | (x & z) | (y & z), &|cs, o| Boolean::sha256_maj(cs, &o[0], &o[1], &o[2]));
                let under = |k: &Kind| match k {
                    Kind::Is(v) | Kind::Not(v) | Kind::C(v) => *v,
                };
                let con = |k: &Kind| if let Kind::C(_) = k { true } else { false };
                if !con(a) && !con(b) && !con(d) {
                    let u = under(a);
                    let y2 = if let Kind::Not(_) = b { !u } else { u };
                    let z2 = if let Kind::Not(_) = d { !u } else { u };
                    bool_op(c, "sha256_ch", &[*a, *b, *d], true, if x { y2 } else { z2 }, &|cs, o| Boolean::sha256_ch(cs, &o[0], &o[1], &o[2]));
                    bool_op(c, "sha256_maj", &[*a, *b, *d], true, (x & y2) | (x & z2) | (y2 & z2), &|cs, o| Boolean::sha256_maj(cs, &o[0], &o[1], &o[2]));
                }
            }
        }
        // views of one operand
        let mut r = R::new();
        let b = a.mk(&mut r);
        let v = a.value();
        for k in [Fr::one(), f(5), -Fr::one()].iter() {
            let w = if v { *k } else { Fr::zero() };
            c.ob("lc: coefficient times the value", By::Ground, r.ev(&b.lc(R::one(), *k)) == w, || format!("{:?}", a));
        }
        let con = if let Kind::C(_) = a { true } else { false };
        c.ob("is_constant", By::Ground, b.is_constant() == con, || format!("{:?}", a));
        c.ob("get_value", By::Ground, b.get_value() == Some(v), || format!("{:?}", a));
    }
    // allocation: bits can only be 0 or 1
    for v in [false, true].iter() {
        let mk: Vec<(&str, Box<dyn Fn(&mut R) -> AllocatedBit>)> = vec![
            ("alloc", Box::new(move |cs| AllocatedBit::alloc(cs, Some(*v)).unwrap())),
            ("alloc_input", Box::new(move |cs| AllocatedBit::alloc_input(cs, Some(*v)).unwrap())),
            ("alloc_conditionally, not forced", Box::new(move |cs| {
                let m = AllocatedBit::alloc(&mut *cs, Some(false)).unwrap();
                AllocatedBit::alloc_conditionally(cs, Some(*v), &m).unwrap()
            })),
            ("alloc_conditionally, forced", Box::new(move |cs| {
                let m = AllocatedBit::alloc(&mut *cs, Some(true)).unwrap();
                AllocatedBit::alloc_conditionally(cs, Some(*v), &m).unwrap()
            })),
        ];
        for (n, m) in mk {
            let mut r = R::new();
            let b = m(&mut r);
            c.ob("alloc: value", By::Ground, b.get_value() == Some(*v) && r.val(b.get_variable()) == if *v { Fr::one() } else { Fr::zero() }, || n.to_string());
            let inp = if let Index::Input(_) = b.get_variable().get_unchecked() { true } else { false };
            c.ob("alloc_input allocates an input, alloc a witness", By::Ground, inp == (n == "alloc_input"), || n.to_string());
            // the quadratic in the bit: its values at five points fix it
            for x in [f(0), f(1), f(2), f(3), -f(1), f(77), Fr::one().double().inverse().unwrap()].iter() {
                match b.get_variable().get_unchecked() {
                    Index::Input(i) => r.ins[i] = *x,
                    Index::Aux(i) => r.aux[i] = *x,
                }
                let allowed = x.is_zero() || (x.is_one() && n != "alloc_conditionally, forced");
                c.ob("alloc: only 0 and 1 (0 when forced) are accepted", By::Ground, r.violated().is_none() == allowed, || format!("{} value {}", n, x));
            }
        }
        c.ob("alloc without a value is refused", By::Ground, AllocatedBit::alloc(&mut R::new(), None).is_err() && AllocatedBit::alloc_input(&mut R::new(), None).is_err(), || "alloc(None)".into());
    }
    // decompositions
    let mut g = srng(c.seed);
    let mut us = vec![0u64, 1, 2, 3, u64::max_value(), 1 << 63, 0x8000_0001, 0xdead_beef_0123_4567, 1 << 32, (1 << 32) - 1];
    for i in 0..64 {
        us.push(1 << i);
        us.push(g.next_u64());
    }
    for u in us {
        let mut r = R::new();
        let b = u64_into_boolean_vec_le(&mut r, Some(u)).unwrap();
        let ok = b.len() == 64 && (0..64).all(|i| b[i].get_value() == Some(u >> i & 1 == 1) && r.ev(&b[i].lc(R::one(), Fr::one())) == f(u >> i & 1));
        c.ob("u64_into_boolean_vec_le: bit i of the value", By::Ground, ok && r.violated().is_none(), || format!("{}", u));
        let s = Sys::of(&r);
        let bo = s.booleans();
        c.ob("u64_into_boolean_vec_le: every bit is boolean", By::Det, b.iter().all(|x| bvar(x).map(|v| bo[r.num(v)]).unwrap_or(false)), || format!("{}", u));
    }
    let mut xs = vec![Fr::zero(), Fr::one(), -Fr::one(), f(2), -f(2), Fr::one().double().inverse().unwrap()];
    for i in 0..255u64 {
        xs.push(f(2).pow(&[i]));
    }
    for _ in 0..40 {
        xs.push(g.gen());
    }
    for x in xs {
        let bits: Vec<bool> = BitIteratorLE::new(x.into_repr()).take(255).collect();
        let mut r = R::new();
        let b = field_into_boolean_vec_le(&mut r, Some(x)).unwrap();
        let ok = b.len() == 255 && (0..255).all(|i| b[i].get_value() == Some(bits[i]) && r.ev(&b[i].lc(R::one(), Fr::one())) == f(bits[i] as u64));
        c.ob("field_into_boolean_vec_le: bit i of the canonical representative", By::Ground, ok && r.violated().is_none(), || format!("{}", x));
        let mut r2 = R::new();
        let a = field_into_allocated_bits_le(&mut r2, Some(x)).unwrap();
        let ok = a.len() == 255 && (0..255).all(|i| a[i].get_value() == Some(bits[i]));
        c.ob("field_into_allocated_bits_le: bit i of the canonical representative", By::Ground, ok && r2.violated().is_none(), || format!("{}", x));
        let s = Sys::of(&r2);
        let bo = s.booleans();
        c.ob("field_into_allocated_bits_le: every bit is boolean", By::Det, a.iter().all(|x| bo[r2.num(x.get_variable())]), || format!("{}", x));
    }
    let (mut s1, mut s2) = (R::shape(), R::new());
    u64_into_boolean_vec_le(&mut s1, None).unwrap();
    u64_into_boolean_vec_le(&mut s2, Some(77)).unwrap();
    field_into_boolean_vec_le::<Fr, _>(&mut s1, None).unwrap();
    field_into_boolean_vec_le(&mut s2, Some(f(77))).unwrap();
    c.ob("the constraints do not depend on the witness", By::Ground, s1.same_shape(&s2), || "decompositions".into());
}

// ---------------------------------------------------------------- 32-bit words
fn word_vals(g: &mut impl RngCore) -> u32 {
    match g.next_u32() % 8 {
        0 => 0,
        1 => u32::max_value(),
        2 => 1 << (g.next_u32() % 32),
        3 => !(1 << (g.next_u32() % 32)),
        4 => (1u64 << (g.next_u32() % 33)).wrapping_sub(1) as u32,
        _ => g.next_u32(),
    }
}
/// a word: 0 constant, 1 allocated, 2 bits of mixed kinds
fn word(cs: &mut R, kind: u32, v: u32, pat: u64) -> UInt32 {
    let sh = cs.shape_only;
    match kind {
        0 => UInt32::constant(v),
        1 => UInt32::alloc(cs, if sh { None } else { Some(v) }).unwrap(),
        _ => {
            let bits: Vec<Boolean> = (0..32)
                .map(|i| {
                    let b = v >> i & 1 == 1;
                    match (pat >> (2 * i)) & 3 {
                        0 => Kind::C(b).mk(cs),
                        1 => Kind::Is(b).mk(cs),
                        _ => Kind::Not(!b).mk(cs),
                    }
                })
                .collect();
            UInt32::from_bits(&bits)
        }
    }
}
fn bits_val(r: &R, b: &[Boolean]) -> Option<u32> {
    if b.len() != 32 {
        return None;
    }
    let mut v = 0u32;
    for (i, x) in b.iter().enumerate() {
        let e = r.ev(&x.lc(R::one(), Fr::one()));
        if e != f(x.get_value()? as u64) {
            return None;
        }
        if x.get_value()? {
            v |= 1 << i;
        }
    }
    Some(v)
}
/// the bits, the assigned bits and the internal value of a word all equal `want`
fn word_is(c: &mut Ctx, name: &str, r: &mut R, w: &UInt32, want: u32, what: &str) {
    let b = w.clone().into_bits();
    let v = bits_val(r, &b);
    c.ob(&format!("{}: the u32 result", name), By::Ground, v == Some(want), || format!("{}: {:?} want {}", what, v, want));
    let mut be = w.clone().into_bits_be();
    be.reverse();
    let vb = bits_val(r, &be);
    c.ob("into_bits_be reverses into_bits", By::Ground, vb == v, || what.to_string());
    // the cached value of a word shows in sums: an inconsistent one gives an unsatisfied sum
    let n = r.cons.len();
    let s = {
        let mut m = MultiEq::new(&mut *r);
        UInt32::addmany(m.ns(|| "probe"), &[w.clone(), UInt32::constant(3)])
    };
    let ok = match s {
        Ok(s) => bits_val(r, &s.into_bits()) == Some(want.wrapping_add(3)) && r.violated().map_or(true, |i| i < n),
        Err(_) => false,
    };
    c.ob("the cached value of a word equals its bits", By::Ground, ok, || format!("{}: {}", name, what));
    r.cons.truncate(n);
}
fn vars_of(ws: &[UInt32]) -> Vec<Variable> {
    ws.iter().flat_map(|w| w.clone().into_bits()).filter_map(|b| bvar(&b)).collect()
}
pub fn p04(c: &mut Ctx) {
    let mut g = srng(c.seed ^ 0x44);
    let rounds = if c.thorough { 400 } else { 40 };
    for round in 0..rounds {
        if c.late() {
            break;
        }
        // unary
        for kind in 0..3u32 {
            let v = word_vals(&mut g);
            let pat = g.next_u64();
            c.set_shape(format!("unary, {}", ["constant", "allocated", "mixed bits"][kind as usize]));
            let mut r = R::new();
            let w = word(&mut r, kind, v, pat);
            let what = format!("{:#x}", v);
            word_is(c, ["constant", "alloc", "from_bits"][kind as usize], &mut r, &w, v, &what);
            let be = w.clone().into_bits_be();
            let back = UInt32::from_bits_be(&be);
            word_is(c, "from_bits_be", &mut r, &back, v, &what);
            sat(c, "words: honest witness satisfies the constraints", &r, &what);
            if kind == 1 {
                let s = Sys::of(&r);
                let bo = s.booleans();
                c.ob("alloc: every bit is boolean", By::Det, vars_of(&[w.clone()]).iter().all(|v| bo[r.num(*v)]) && vars_of(&[w.clone()]).len() == 32, || what.clone());
            }
            for by in 0..70usize {
                let x = w.rotr(by);
                let v1 = bits_val(&r, &x.clone().into_bits());
                c.ob("rotr: the u32 result", By::Ground, v1 == Some(v.rotate_right((by % 32) as u32)), || format!("{} by {}", what, by));
                if by < 32 {
                    let y = w.shr(by);
                    let v2 = bits_val(&r, &y.clone().into_bits());
                    c.ob("shr: the u32 result", By::Ground, v2 == Some(v >> by), || format!("{} by {}", what, by));
                    if round == 0 || by % 8 == 3 {
                        word_is(c, "rotr", &mut r, &x, v.rotate_right(by as u32), &format!("{} by {}", what, by));
                        word_is(c, "shr", &mut r, &y, v >> by, &format!("{} by {}", what, by));
                    }
                }
            }
        }
        // xor, ch, maj: every combination of bit values at every bit position
        let pats = [0x0f0f_0f0fu32, 0x3333_3333, 0x5555_5555];
        let rot = g.next_u32() % 32;
        let (va, vb, vc) = if round < 8 {
            let m = |i: usize| pats[i].rotate_left(round as u32);
            (m(0), m(1), m(2))
        } else {
            (word_vals(&mut g), word_vals(&mut g), word_vals(&mut g).rotate_left(rot))
        };
        let ks = [g.next_u32() % 3, g.next_u32() % 3, g.next_u32() % 3];
        let pp = [g.next_u64(), g.next_u64(), g.next_u64()];
        c.set_shape("bitwise operations on words");
        let what = format!("{:#x} {:#x} {:#x} kinds {:?}", va, vb, vc, ks);
        for (nm, want) in vec![("xor", va ^ vb), ("sha256_ch", (va & vb) ^ (!va & vc)), ("sha256_maj", (va & vb) ^ (va & vc) ^ (vb & vc))] {
            let run = |sh: bool| {
                let mut r = if sh { R::shape() } else { R::new() };
                let a = word(&mut r, ks[0], va, pp[0]);
                let b = word(&mut r, ks[1], vb, pp[1]);
                let d = word(&mut r, ks[2], vc, pp[2]);
                let o = match nm {
                    "xor" => a.xor(&mut r, &b),
                    "sha256_ch" => UInt32::sha256_ch(&mut r, &a, &b, &d),
                    _ => UInt32::sha256_maj(&mut r, &a, &b, &d),
                };
                (r, vec![a, b, d], o)
            };
            match guarded(|| run(false)) {
                Ok((mut r, ops, Ok(o))) => {
                    word_is(c, nm, &mut r, &o, want, &what);
                    sat(c, "words: honest witness satisfies the constraints", &r, &what);
                    determined(c, &format!("{}: the constraints determine the result", nm), &r, &vars_of(&ops), &vars_of(&[o]), &what);
                    if let Ok((r2, _, Ok(_))) = guarded(|| run(true)) {
                        let mut a = R::new();
                        std::mem::swap(&mut a, &mut r);
                        c.ob("the constraints do not depend on the witness", By::Ground, a.aux.len() >= r2.aux.len() && a.cons.len() == r2.cons.len(), || what.clone());
                    }
                }
                e => {
                    c.ob(&format!("{}: the u32 result", nm), By::Ground, false, || format!("{}: {}", what, e.err().unwrap_or("error".into())));
                }
            }
        }
        // sums: operand counts, kinds, several sums packed into one constraint, chained
        let n_ops = 2 + (round % 9);
        c.set_shape(format!("sums of {} words", n_ops));
        let n_sums = 1 + round % 13;
        let mut r = R::new();
        let mut pool: Vec<(UInt32, u32)> = vec![];
        for _ in 0..n_ops {
            let v = word_vals(&mut g);
            let k = if round % 5 == 4 { 0 } else { [1, 1, 2, 0][(g.next_u32() % 4) as usize] };
            let w = word(&mut r, k, v, g.next_u64());
            pool.push((w, v));
        }
        let fixed: Vec<Variable> = pool.iter().flat_map(|w| vars_of(&[w.0.clone()])).collect();
        let mut log = vec![];
        let mut outs: Vec<(UInt32, u32)> = vec![];
        let gr = guarded(|| {
            let mut m = MultiEq::new(&mut r);
            for s in 0..n_sums {
                let cnt = if s == 0 { n_ops } else { 2 + (g.next_u32() % 9) as usize };
                let ops: Vec<(UInt32, u32)> = (0..cnt).map(|i| if s == 0 { pool[i].clone() } else { pool[g.next_u32() as usize % pool.len()].clone() }).collect();
                let want = ops.iter().fold(0u32, |a, b| a.wrapping_add(b.1));
                log.push(format!("{:x?}", ops.iter().map(|o| o.1).collect::<Vec<_>>()));
                let w = UInt32::addmany(m.ns(|| format!("sum {}", s)), &ops.iter().map(|o| o.0.clone()).collect::<Vec<_>>()).map_err(|e| format!("{:?}", e))?;
                pool.push((w.clone(), want));
                outs.push((w.clone(), want));
                if s % 3 == 1 {
                    let x = w.xor(m.ns(|| format!("xor {}", s)), &pool[0].0.rotr(7)).map_err(|e| format!("{:?}", e))?;
                    let xv = want ^ pool[0].1.rotate_right(7);
                    pool.push((x, xv));
                }
            }
            Ok::<(), String>(())
        });
        let what = log.join("; ");
        let ok = gr == Ok(Ok(()));
        c.ob("addmany does not fail on 2 to 10 operands", By::Ground, ok, || format!("{}: {:?}", what, gr));
        if !ok {
            continue;
        }
        sat(c, "addmany: honest witness satisfies the constraints", &r, &what);
        for (w, v) in &outs {
            let b = bits_val(&r, &w.clone().into_bits());
            c.ob("addmany: the u32 result", By::Ground, b == Some(*v), || format!("{}: {:?} want {:#x}", what, b, v));
        }
        let tg: Vec<Variable> = outs.iter().flat_map(|w| vars_of(&[w.0.clone()])).collect();
        determined(c, "addmany: the constraints determine the result", &r, &fixed, &tg, &what);
        if let Some((w, v)) = outs.last() {
            let (w, v) = (w.clone(), *v);
            word_is(c, "addmany", &mut r, &w, v, &what);
        }
    }
    // packed equalities: none is lost, none is confused with another, no wrap-around
    c.set_shape("batched equalities");
    for t in 0..(if c.thorough { 400 } else { 60 }) {
        let n = 1 + (g.next_u32() % 12) as usize;
        let sizes: Vec<usize> = (0..n).map(|_| match g.next_u32() % 5 { 0 => 33, 1 => 36, 2 => 1 + (g.next_u32() % 60) as usize, 3 => 120, _ => 34 }).collect();
        let bad = if t % 2 == 0 { None } else { Some((g.next_u32() as usize) % n) };
        let r = guarded(|| {
            let mut r = R::new();
            let mut want = true;
            {
                let mut vs = vec![];
                for (i, s) in sizes.iter().enumerate() {
                    let top = if *s >= 64 { u64::max_value() } else { (1u64 << s) - 1 };
                    let x = match (t + i) % 3 { 0 => top, 1 => 0, _ => (g.next_u64()) & top };
                    let mut y = x;
                    if bad == Some(i) {
                        y = if x == top { x - 1 } else { x + 1 };
                        want = x == y;
                    }
                    let vx = r.alloc(|| "x", || Ok(f(x))).unwrap();
                    let vy = r.alloc(|| "y", || Ok(f(y))).unwrap();
                    vs.push((*s, vx, vy));
                }
                let mut m = MultiEq::new(&mut r);
                for (s, x, y) in vs {
                    m.enforce_equal(s, &(LinearCombination::zero() + x), &(LinearCombination::zero() + y));
                }
            }
            (want, r.violated().is_none())
        });
        let ok = match &r {
            Ok((w, s)) => w == s,
            Err(_) => false,
        };
        c.ob("MultiEq: satisfied exactly when every equality holds", By::Ground, ok, || format!("sizes {:?} bad {:?}: {:?}", sizes, bad, r));
    }
}

// ---------------------------------------------------------------- field elements, ranges
fn range(n: u64, l: Fr, rr: Fr) -> R {
    let mut r = R::new();
    let _ = RangeProof { lhs: Some(l), rhs: Some(rr), n }.generate_constraints(&mut r).map_err(|e| format!("{:?}", e)).unwrap();
    r
}
pub fn p06(c: &mut Ctx) {
    let mut g = srng(c.seed ^ 0x66);
    c.set_shape("field elements");
    let mut xs = vec![Fr::zero(), Fr::one(), -Fr::one(), f(2)];
    for _ in 0..30 {
        xs.push(g.gen());
    }
    for x in xs {
        let what = format!("{}", x);
        let mut r = R::new();
        let a = AllocatedFr::alloc(&mut r, || Ok(x)).unwrap();
        let b = AllocatedFr::alloc_input(&mut r, || Ok(x)).unwrap();
        c.ob("AllocatedFr carries its value", By::Ground, a.get_value() == Some(x) && b.get_value() == Some(x) && r.val(a.get_variable()) == x && r.val(b.get_variable()) == x, || what.clone());
        let kinds = (matches(a.get_variable()), matches(b.get_variable()));
        c.ob("alloc makes a witness, alloc_input an input", By::Ground, kinds == (false, true), || what.clone());
        // inputize
        let mut r = R::new();
        let a = AllocatedFr::alloc(&mut r, || Ok(x)).unwrap();
        let ok = a.inputize(&mut r).is_ok() && r.ins.len() == 2 && r.ins[1] == x && r.violated().is_none();
        c.ob("inputize: an input with the value", By::Ground, ok, || what.clone());
        if r.ins.len() == 2 {
            r.ins[1] = x + Fr::one();
            c.ob("inputize: no other input is accepted", By::Ground, r.violated().is_some(), || what.clone());
            r.ins[1] = x;
            determined(c, "inputize: the constraints determine the input", &r, &[a.get_variable()], &[Variable::new_unchecked(Index::Input(1))], &what);
        }
        // isnonzero
        let mut r = R::new();
        let a = AllocatedFr::alloc(&mut r, || Ok(x)).unwrap();
        let e = a.isnonzero(&mut r);
        if x.is_zero() {
            c.ob("isnonzero: refused for zero", By::Ground, e.is_err(), || what.clone());
            // no witness: take the shape and try to satisfy it
            let mut r = R::shape();
            let a = AllocatedFr::<Fr>::alloc(&mut r, || Ok(x)).unwrap();
            let _ = a.isnonzero(&mut r);
            let s = Sys::of(&r);
            let t = s.satisfiable(&[(r.num(a.get_variable()), Fr::zero())]);
            c.ob("isnonzero: no witness for zero", By::Det, t == Some(false), || format!("{:?}", t));
        } else {
            c.ob("isnonzero: satisfied for non-zero values", By::Ground, e.is_ok() && r.violated().is_none(), || what.clone());
        }
    }
    // ranges
    let mut ns: Vec<u64> = vec![1, 2, 3, 4, 7, 8, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 200, 250, 251, 252, 253];
    if c.thorough {
        ns = (1..=253).collect();
    }
    for n in ns {
        if c.late() {
            break;
        }
        c.set_shape(format!("range proof of {} bits", n));
        let top = f(2).pow(&[n]) - Fr::one();
        let mut rnd = || {
            let mut x = Fr::zero();
            for _ in 0..n {
                x = x.double() + f((g.next_u32() & 1) as u64);
            }
            x
        };
        let mut pairs = vec![];
        if n <= 3 {
            for i in 0..(1u64 << n) {
                for j in 0..(1u64 << n) {
                    pairs.push((f(i), f(j)));
                }
            }
        } else {
            let x = rnd();
            let y = rnd();
            pairs.extend(vec![(Fr::zero(), Fr::zero()), (Fr::zero(), Fr::one()), (Fr::one(), Fr::zero()), (Fr::zero(), top), (top, Fr::zero()), (top, top), (top - Fr::one(), top), (top, top - Fr::one()), (x, y), (y, x), (x, x)]);
            if x != top {
                pairs.push((x, x + Fr::one()));
                pairs.push((x + Fr::one(), x));
            }
            let h = f(2).pow(&[n - 1]);
            pairs.extend(vec![(h, h - Fr::one()), (h - Fr::one(), h), (h, top), (top, h), (Fr::zero(), h), (h, Fr::zero())]);
        }
        for (l, rr) in pairs {
            let what = format!("n={} {} < {}", n, l, rr);
            let less = l.into_repr() < rr.into_repr();
            match guarded(|| range(n, l, rr)) {
                Ok(r) => {
                    c.ob("range proof: honest witness satisfied exactly when less", By::Ground, r.violated().is_none() == less, || what.clone());
                    if !less {
                        let s = Sys::of(&r);
                        // lhs, rhs and the public 2^n are fixed; anything else is the prover's
                        let mut fx = vec![(1usize, f(2).pow(&[n]))];
                        fx.push((r.ins.len(), l));
                        fx.push((r.ins.len() + 1, rr));
                        let t = s.satisfiable(&fx);
                        c.ob("range proof: no witness when not less", By::Det, t != Some(true), || format!("{}: satisfying assignment exists", what));
                        if t.is_none() {
                            c.note(format!("undecided by propagation: {}", what));
                        }
                    }
                }
                Err(e) => {
                    c.ob("range proof: accepts every bit width up to the field's capacity", By::Ground, false, || format!("{}: {}", what, e));
                }
            }
        }
    }
}
fn matches(v: Variable) -> bool {
    if let Index::Input(_) = v.get_unchecked() {
        true
    } else {
        false
    }
}

// ---------------------------------------------------------------- lookups
type T = Rec<TFr>;
pub fn p08(c: &mut Ctx) {
    let ks = Kind::all();
    let mut idx: Vec<Vec<Kind>> = vec![];
    for a in &ks {
        idx.push(vec![*a]);
        for b in &ks {
            idx.push(vec![*a, *b]);
            for d in &ks {
                idx.push(vec![*a, *b, *d]);
            }
        }
    }
    for bits in idx {
        let nb = bits.len();
        c.set_shape(format!("{}-bit index, symbolic table", nb));
        for special in 0..3 {
            let seed = c.seed;
            tape().reset(seed, Assign::new());
            let n = 1usize << nb;
            let tab = |p: &str| -> Vec<TFr> {
                (0..n)
                    .map(|i| match special {
                        0 => TFr::input(&format!("{}{}", p, i)),
                        1 => TFr::from((i as u64) % 2),
                        _ => {
                            if i == 0 {
                                TFr::zero()
                            } else {
                                TFr::input(&format!("{}{}", p, i / 2))
                            }
                        }
                    })
                    .collect()
            };
            let (x, y) = (tab("x"), tab("y"));
            let xy: Vec<(TFr, TFr)> = x.iter().cloned().zip(y.iter().cloned()).collect();
            let at: usize = bits.iter().enumerate().map(|(i, b)| (b.value() as usize) << i).sum();
            let what = format!("index {:?}", bits);
            let run = |sh: bool, two: bool| -> Result<(T, Vec<Boolean>, Vec<AllocatedFr<TFr>>), String> {
                let mut r = if sh { T::shape() } else { T::new() };
                let b: Vec<Boolean> = bits.iter().map(|k| k.mk(&mut r)).collect();
                let e = |e: SynthesisError| format!("{:?}", e);
                let o = match (nb, two) {
                    (1, _) => vec![lookup1_x(&mut r, &b[0], &x).map_err(e)?],
                    (2, false) => vec![lookup2_x(&mut r, &b, &x).map_err(e)?],
                    (2, true) => lookup2_xy(&mut r, &b, &xy).map(|p| vec![p.0, p.1]).map_err(e)?,
                    (_, false) => vec![lookup3_x(&mut r, &b, &x).map_err(e)?],
                    (_, true) => lookup3_xy(&mut r, &b, &xy).map(|p| vec![p.0, p.1]).map_err(e)?,
                };
                Ok((r, b, o))
            };
            for two in [false, true].iter() {
                if nb == 1 && *two {
                    continue;
                }
                let nm = format!("lookup{}_{}", nb, if *two { "xy" } else { "x" });
                match guarded(|| run(false, *two)) {
                    Ok(Ok((r, b, o))) => {
                        let want = [x[at], y[at]];
                        for (k, v) in o.iter().enumerate() {
                            let got = v.get_value().unwrap_or(TFr::from(0x5eedu64));
                            c.eq(&format!("{}: the addressed entry", nm), &got, &want[k], &Assign::new());
                            let asg = r.val(v.get_variable());
                            c.eq(&format!("{}: the assigned result is the addressed entry", nm), &asg, &want[k], &Assign::new());
                        }
                        for (i, (p, q, s)) in r.cons.iter().enumerate() {
                            let d = r.ev(p) * r.ev(q);
                            let e = r.ev(s);
                            let _ = i;
                            c.eq(&format!("{}: honest witness satisfies the constraints", nm), &d, &e, &Assign::new());
                        }
                        let fx: Vec<Variable> = b.iter().filter_map(bvar).collect();
                        let tg: Vec<Variable> = o.iter().map(|v| v.get_variable()).collect();
                        determined(c, &format!("{}: the constraints determine the result", nm), &r, &fx, &tg, &what);
                        match guarded(|| run(true, *two)) {
                            Ok(Ok((r2, _, _))) => {
                                let same = r.cons.len() == r2.cons.len() && r.aux.len() == r2.aux.len() && r.cons.iter().zip(&r2.cons).all(|(a, b)| same_lc(&a.0, &b.0) && same_lc(&a.1, &b.1) && same_lc(&a.2, &b.2));
                                c.ob("the constraints do not depend on the witness", By::Ground, same, || format!("{} {}", nm, what));
                            }
                            e => {
                                c.ob("the constraints do not depend on the witness", By::Ground, false, || format!("{} {}: {:?}", nm, what, e.map(|_| ())));
                            }
                        }
                    }
                    e => {
                        c.ob(&format!("{}: the addressed entry", nm), By::Ground, false, || format!("{}: {:?}", what, e.map(|x| x.map(|_| ()))));
                    }
                }
            }
        }
    }
}
fn same_lc(a: &LinearCombination<TFr>, b: &LinearCombination<TFr>) -> bool {
    a.as_ref().len() == b.as_ref().len() && a.as_ref().iter().zip(b.as_ref()).all(|(x, y)| x.0 == y.0 && x.1.v == y.1.v)
}

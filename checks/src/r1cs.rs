//! P01 linear combinations, P02 constraint systems.
use crate::circ::*;
use crate::ctx::*;
use ark_ff::{Field, One, Zero};
use rand::RngCore;
use vmodel::*;
use zkp_r1cs::{ConstraintSystem, ConstraintVar, Index, LinearCombination, Namespace, SynthesisError, Variable};

type LC = LinearCombination<TFr>;
type CV = ConstraintVar<TFr>;
const NV: usize = 8;
fn var(k: usize) -> Variable {
    Variable::new_unchecked(if k < NV / 2 { Index::Input(k) } else { Index::Aux(k - NV / 2) })
}
/// value of the combination under the generic assignment v0..v7
fn val(l: &LC, a: &[TFr]) -> TFr {
    let mut r = TFr::zero();
    for (v, c) in l.as_ref() {
        let x = match v.get_unchecked() {
            Index::Input(i) => a[i],
            Index::Aux(i) => a[NV / 2 + i],
        };
        r += *c * x;
    }
    r
}
fn cval(l: &CV, a: &[TFr]) -> TFr {
    match l {
        ConstraintVar::LC(l) => val(l, a),
        ConstraintVar::Var(v) => val(&LC::from(*v), a),
    }
}
fn key(v: &Variable) -> (u8, usize) {
    match v.get_unchecked() {
        Index::Input(i) => (0, i),
        Index::Aux(i) => (1, i),
    }
}
fn sorted(l: &LC) -> bool {
    l.as_ref().windows(2).all(|w| key(&w[0].0) <= key(&w[1].0))
}
fn distinct(l: &LC) -> bool {
    l.as_ref().windows(2).all(|w| key(&w[0].0) < key(&w[1].0))
}
fn same(a: &LC, b: &LC) -> bool {
    a.as_ref().len() == b.as_ref().len() && a.as_ref().iter().zip(b.as_ref()).all(|(x, y)| x.0 == y.0 && x.1.v == y.1.v)
}
/// sorted operand with the given variables (repetitions allowed)
fn operand(vs: &[usize], name: &str) -> LC {
    let mut l = LC::zero();
    let mut v = vs.to_vec();
    v.sort();
    for (k, i) in v.iter().enumerate() {
        l.0.push((var(*i), TFr::input(&format!("{}{}", name, k))));
    }
    l
}
fn cvs(l: &LC) -> Vec<CV> {
    let mut r = vec![ConstraintVar::LC(l.clone())];
    if l.as_ref().len() == 1 && l.as_ref()[0].1.v == Fr::one() {
        r.push(ConstraintVar::Var(l.as_ref()[0].0));
    }
    r
}
type Fr = ark_bls12_381::Fr;
fn p01_pair(c: &mut Ctx, xs: &[usize], ys: &[usize]) {
    tape().reset(c.seed, Assign::new());
    let a: Vec<TFr> = (0..NV).map(|i| TFr::input(&format!("v{}", i))).collect();
    let x = operand(xs, "a");
    let y = operand(ys, "b");
    let s = TFr::input("s");
    let (vx, vy) = (val(&x, &a), val(&y, &a));
    let e = Assign::new();
    let (x0, y0) = (x.clone(), y.clone());
    let bin: Vec<(&str, LC, TFr)> = vec![
        ("&lc + &lc", &x + &y, vx + vy),
        ("&lc + lc", &x + y.clone(), vx + vy),
        ("lc + &lc", x.clone() + &y, vx + vy),
        ("lc + lc", x.clone() + y.clone(), vx + vy),
        ("&lc - &lc", &x - &y, vx - vy),
        ("&lc - lc", &x - y.clone(), vx - vy),
        ("lc - &lc", x.clone() - &y, vx - vy),
        ("lc - lc", x.clone() - y.clone(), vx - vy),
        ("&lc + (f, &lc)", &x + (s, &y), vx + s * vy),
        ("lc + (f, &lc)", x.clone() + (s, &y), vx + s * vy),
        ("&lc + (f, lc)", &x + (s, y.clone()), vx + s * vy),
        ("lc + (f, lc)", x.clone() + (s, y.clone()), vx + s * vy),
        ("&lc - (f, &lc)", &x - (s, &y), vx - s * vy),
        ("lc - (f, &lc)", x.clone() - (s, &y), vx - s * vy),
        ("&lc - (f, lc)", &x - (s, y.clone()), vx - s * vy),
        ("lc - (f, lc)", x.clone() - (s, y.clone()), vx - s * vy),
    ];
    for (op, r, want) in bin {
        c.eq(&format!("impl_lc: value of {}", op), &val(&r, &a), &want, &e);
        c.ob("impl_lc::op_impl: result is sorted by variable", By::Ground, sorted(&r), || format!("{}: {:?}", op, vars(&r)));
        if distinct(&x) && distinct(&y) {
            c.ob("impl_lc::op_impl: no variable is repeated when no operand repeats one", By::Ground, distinct(&r), || format!("{}: {:?}", op, vars(&r)));
        }
    }
    c.ob("impl_lc: operands passed by reference are unchanged", By::Ground, same(&x, &x0) && same(&y, &y0), || "operand changed".into());
    // constraint variables
    let one_x = if xs.len() == 1 { let mut l = LC::zero(); l.0.push((var(xs[0]), TFr::one())); Some(l) } else { None };
    let one_y = if ys.len() == 1 { let mut l = LC::zero(); l.0.push((var(ys[0]), TFr::one())); Some(l) } else { None };
    for cx in cvs(&x).into_iter().chain(one_x.iter().flat_map(cvs)) {
        let ux = cval(&cx, &a);
        let z = val(&(cx.clone() + y.clone()), &a);
        c.eq("ConstraintVar: value of var + lc", &z, &(ux + vy), &e);
        let z = val(&(cx.clone() - y.clone()), &a);
        c.eq("ConstraintVar: value of var - lc", &z, &(ux - vy), &e);
        let z = val(&(&cx + y.clone()), &a);
        c.eq("ConstraintVar: value of &var + lc", &z, &(ux + vy), &e);
        let z = val(&(&cx - y.clone()), &a);
        c.eq("ConstraintVar: value of &var - lc", &z, &(ux - vy), &e);
        for cy in cvs(&y).into_iter().chain(one_y.iter().flat_map(cvs)) {
            let uy = cval(&cy, &a);
            let t: Vec<(&str, CV, TFr)> = vec![
                ("var + &var", cx.clone() + &cy, ux + uy),
                ("var - &var", cx.clone() - &cy, ux - uy),
                ("&var + &var", &cx + &cy, ux + uy),
                ("&var - &var", &cx - &cy, ux - uy),
                ("var + (f, &var)", cx.clone() + (s, &cy), ux + s * uy),
                ("var - (f, &var)", cx.clone() - (s, &cy), ux - s * uy),
            ];
            for (op, r, want) in t {
                c.eq(&format!("ConstraintVar: value of {}", op), &cval(&r, &a), &want, &e);
            }
        }
        for (op, r, want) in vec![
            ("-var", -cx.clone(), -ux),
            ("var * f", cx.clone() * s, ux * s),
            ("negate_in_place", { let mut q = cx.clone(); q.negate_in_place(); q }, -ux),
            ("double_in_place", { let mut q = cx.clone(); q.double_in_place(); q }, ux + ux),
            ("var *= f", { let mut q = cx.clone(); q *= s; q }, ux * s),
            ("from (f, var)", CV::from((s, cx.clone())), s * ux),
        ] {
            c.eq(&format!("ConstraintVar: value of {}", op), &cval(&r, &a), &want, &e);
        }
        for k in 0..NV {
            for (op, r, want) in vec![
                ("var + (f, variable)", cx.clone() + (s, var(k)), ux + s * a[k]),
                ("var - (f, variable)", cx.clone() - (s, var(k)), ux - s * a[k]),
                ("var + variable", cx.clone() + var(k), ux + a[k]),
                ("var - variable", cx.clone() - var(k), ux - a[k]),
                ("var += (f, variable)", { let mut q = cx.clone(); q += (s, var(k)); q }, ux + s * a[k]),
            ] {
                c.eq(&format!("ConstraintVar: value of {}", op), &cval(&r, &a), &want, &e);
            }
        }
    }
}
fn vars(l: &LC) -> Vec<(u8, usize)> {
    l.as_ref().iter().map(|t| key(&t.0)).collect()
}
fn p01_single(c: &mut Ctx, xs: &[usize]) {
    tape().reset(c.seed, Assign::new());
    let a: Vec<TFr> = (0..NV).map(|i| TFr::input(&format!("v{}", i))).collect();
    let x = operand(xs, "a");
    let s = TFr::input("s");
    let vx = val(&x, &a);
    let e = Assign::new();
    let mut t: Vec<(&str, LC, TFr)> = vec![
        ("-lc", -x.clone(), -vx),
        ("lc * f", x.clone() * s, vx * s),
        ("lc *= f", { let mut q = x.clone(); q *= s; q }, vx * s),
        ("negate_in_place", { let mut q = x.clone(); q.negate_in_place(); q }, -vx),
        ("double_in_place", { let mut q = x.clone(); q.double_in_place(); q }, vx + vx),
        ("replace_in_place", { let mut q = operand(&[1, 3, 5], "z"); q.replace_in_place(x.clone()); q }, vx),
        ("zero", LC::zero(), TFr::zero()),
    ];
    for k in 0..NV {
        t.push(("lc + (f, variable)", x.clone() + (s, var(k)), vx + s * a[k]));
        t.push(("lc - (f, variable)", x.clone() - (s, var(k)), vx - s * a[k]));
        t.push(("lc + variable", x.clone() + var(k), vx + a[k]));
        t.push(("lc - variable", x.clone() - var(k), vx - a[k]));
        t.push(("lc += (f, variable)", { let mut q = x.clone(); q += (s, var(k)); q }, vx + s * a[k]));
        t.push(("from (f, variable)", LC::from((s, var(k))), s * a[k]));
        t.push(("from variable", LC::from(var(k)), a[k]));
        // location: an occurrence, or a place where insertion keeps the order
        let v = var(k);
        let ok = match x.get_var_loc(&v) {
            Ok(i) => i < x.as_ref().len() && x.as_ref()[i].0 == v,
            Err(i) => i <= x.as_ref().len() && x.as_ref()[..i].iter().all(|t| key(&t.0) <= key(&v)) && x.as_ref()[i..].iter().all(|t| key(&t.0) >= key(&v)),
        };
        c.ob("impl_lc::get_var_loc: an occurrence, or a position that keeps the order", By::Ground, ok, || format!("{:?} in {:?}", key(&v), vars(&x)));
    }
    for (op, r, want) in t {
        c.eq(&format!("impl_lc: value of {}", op), &val(&r, &a), &want, &e);
        c.ob("impl_lc: terms stay sorted by variable", By::Ground, sorted(&r), || format!("{}: {:?}", op, vars(&r)));
    }
}
pub fn p01(c: &mut Ctx) {
    let mut r = XorRng(c.seed * 2 + 1, 0x101);
    let sub = |m: usize| -> Vec<usize> { [0usize, 2, 4, 5, 7].iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, v)| *v).collect() };
    c.set_shape("all pairs of subsets of 5 variables (2 inputs, 3 auxiliary)");
    for m in 0..32 {
        p01_single(c, &sub(m));
        for n in 0..32 {
            p01_pair(c, &sub(m), &sub(n));
        }
    }
    let n = if c.thorough { 3000 } else { 150 };
    c.set_shape("random operands of 0..20 terms over 8 variables, repeated variables included");
    for _ in 0..n {
        if c.late() {
            break;
        }
        let mut rl = |c: usize| -> Vec<usize> { (0..r.next_u64() as usize % c).map(|_| r.next_u64() as usize % NV).collect() };
        let (x, y) = (rl(20), rl(12));
        p01_single(c, &x);
        p01_pair(c, &x, &y);
    }
    // sequences
    c.set_shape("random histories of up to 40 operations");
    for k in 0..n {
        if c.late() {
            break;
        }
        tape().reset(c.seed + k as u64, Assign::new());
        let a: Vec<TFr> = (0..NV).map(|i| TFr::input(&format!("v{}", i))).collect();
        let mut l = LC::zero();
        let mut want = TFr::zero();
        let len = 1 + r.next_u64() as usize % 40;
        let mut hist = vec![];
        for j in 0..len {
            let v = r.next_u64() as usize % NV;
            let f = if r.next_u64() % 3 == 0 { TFr::cst(Fr::from(r.next_u64() % 3)) } else { TFr::input(&format!("f{}", j)) };
            let op = r.next_u64() % 9;
            hist.push((op, v));
            match op {
                0 => { l = l + (f, var(v)); want += f * a[v] }
                1 => { l = l - (f, var(v)); want -= f * a[v] }
                2 => { l = l + var(v); want += a[v] }
                3 => { l = l - var(v); want -= a[v] }
                4 => { l = -l; want = -want }
                5 => { l = l * f; want *= f }
                6 => { let o = l.clone() * f; l = l + &o; want = want + want * f }
                7 => { let o = LC::from((f, var(v))) + var((v + 1) % NV); l = l - (f, &o); want -= f * (f * a[v] + a[(v + 1) % NV]) }
                _ => { l += (f, var(v)); want += f * a[v] }
            }
        }
        c.eq("impl_lc: value after a history of operations", &val(&l, &a), &want, &Assign::new());
        c.ob("impl_lc: terms stay sorted by variable", By::Ground, sorted(&l), || format!("{:?}", hist));
    }
}

#[path = "/repo/gadgets/src/test_constraint_system.rs"]
#[allow(dead_code, unused_imports)]
mod tcs;
pub use tcs::TestConstraintSystem;
type TCS = TestConstraintSystem<TFr>;

/// reference record of a history
#[derive(Default)]
struct Ref {
    ns: Vec<String>,
    objs: Vec<(String, Option<Variable>)>,
    ins: Vec<(TFr, String)>,
    aux: Vec<(TFr, String)>,
    cons: Vec<(Vec<(V, TFr)>, Vec<(V, TFr)>, Vec<(V, TFr)>, String)>,
}
impl Ref {
    fn path(&self, n: &str) -> String {
        let mut p = self.ns.clone();
        p.push(n.into());
        p.join("/")
    }
    fn ev(&self, l: &[(V, TFr)]) -> Fr {
        use V::*;
        l.iter().map(|(v, c)| c.v * match v { One => self.ins[0].0.v, In(i) => self.ins[*i].0.v, Aux(i) => self.aux[*i].0.v }).sum()
    }
    fn first_bad(&self) -> Option<String> {
        self.cons.iter().find(|(a, b, c, _)| self.ev(a) * self.ev(b) != self.ev(c)).map(|t| t.3.clone())
    }
}
fn to_lc(l: &[(V, TFr)], base: LC) -> LC {
    let mut r = base;
    for (v, c) in l {
        let v = match v {
            V::One => TCS::one(),
            V::In(i) => Variable::new_unchecked(Index::Input(*i)),
            V::Aux(i) => Variable::new_unchecked(Index::Aux(*i)),
        };
        r = r + (*c, v);
    }
    r
}
/// one action in the given (possibly nested) system; returns false when the action must panic
fn act<CS: ConstraintSystem<TFr>>(c: &mut Ctx, cs: &mut CS, m: &mut Ref, r: &mut XorRng, depth: usize, left: &mut usize) {
    let n = 1 + r.next_u64() as usize % 5;
    for _ in 0..n {
        if *left == 0 {
            return;
        }
        *left -= 1;
        let name = format!("n{}", m.objs.len());
        match r.next_u64() % 6 {
            0 => {
                let v = TFr::input(&format!("x{}", m.ins.len()));
                let got = cs.alloc_input(|| name.clone(), || Ok(v)).unwrap();
                let ok = got.get_unchecked() == Index::Input(m.ins.len());
                c.ob("alloc_input: consecutive indices, the constant one first", By::Ground, ok, || format!("{:?}", got));
                let p = m.path(&name);
                m.ins.push((v, p.clone()));
                m.objs.push((p, Some(got)));
            }
            1 => {
                let v = TFr::input(&format!("w{}", m.aux.len()));
                let got = cs.alloc(|| name.clone(), || Ok(v)).unwrap();
                let ok = got.get_unchecked() == Index::Aux(m.aux.len());
                c.ob("alloc: consecutive indices", By::Ground, ok, || format!("{:?}", got));
                let p = m.path(&name);
                m.aux.push((v, p.clone()));
                m.objs.push((p, Some(got)));
            }
            2 | 3 if depth < 5 => {
                let p = m.path(&name);
                m.objs.push((p, None));
                m.ns.push(name.clone());
                {
                    let mut sub = cs.ns(|| name.clone());
                    if r.next_u64() % 2 == 0 {
                        let mut rf = &mut sub;
                        act2(c, &mut rf, m, r, depth + 1, left);
                    } else {
                        act2(c, &mut sub, m, r, depth + 1, left);
                    }
                }
                m.ns.pop();
            }
            _ => {
                let mut side = |r: &mut XorRng, k: usize| -> Vec<(V, TFr)> {
                    (0..r.next_u64() as usize % 4).map(|j| {
                        let v = match r.next_u64() % 3 {
                            0 if !m.aux.is_empty() => V::Aux(r.next_u64() as usize % m.aux.len()),
                            1 if m.ins.len() > 1 => V::In(1 + r.next_u64() as usize % (m.ins.len() - 1)),
                            _ => V::One,
                        };
                        (v, TFr::input(&format!("k{}_{}_{}", m.objs.len(), k, j)))
                    }).collect()
                };
                let (a, b, mut e) = (side(r, 0), side(r, 1), side(r, 2));
                if r.next_u64() % 4 > 0 {
                    // make it hold now
                    let d = m.ev(&a) * m.ev(&b) - m.ev(&e);
                    e.push((V::One, TFr::cst(d)));
                }
                let p = m.path(&name);
                cs.enforce(|| name.clone(), |l| to_lc(&a, l), |l| to_lc(&b, l), |l| to_lc(&e, l));
                m.objs.push((p.clone(), None));
                m.cons.push((a, b, e, p));
            }
        }
    }
}
// dynamic dispatch over nesting would need an object-safe trait: bound the static nesting instead
fn act2<'a, 'b, CS: ConstraintSystem<TFr>>(c: &mut Ctx, cs: &mut CS, m: &mut Ref, r: &mut XorRng, depth: usize, left: &mut usize) {
    struct W<'x, R: ConstraintSystem<TFr>>(&'x mut R);
    let _ = std::marker::PhantomData::<W<'_, CS>>;
    act(c, cs.get_root(), m, r, depth, left)
}
pub fn p02(c: &mut Ctx) {
    let n = if c.thorough { 4000 } else { 250 };
    c.set_shape("random histories of up to 60 allocations, constraints and nested namespaces");
    for k in 0..n {
        if c.late() {
            break;
        }
        tape().reset(c.seed * 1000 + k, Assign::new());
        tape().off = false;
        let mut r = XorRng(c.seed * 77 + k * 2 + 1, 0x202);
        let mut cs = TCS::new();
        let mut m = Ref::default();
        m.ins.push((TFr::one(), "ONE".into()));
        m.objs.push(("ONE".into(), Some(TCS::one())));
        let mut left = 60usize;
        for _ in 0..6 {
            act(c, &mut cs, &mut m, &mut r, 0, &mut left);
            judge(c, &cs, &m);
        }
        c.ob("num_constraints, num_inputs count what was stated", By::Ground, cs.num_constraints() == m.cons.len() && cs.num_inputs() == m.ins.len(), || format!("{} {} vs {} {}", cs.num_constraints(), cs.num_inputs(), m.cons.len(), m.ins.len()));
        // read back, overwrite
        for (p, v) in m.objs.iter() {
            if let Some(v) = v {
                let want = match v.get_unchecked() { Index::Input(i) => m.ins[i].0, Index::Aux(i) => m.aux[i].0 };
                let got = guarded(|| cs.get(p));
                c.ob("get: the value stored at the path", By::Ground, got.as_ref().map_or(false, |g| g.v == want.v), || format!("{}", p));
            } else {
                let got = guarded(|| cs.get(p));
                c.ob("get: refuses a path that is no variable", By::Ground, got.is_err(), || p.clone());
            }
        }
        c.ob("get: refuses an unknown path", By::Ground, guarded(|| cs.get("nowhere")).is_err(), || "nowhere".into());
        for i in 0..m.ins.len() {
            let (p, v) = (m.ins[i].1.clone(), m.ins[i].0);
            let got = guarded(|| cs.get_input(i, &p));
            c.ob("get_input: the value and name of the input", By::Ground, got.map_or(false, |g| g.v == v.v), || p);
        }
        let exp: Vec<TFr> = m.ins[1..].iter().map(|t| t.0).collect();
        c.ob("verify: accepts the public inputs in order", By::Ground, cs.verify(&exp), || "rejected".into());
        for i in 0..exp.len() {
            let mut e2 = exp.clone();
            e2[i] += TFr::one();
            c.ob("verify: rejects other public inputs", By::Ground, !cs.verify(&e2), || format!("input {}", i));
        }
        let all: Vec<(String, Variable)> = m.objs.iter().filter_map(|(p, v)| v.map(|v| (p.clone(), v))).collect();
        for (j, (p, v)) in all.iter().enumerate().skip(1).take(12) {
            let nv = TFr::input(&format!("new{}", j));
            cs.set(p, nv);
            match v.get_unchecked() { Index::Input(i) => m.ins[i].0 = nv, Index::Aux(i) => m.aux[i].0 = nv }
            judge(c, &cs, &m);
            let all_same = all.iter().all(|(p, v)| cs.get(p).v == match v.get_unchecked() { Index::Input(i) => m.ins[i].0.v, Index::Aux(i) => m.aux[i].0.v });
            c.ob("set: overwrites exactly the named value", By::Ground, all_same, || p.clone());
        }
        // a path is given only once
        let dup = m.objs[r.next_u64() as usize % m.objs.len()].0.clone();
        if !dup.contains('/') {
            let kind = r.next_u64() % 4;
            let g = guarded(|| match kind {
                0 => { let _ = cs.alloc(|| dup.clone(), || Ok(TFr::one())); }
                1 => { let _ = cs.alloc_input(|| dup.clone(), || Ok(TFr::one())); }
                2 => { cs.enforce(|| dup.clone(), |l| l, |l| l, |l| l); }
                _ => { cs.push_namespace(|| dup.clone()); }
            });
            c.ob("two items cannot share a path", By::Ground, g.is_err(), || dup.clone());
        }
        let g = guarded(|| { let _ = cs.alloc(|| "a/b", || Ok(TFr::one())); });
        c.ob("names containing the separator are refused", By::Ground, g.is_err(), || "a/b".into());
        let g = guarded(|| cs.alloc(|| "missing", || Err(SynthesisError::AssignmentMissing)).is_err());
        c.ob("alloc passes on the error of the assignment", By::Ground, matches!(g, Ok(true)), || "no error".into());
    }
    // explored satisfaction: every constraint of a symbolic circuit is one branch
    for k in 0..(if c.thorough { 40 } else { 12 }) {
        let s = Shape { n_in: 1 + k % 3, n_aux: 1 + k % 5, n_con: 1 + k % 6, terms: 1 + k % 4, small: false, seed: 900 + k as u64 };
        c.set_shape(s.to_string());
        tape().reset(c.seed + k as u64, Assign::new());
        let circ = Circ::make(&s);
        let run = |x: &Circ| {
            use zkp_r1cs::ConstraintSynthesizer;
            let mut cs = TCS::new();
            x.clone().generate_constraints(&mut cs).unwrap();
            (cs.which_is_unsatisfied().map(|s| s.to_string()), cs.is_satisfied(), cs.hash())
        };
        let (w, ok, h) = run(&circ);
        c.ob("a satisfied symbolic circuit is reported satisfied", By::Pit, w.is_none() && ok, || format!("{:?}", w));
        for (name, bad) in circ.wrong(c.seed) {
            let (w, ok, h2) = run(&bad);
            c.ob("a violated circuit is reported unsatisfied", By::Pit, w.is_some() && !ok, || name.clone());
            c.ob("hash depends on the constraints only", By::Ground, h == h2, || name.clone());
        }
        for (name, o) in circ.other(c.seed) {
            let (_, _, h2) = run(&o);
            if o.cons.len() == circ.cons.len() {
                c.ob("hash distinguishes different constraints", By::Ground, h != h2, || name.clone());
            }
        }
        // shape-only system: constraints do not depend on the assignment
        let (a, b) = (record(&circ), record(&circ.with_values(vec![TFr::zero(); circ.ins.len()], vec![TFr::zero(); circ.aux.len()])));
        c.ob("the same constraints are seen whatever the assignment", By::Ground, a == b, || "differ".into());
    }
}
fn judge(c: &mut Ctx, cs: &TCS, m: &Ref) {
    let want = m.first_bad();
    let got = cs.which_is_unsatisfied().map(|s| s.to_string());
    c.ob("which_is_unsatisfied: the first violated constraint", By::Ground, got == want, || format!("got {:?} want {:?}", got, want));
    c.ob("is_satisfied: exactly when every constraint holds", By::Ground, cs.is_satisfied() == want.is_none(), || format!("{:?}", want));
}
fn record(x: &Circ) -> Vec<String> {
    use zkp_r1cs::ConstraintSynthesizer;
    let mut r = crate::rec::Rec::<TFr>::new();
    x.clone().generate_constraints(&mut r).unwrap();
    r.cons.iter().map(|t| format!("{:?}", (t.0.as_ref().iter().map(|x| (key(&x.0), x.1.v)).collect::<Vec<_>>(), t.1.as_ref().iter().map(|x| (key(&x.0), x.1.v)).collect::<Vec<_>>(), t.2.as_ref().iter().map(|x| (key(&x.0), x.1.v)).collect::<Vec<_>>()))).collect()
}
#[allow(dead_code)]
fn unused(_: Namespace<'_, TFr, TCS>) {}

//! Do the emitted constraints determine a variable?
//!
//! `structural`: value-independent propagation.  A variable is determined when it is the only
//! undetermined one of a constraint and occurs there linearly with a constant coefficient, or
//! when it is a boolean-constrained variable of a linear constraint whose undetermined part is a
//! superincreasing combination of boolean-constrained variables (packed words are split where the
//! low part cannot carry).  What it determines, it determines for every assignment of the fixed
//! variables.
//!
//! `second_witness`: for what is left, searches a second satisfying assignment with the same
//! fixed variables; only such an assignment, fully evaluated, counts as a violation.
use ark_bls12_381::Fr;
use ark_ff::{Field, One, PrimeField, SquareRootField, Zero};
use num_bigint::BigInt;
use std::collections::{BTreeMap, VecDeque};
use zkp_r1cs::Index;

use crate::rec::Rec;

#[derive(Clone, Default)]
pub struct Lin {
    pub k: Fr,
    pub t: Vec<(usize, Fr)>,
}
pub struct Sys {
    pub n_in: usize,
    pub vals: Vec<Fr>,
    pub cons: Vec<[Lin; 3]>,
    pub occ: Vec<Vec<usize>>,
}
/// a field type whose elements have a BLS12-381 scalar value
pub trait Val: PrimeField {
    fn v(&self) -> Fr;
}
impl Val for Fr {
    fn v(&self) -> Fr {
        *self
    }
}
impl Val for vmodel::TFr {
    fn v(&self) -> Fr {
        self.v
    }
}
impl Sys {
    pub fn of<F: Val>(r: &Rec<F>) -> Sys {
        let n_in = r.ins.len();
        let mut vals: Vec<Fr> = r.ins.iter().map(|x| x.v()).collect();
        vals.extend(r.aux.iter().map(|x| x.v()));
        let lin = |l: &zkp_r1cs::LinearCombination<F>| {
            let mut k = Fr::zero();
            let mut m: BTreeMap<usize, Fr> = BTreeMap::new();
            for (v, c) in l.as_ref() {
                match v.get_unchecked() {
                    Index::Input(0) => k += c.v(),
                    Index::Input(i) => *m.entry(i).or_insert(Fr::zero()) += c.v(),
                    Index::Aux(i) => *m.entry(n_in + i).or_insert(Fr::zero()) += c.v(),
                }
            }
            Lin { k, t: m.into_iter().filter(|x| !x.1.is_zero()).collect() }
        };
        let cons: Vec<[Lin; 3]> = r.cons.iter().map(|(a, b, c)| [lin(a), lin(b), lin(c)]).collect();
        let mut occ = vec![vec![]; vals.len()];
        for (i, c) in cons.iter().enumerate() {
            for l in c {
                for (v, _) in &l.t {
                    if occ[*v].last() != Some(&i) {
                        occ[*v].push(i);
                    }
                }
            }
        }
        Sys { n_in, vals, cons, occ }
    }
    pub fn ev(l: &Lin, v: &[Fr]) -> Fr {
        let mut r = l.k;
        for (i, c) in &l.t {
            r += *c * v[*i];
        }
        r
    }
    pub fn violated(&self, v: &[Fr]) -> Option<usize> {
        self.cons.iter().position(|c| Self::ev(&c[0], v) * Self::ev(&c[1], v) != Self::ev(&c[2], v))
    }
    /// the linear form that must vanish, when one factor of the constraint is constant
    fn linear(c: &[Lin; 3]) -> Option<Lin> {
        let (s, l) = if c[0].t.is_empty() {
            (c[0].k, &c[1])
        } else if c[1].t.is_empty() {
            (c[1].k, &c[0])
        } else {
            return None;
        };
        let mut m: BTreeMap<usize, Fr> = BTreeMap::new();
        for (i, x) in &l.t {
            *m.entry(*i).or_insert(Fr::zero()) += *x * s;
        }
        for (i, x) in &c[2].t {
            *m.entry(*i).or_insert(Fr::zero()) -= *x;
        }
        Some(Lin { k: l.k * s - c[2].k, t: m.into_iter().filter(|x| !x.1.is_zero()).collect() })
    }
    /// variables that a constraint of their own restricts to {0, 1}
    pub fn booleans(&self) -> Vec<bool> {
        let mut b = vec![false; self.vals.len()];
        for c in &self.cons {
            let mut vs: Vec<usize> = c.iter().flat_map(|l| l.t.iter().map(|x| x.0)).collect();
            vs.sort();
            vs.dedup();
            if vs.len() != 1 {
                continue;
            }
            let f = |x: Fr| {
                let e = |l: &Lin| l.k + l.t.iter().map(|t| t.1 * x).fold(Fr::zero(), |a, b| a + b);
                e(&c[0]) * e(&c[1]) - e(&c[2])
            };
            if f(Fr::zero()).is_zero() && f(Fr::one()).is_zero() && !f(Fr::from(2u64)).is_zero() {
                b[vs[0]] = true;
            }
        }
        // a variable computed from up to four boolean ones, and 0 or 1 for each of their values
        loop {
            let mut more = false;
            for c in &self.cons {
                let mut vs: Vec<usize> = c.iter().flat_map(|l| l.t.iter().map(|x| x.0)).collect();
                vs.sort();
                vs.dedup();
                let open: Vec<usize> = vs.iter().cloned().filter(|v| !b[*v]).collect();
                if open.len() != 1 || vs.len() > 5 {
                    continue;
                }
                let (o, known): (usize, Vec<usize>) = (open[0], vs.iter().cloned().filter(|v| *v != open[0]).collect());
                let mut ok = true;
                // constraints among the known ones alone (a product used here as a variable)
                let mut side: Vec<&[Lin; 3]> = vec![];
                for k in &known {
                    if self.occ[*k].len() > 4000 {
                        continue;
                    }
                    for i in &self.occ[*k] {
                        let d = &self.cons[*i];
                        let n = d.iter().map(|l| l.t.len()).sum::<usize>();
                        if n <= 8 && d.iter().all(|l| l.t.iter().all(|t| known.contains(&t.0))) {
                            side.push(d);
                        }
                    }
                }
                for bits in 0..(1u32 << known.len()) {
                    let kv = |v: usize| Fr::from(((bits >> known.iter().position(|k| *k == v).unwrap()) & 1) as u64);
                    let ke = |l: &Lin| l.k + l.t.iter().map(|t| t.1 * kv(t.0)).fold(Fr::zero(), |a, b| a + b);
                    if side.iter().any(|d| ke(&d[0]) * ke(&d[1]) != ke(&d[2])) {
                        continue;
                    }
                    let at = |v: usize, x: Fr| if v == o { x } else { Fr::from(((bits >> known.iter().position(|k| *k == v).unwrap()) & 1) as u64) };
                    let f = |x: Fr| {
                        let e = |l: &Lin| l.k + l.t.iter().map(|t| t.1 * at(t.0, x)).fold(Fr::zero(), |a, b| a + b);
                        e(&c[0]) * e(&c[1]) - e(&c[2])
                    };
                    // degree at most two in x: at most the roots 0 and 1
                    let (f0, f1, f2) = (f(Fr::zero()), f(Fr::one()), f(Fr::from(2u64)));
                    let lin = f2 - f1 == f1 - f0;
                    let good = if lin { f0 != f1 && (f0.is_zero() || f1.is_zero()) } else { f0.is_zero() && f1.is_zero() };
                    if !good {
                        ok = false;
                        break;
                    }
                }
                if ok {
                    b[o] = true;
                    more = true;
                }
            }
            if !more {
                break;
            }
        }
        b
    }
    /// determined[v] for every variable, when exactly the variables of `fixed` are given
    pub fn structural(&self, fixed: &[usize]) -> Vec<bool> {
        let boolean = self.booleans();
        let mut det = vec![false; self.vals.len()];
        det[0] = true;
        for f in fixed {
            det[*f] = true;
        }
        let lins: Vec<Option<(Vec<(usize, BigInt, u64)>, bool)>> = self
            .cons
            .iter()
            .map(|c| {
                Self::linear(c).map(|l| {
                    let t: Vec<(usize, BigInt, u64)> = l
                        .t
                        .iter()
                        .map(|(i, x)| {
                            let a = abs(&signed(*x));
                            let z = a.trailing_zeros().unwrap_or(0);
                            (*i, a, z)
                        })
                        .collect();
                    let total: BigInt = t.iter().map(|t| t.1.clone()).sum();
                    let small = total < modulus();
                    (t, small)
                })
            })
            .collect();
        let mut queue: VecDeque<usize> = (0..self.cons.len()).collect();
        let mut inq = vec![true; self.cons.len()];
        while let Some(i) = queue.pop_front() {
            inq[i] = false;
            let mut new = vec![];
            let c = &self.cons[i];
            if let Some((l, small)) = &lins[i] {
                let u: Vec<&(usize, BigInt, u64)> = l.iter().filter(|t| !det[t.0]).collect();
                if u.len() == 1 {
                    new.push(u[0].0);
                } else if u.len() > 1 && u.iter().all(|t| boolean[t.0]) {
                    new = unpack(&u, *small);
                }
            } else if c[0].t.iter().chain(c[1].t.iter()).all(|t| det[t.0]) {
                let u: Vec<usize> = c[2].t.iter().map(|t| t.0).filter(|v| !det[*v]).collect();
                if u.len() == 1 {
                    new.push(u[0]);
                }
            }
            for v in new {
                if !det[v] {
                    det[v] = true;
                    for j in &self.occ[v] {
                        if !inq[*j] {
                            inq[*j] = true;
                            queue.push_back(*j);
                        }
                    }
                }
            }
        }
        det
    }
    /// a satisfying assignment that agrees on `fixed` and differs on a target
    pub fn second_witness(&self, fixed: &[usize], targets: &[usize], tries: usize) -> Option<(usize, Vec<Fr>)> {
        let det = self.structural(fixed);
        let boolean = self.booleans();
        let mut cand: Vec<usize> = targets.iter().cloned().filter(|t| !det[*t]).collect();
        if cand.is_empty() {
            return None;
        }
        let rest: Vec<usize> = (1..self.vals.len()).filter(|v| !det[*v] && !cand.contains(v)).collect();
        // the earliest open variable is usually the culprit; then the targets themselves
        let mut order: Vec<usize> = vec![];
        let (mut a, mut b) = (rest.into_iter(), std::mem::take(&mut cand).into_iter());
        loop {
            let (x, y) = (a.next(), b.next());
            order.extend(x);
            order.extend(y);
            if x.is_none() && y.is_none() {
                break;
            }
        }
        let start = std::time::Instant::now();
        for u in order.into_iter().take(tries) {
            if !search_time(start.elapsed()) {
                return None;
            }
            let h = self.vals[u];
            let mut alts = vec![];
            if boolean[u] {
                alts.push(Fr::one() - h);
            } else {
                alts.extend(vec![h + Fr::from(7u64), -h, Fr::one() - h, Fr::zero(), Fr::from(0x1234567u64)]);
            }
            for a in alts {
                if a == h {
                    continue;
                }
                if let Some(w) = self.complete(fixed, u, a, &boolean) {
                    for t in targets {
                        if w[*t] != self.vals[*t] {
                            return Some((*t, w));
                        }
                    }
                }
            }
        }
        None
    }
    fn complete(&self, fixed: &[usize], u: usize, a: Fr, boolean: &[bool]) -> Option<Vec<Fr>> {
        let n = self.vals.len();
        let mut val: Vec<Option<Fr>> = vec![None; n];
        val[0] = Some(Fr::one());
        for f in fixed {
            val[*f] = Some(self.vals[*f]);
        }
        val[u] = Some(a);
        let mut free = 0..n;
        loop {
            if !self.propagate(&mut val, boolean) {
                return None;
            }
            // what stays open keeps its honest value
            match free.by_ref().find(|i| val[*i].is_none()) {
                Some(i) => val[i] = Some(self.vals[i]),
                None => break,
            }
        }
        let w: Vec<Fr> = val.into_iter().map(|x| x.unwrap()).collect();
        if self.violated(&w).is_some() {
            None
        } else {
            Some(w)
        }
    }
    fn propagate(&self, val: &mut Vec<Option<Fr>>, boolean: &[bool]) -> bool {
        let mut queue: VecDeque<usize> = (0..self.cons.len()).collect();
        let mut inq = vec![true; self.cons.len()];
        while let Some(i) = queue.pop_front() {
            inq[i] = false;
            let c = &self.cons[i];
            let part = |l: &Lin, val: &[Option<Fr>]| {
                let mut k = l.k;
                let mut t = vec![];
                for (v, x) in &l.t {
                    match val[*v] {
                        Some(y) => k += *x * y,
                        None => t.push((*v, *x)),
                    }
                }
                Lin { k, t }
            };
            let p = [part(&c[0], val), part(&c[1], val), part(&c[2], val)];
            let mut new: Vec<(usize, Fr)> = vec![];
            let mut us: Vec<usize> = p.iter().flat_map(|l| l.t.iter().map(|x| x.0)).collect();
            us.sort();
            us.dedup();
            if us.is_empty() {
                if p[0].k * p[1].k != p[2].k {
                    return false;
                }
                continue;
            }
            if us.len() == 1 {
                let co = |l: &Lin| l.t.first().map(|t| t.1).unwrap_or(Fr::zero());
                let (a2, a1, a0) = (
                    co(&p[0]) * co(&p[1]),
                    co(&p[0]) * p[1].k + co(&p[1]) * p[0].k - co(&p[2]),
                    p[0].k * p[1].k - p[2].k,
                );
                if a2.is_zero() {
                    if a1.is_zero() {
                        if !a0.is_zero() {
                            return false;
                        }
                        continue;
                    }
                    new.push((us[0], -a0 * a1.inverse().unwrap()));
                } else {
                    if boolean[us[0]] {
                        let (z, o) = (a0.is_zero(), (a2 + a1 + a0).is_zero());
                        match (z, o) {
                            (true, true) => continue,
                            (true, false) => new.push((us[0], Fr::zero())),
                            (false, true) => new.push((us[0], Fr::one())),
                            (false, false) => return false,
                        }
                        val[us[0]] = Some(new[0].1);
                        for j in &self.occ[us[0]] {
                            if !inq[*j] {
                                inq[*j] = true;
                                queue.push_back(*j);
                            }
                        }
                        continue;
                    }
                    let d = a1 * a1 - Fr::from(4u64) * a2 * a0;
                    match d.sqrt() {
                        None => return false,
                        Some(s) => {
                            let h = (a2 + a2).inverse().unwrap();
                            let (r1, r2) = ((s - a1) * h, (-s - a1) * h);
                            if r1 == r2 {
                                new.push((us[0], r1));
                            } else {
                                continue;
                            }
                        }
                    }
                }
            } else if let Some(l) = Self::linear(&p) {
                if l.t.len() == 1 {
                    new.push((l.t[0].0, -l.k * l.t[0].1.inverse().unwrap()));
                } else if !l.t.is_empty() && l.t.iter().all(|t| boolean[t.0]) {
                    match subset(&l) {
                        Some(v) => new = v,
                        None => {}
                    }
                }
            }
            for (v, x) in new {
                if boolean[v] && !x.is_zero() && !x.is_one() {
                    return false;
                }
                val[v] = Some(x);
                for j in &self.occ[v] {
                    if !inq[*j] {
                        inq[*j] = true;
                        queue.push_back(*j);
                    }
                }
            }
        }
        true
    }
}
/// searches for second witnesses get 20 s each and 120 s together
fn search_time(d: std::time::Duration) -> bool {
    use std::sync::atomic::{AtomicU64, Ordering};
    static USED: AtomicU64 = AtomicU64::new(0);
    static LAST: AtomicU64 = AtomicU64::new(0);
    let now = d.as_millis() as u64;
    let last = LAST.swap(now, Ordering::Relaxed);
    if now > last {
        USED.fetch_add(now - last, Ordering::Relaxed);
    }
    now < 20_000 && USED.load(Ordering::Relaxed) < 120_000
}
fn big(x: Fr) -> BigInt {
    let r = x.into_repr();
    let mut b = vec![];
    for l in r.as_ref() {
        b.extend_from_slice(&l.to_le_bytes());
    }
    BigInt::from_bytes_le(num_bigint::Sign::Plus, &b)
}
fn modulus() -> BigInt {
    big(-Fr::one()) + 1
}
pub fn signed(x: Fr) -> BigInt {
    let b = big(x);
    let m = modulus();
    if &b * 2 > m {
        b - m
    } else {
        b
    }
}
fn abs(x: &BigInt) -> BigInt {
    BigInt::from(x.magnitude().clone())
}
fn superincreasing(cs: &mut Vec<BigInt>) -> bool {
    cs.sort();
    let mut s = BigInt::from(0);
    for c in cs.iter() {
        if *c <= s {
            return false;
        }
        s += c;
    }
    true
}
/// which of the boolean unknowns the linear constraint determines
/// (index, |coefficient|, power of two dividing it); `small`: all |coefficients| of the constraint
/// sum to less than the modulus
fn unpack(u: &[&(usize, BigInt, u64)], small: bool) -> Vec<usize> {
    if !small {
        let total: BigInt = u.iter().map(|t| t.1.clone()).sum();
        if total >= modulus() {
            return vec![];
        }
    }
    // over the integers (no wrap: the total is below the modulus) the difference of two solutions
    // is sum c_i d_i = 0 with d_i in {-1,0,1}; a coefficient whose power of two is smaller than all
    // the others' has d_i = 0
    let mut by: Vec<(u64, usize)> = u.iter().map(|t| (t.2, t.0)).collect();
    by.sort();
    let mut peeled = vec![];
    for i in 0..by.len() {
        if i + 1 < by.len() && by[i + 1].0 == by[i].0 {
            break;
        }
        peeled.push(by[i].1);
    }
    if !peeled.is_empty() {
        return peeled;
    }
    let mut all: Vec<BigInt> = u.iter().map(|t| t.1.clone()).collect();
    if superincreasing(&mut all) {
        return u.iter().map(|t| t.0).collect();
    }
    vec![]
}
/// values of boolean unknowns with superincreasing coefficients
fn subset(l: &Lin) -> Option<Vec<(usize, Fr)>> {
    let mut t: Vec<(usize, BigInt)> = l.t.iter().map(|(i, x)| (*i, signed(*x))).collect();
    let mut c: Vec<BigInt> = t.iter().map(|x| abs(&x.1)).collect();
    if !superincreasing(&mut c) {
        return None;
    }
    // sum c_i x_i = -k; substitute x = 1 - y for negative coefficients
    let mut rhs = signed(-l.k);
    let mut neg = vec![];
    for (i, x) in t.iter_mut() {
        if x.sign() == num_bigint::Sign::Minus {
            rhs -= &*x;
            *x = -x.clone();
            neg.push(*i);
        }
    }
    t.sort_by(|a, b| b.1.cmp(&a.1));
    let mut out = vec![];
    for (i, x) in t {
        let one = rhs >= x;
        if one {
            rhs -= &x;
        }
        out.push((i, if one != neg.contains(&i) { Fr::one() } else { Fr::zero() }));
    }
    if rhs == BigInt::from(0) {
        Some(out)
    } else {
        None
    }
}
impl Sys {
    /// can the constraints be satisfied when the given variables have the given values?
    /// None: neither a contradiction nor a witness was found
    pub fn satisfiable(&self, fixed: &[(usize, Fr)]) -> Option<bool> {
        let boolean = self.booleans();
        let mut val: Vec<Option<Fr>> = vec![None; self.vals.len()];
        val[0] = Some(Fr::one());
        for (i, x) in fixed {
            val[*i] = Some(*x);
        }
        if !self.propagate(&mut val, &boolean) {
            return Some(false);
        }
        let det = val.clone();
        // free variables: honest value, then 0, 1
        for pick in 0..3u64 {
            let mut val = det.clone();
            let mut ok = true;
            let mut i = 0;
            while i < val.len() {
                if val[i].is_none() {
                    val[i] = Some(match pick {
                        0 => self.vals[i],
                        k => Fr::from(k - 1),
                    });
                    if !self.propagate(&mut val, &boolean) {
                        ok = false;
                        break;
                    }
                }
                i += 1;
            }
            if ok {
                let w: Vec<Fr> = val.into_iter().map(|x| x.unwrap()).collect();
                if self.violated(&w).is_none() {
                    return Some(true);
                }
            }
        }
        None
    }
}

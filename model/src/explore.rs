//! Path exploration: every branch the code under verification takes on a traced value is a
//! condition in the tape.  A path that has not been taken is reached by solving one of its
//! conditions for an input variable (linear or quadratic in that variable at the current
//! point) and running the real code again on the solved input.
use crate::tape::*;
use ark_bls12_381::Fr;
use ark_ff::{Field, SquareRootField, Zero};
use std::collections::{HashMap, HashSet, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

pub type Assign = HashMap<String, Fr>;

/// run real code, turning a panic into Err(message)
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => Err(if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".to_string()
        }),
    }
}

pub fn quiet_panics() {
    if std::env::var("VERIF_PANIC").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}

fn diff_at(t: &Tape, c: &Cond, var: u32, x: Fr) -> Option<Fr> {
    let mut e = Eval::new(
        t,
        Box::new(move |k| {
            if k == var {
                x
            } else {
                t.nodes[t.vars[k as usize].id as usize].val
            }
        }),
    );
    let a = e.arg(&c.a);
    let b = e.arg(&c.b);
    if e.undefined {
        None
    } else {
        Some(a - b)
    }
}

/// values of `var` that make both sides of `c` equal (others fixed)
pub fn solve(t: &Tape, c: &Cond, var: u32) -> Vec<Fr> {
    let x: Vec<Fr> = (0..4u64).map(|i| det_rand(t.seed ^ 0x51ab, &format!("pt{}", i))).collect();
    let mut d = vec![];
    for xi in &x {
        match diff_at(t, c, var, *xi) {
            Some(v) => d.push(v),
            None => return vec![],
        }
    }
    // Newton interpolation of degree 2, checked at the 4th point
    let d01 = (d[1] - d[0]) * (x[1] - x[0]).inverse().unwrap();
    let d12 = (d[2] - d[1]) * (x[2] - x[1]).inverse().unwrap();
    let d012 = (d12 - d01) * (x[2] - x[0]).inverse().unwrap();
    let at3 = d[0] + d01 * (x[3] - x[0]) + d012 * (x[3] - x[0]) * (x[3] - x[1]);
    if at3 != d[3] {
        return vec![];
    }
    // a2 X^2 + a1 X + a0
    let a2 = d012;
    let a1 = d01 - d012 * (x[0] + x[1]);
    let a0 = d[0] - d01 * x[0] + d012 * x[0] * x[1];
    if a2.is_zero() {
        if a1.is_zero() {
            return vec![];
        }
        return vec![-a0 * a1.inverse().unwrap()];
    }
    let disc = a1 * a1 - Fr::from(4u64) * a2 * a0;
    let inv = (a2 + a2).inverse().unwrap();
    match disc.sqrt() {
        Some(s) => {
            let mut r = vec![(s - a1) * inv];
            if !s.is_zero() {
                r.push((-s - a1) * inv);
            }
            r
        }
        None => vec![],
    }
}

pub struct Stats {
    pub paths: usize,
    pub conds: usize,
    pub max_depth: usize,
}

/// Explore up to `budget` paths of `f`.  `f` runs the code (which must create its inputs via
/// TFr::input on the tape reset here) and performs the checks itself; it gets the depth and
/// the assignment that produced this path.  Returning false stops.
pub fn explore(
    seed: u64,
    budget: usize,
    deadline: Instant,
    base: Assign,
    mut f: impl FnMut(usize, &Assign) -> bool,
) -> Stats {
    let mut q: VecDeque<(usize, Assign)> = VecDeque::new();
    q.push_back((0, base));
    let mut seen: HashSet<Vec<(String, String)>> = HashSet::new();
    let mut st = Stats { paths: 0, conds: 0, max_depth: 0 };
    let mut rng = XorRng(seed | 1, 0x1234567);
    let mut seen_flip: HashSet<(usize, usize, usize)> = HashSet::new();
    while let Some((depth, asg)) = q.pop_front() {
        if st.paths >= budget || (st.paths > 0 && Instant::now() > deadline) {
            break;
        }
        tape().reset(seed, asg.clone());
        st.paths += 1;
        st.max_depth = st.max_depth.max(depth);
        if !f(depth, &asg) {
            break;
        }
        if q.len() > 4 * budget {
            continue;
        }
        let t = tape();
        st.conds += t.conds.len();
        let mut cands: Vec<Cond> = vec![];
        let mut dd: HashSet<(Id, [u64; 4], Id, [u64; 4])> = HashSet::new();
        for c in &t.conds {
            if c.eq {
                continue;
            }
            use ark_ff::PrimeField;
            let k = (c.a.id, if c.a.id == 0 { c.a.v.into_repr().0 } else { [0; 4] }, c.b.id, if c.b.id == 0 { c.b.v.into_repr().0 } else { [0; 4] });
            if dd.insert(k) {
                cands.push(*c);
            }
        }
        // sample at most `budget` conditions, in random order
        let mut order: Vec<usize> = (0..cands.len()).collect();
        for i in (1..order.len()).rev() {
            use rand::RngCore;
            let j = (rng.next_u64() % (i as u64 + 1)) as usize;
            order.swap(i, j);
        }
        let mut made = 0;
        for i in order {
            if made >= budget || (depth > 0 && made >= 4 + budget / 8) {
                break;
            }
            let c = cands[i];
            let sup: Vec<u32> = support(&t, &[c.a, c.b])
                .into_iter()
                .filter(|k| t.vars[*k as usize].kind == VarKind::Input && !asg.contains_key(&t.vars[*k as usize].name))
                .collect();
            if sup.is_empty() {
                continue;
            }
            use rand::RngCore;
            let off = (rng.next_u64() % sup.len() as u64) as usize;
            'v: for j in 0..sup.len().min(3) {
                let v = sup[(off + j) % sup.len()];
                for r in solve(&t, &c, v) {
                    let mut a2 = asg.clone();
                    a2.insert(t.vars[v as usize].name.clone(), r);
                    let mut key: Vec<(String, String)> = a2.iter().map(|(k, v)| (k.clone(), format!("{}", v))).collect();
                    key.sort();
                    if seen.insert(key) {
                        q.push_back((depth + 1, a2));
                        made += 1;
                    }
                    break 'v;
                }
            }
            let _ = &mut seen_flip;
        }
    }
    st
}

/// Drive a verifier to acceptance by solving, for input variables, the conditions that made it
/// reject.  `f` runs the verifier on the current tape and returns true on acceptance.
/// Variables listed in `frozen` are never assigned.
pub fn forge(
    seed: u64,
    steps: usize,
    deadline: Instant,
    base: Assign,
    frozen: &HashSet<String>,
    mut f: impl FnMut() -> bool,
) -> Option<Assign> {
    let mut asg = base;
    let mut rng = XorRng(seed | 1, 0x777);
    let mut tried: HashSet<(usize, String)> = HashSet::new();
    let mut assigned_by_us: HashSet<String> = HashSet::new();
    for _ in 0..steps {
        if Instant::now() > deadline {
            return None;
        }
        tape().reset(seed, asg.clone());
        if f() {
            return Some(asg);
        }
        let t = tape();
        // conditions that already hold non-trivially: keep their variables
        let mut hold: HashSet<u32> = HashSet::new();
        for c in t.conds.iter().filter(|c| c.eq) {
            for v in support(&t, &[c.a, c.b]) {
                hold.insert(v);
            }
        }
        let mut next: Option<(String, Fr)> = None;
        let n = t.conds.len();
        'c: for back in 0..n.min(40) {
            let ci = n - 1 - back;
            let c = t.conds[ci];
            if c.eq {
                continue;
            }
            let sup: Vec<u32> = support(&t, &[c.a, c.b])
                .into_iter()
                .filter(|k| {
                    let vi = &t.vars[*k as usize];
                    vi.kind == VarKind::Input && !frozen.contains(&vi.name) && !tried.contains(&(ci, vi.name.clone()))
                })
                .collect();
            let mut pref: Vec<u32> = sup.iter().copied().filter(|v| !hold.contains(v)).collect();
            use rand::RngCore;
            for i in (1..pref.len()).rev() {
                let j = (rng.next_u64() % (i as u64 + 1)) as usize;
                pref.swap(i, j);
            }
            for v in pref {
                let name = t.vars[v as usize].name.clone();
                tried.insert((ci, name.clone()));
                if let Some(r) = solve(&t, &c, v).first() {
                    if r.is_zero() {
                        continue;
                    }
                    next = Some((name, *r));
                    break 'c;
                }
            }
        }
        drop(t);
        match next {
            Some((k, v)) => {
                assigned_by_us.insert(k.clone());
                asg.insert(k, v);
            }
            None => return None,
        }
    }
    None
}

/// Jacobian rank of (a-b) over the holding conditions of the tape with respect to variables
/// selected by `sel`; this is the number of independent equations the run enforced.
pub fn equations_rank(sel: &dyn Fn(&VarInfo) -> bool) -> (usize, usize) {
    let t = tape();
    let vars: Vec<u32> = (0..t.vars.len() as u32).filter(|k| sel(&t.vars[*k as usize])).collect();
    let pos: HashMap<u32, usize> = vars.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let mut m = vec![];
    let mut dd: HashSet<(Id, Id)> = HashSet::new();
    for c in t.conds.iter().filter(|c| c.eq) {
        if !dd.insert((c.a.id, c.b.id)) && c.a.id != 0 && c.b.id != 0 {
            continue;
        }
        let ga = gradient(&t, &c.a);
        let gb = gradient(&t, &c.b);
        let mut row = vec![Fr::zero(); vars.len()];
        let mut nz = false;
        for (k, v) in ga {
            if let Some(p) = pos.get(&k) {
                row[*p] += v;
            }
        }
        for (k, v) in gb {
            if let Some(p) = pos.get(&k) {
                row[*p] -= v;
            }
        }
        for x in &row {
            nz |= !x.is_zero();
        }
        if nz {
            m.push(row);
        }
    }
    (rank(m), vars.len())
}

/// rank of the Jacobian of the given terms with respect to the selected variables
pub fn terms_rank(terms: &[Arg], sel: &dyn Fn(&VarInfo) -> bool) -> usize {
    let t = tape();
    let vars: Vec<u32> = (0..t.vars.len() as u32).filter(|k| sel(&t.vars[*k as usize])).collect();
    let pos: HashMap<u32, usize> = vars.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let m: Vec<Vec<Fr>> = terms
        .iter()
        .map(|a| {
            let mut row = vec![Fr::zero(); vars.len()];
            for (k, v) in gradient(&t, a) {
                if let Some(p) = pos.get(&k) {
                    row[*p] += v;
                }
            }
            row
        })
        .collect();
    rank(m)
}

/// Offsets of traced field/group elements in an encoding, with their term ids.
pub fn slots(bytes: &[u8]) -> Vec<(usize, Id)> {
    let t = tape();
    let mut out = vec![];
    let mut i = 0;
    while i + 32 <= bytes.len() {
        let mut k = [0u64; 4];
        for j in 0..4 {
            let mut b = [0u8; 8];
            b.copy_from_slice(&bytes[i + 8 * j..i + 8 * j + 8]);
            k[j] = u64::from_le_bytes(b);
        }
        let id = t.lookup(&k);
        if id != 0 {
            out.push((i, id));
            i += 32;
        } else {
            i += 1;
        }
    }
    out
}

/// Exact decision of a = b as polynomials over the tape's variables (inverses are atoms):
/// Some(true) = identical, Some(false) = different normal forms, None = beyond `cap` terms.
pub fn exact_eq(a: &Arg, b: &Arg, cap: usize) -> Option<bool> {
    let t = tape();
    let mut memo: HashMap<Id, HashMap<Vec<Id>, Fr>> = HashMap::new();
    let pa = normal(&t, a, cap, &mut memo)?;
    let pb = normal(&t, b, cap, &mut memo)?;
    Some(pa == pb)
}
fn normal(t: &Tape, a: &Arg, cap: usize, memo: &mut HashMap<Id, HashMap<Vec<Id>, Fr>>) -> Option<HashMap<Vec<Id>, Fr>> {
    if a.id == 0 {
        let mut m = HashMap::new();
        if !a.v.is_zero() {
            m.insert(vec![], a.v);
        }
        return Some(m);
    }
    let mut st = vec![a.id];
    while let Some(&i) = st.last() {
        if memo.contains_key(&i) {
            st.pop();
            continue;
        }
        let n = &t.nodes[i as usize];
        match n.op {
            Op::Var(_) | Op::Inv => {
                let mut m = HashMap::new();
                m.insert(vec![i], Fr::from(1u64));
                memo.insert(i, m);
                st.pop();
                continue;
            }
            _ => {}
        }
        let need: Vec<Id> = [n.a.id, n.b.id].iter().copied().filter(|x| *x != 0 && !memo.contains_key(x)).collect();
        if !need.is_empty() {
            st.extend(need);
            continue;
        }
        let get = |x: &Arg, memo: &HashMap<Id, HashMap<Vec<Id>, Fr>>| -> HashMap<Vec<Id>, Fr> {
            if x.id == 0 {
                let mut m = HashMap::new();
                if !x.v.is_zero() {
                    m.insert(vec![], x.v);
                }
                m
            } else {
                memo[&x.id].clone()
            }
        };
        let pa = get(&n.a, memo);
        let pb = get(&n.b, memo);
        let mut r: HashMap<Vec<Id>, Fr> = HashMap::new();
        match n.op {
            Op::Add | Op::Sub => {
                r = pa;
                for (k, v) in pb {
                    let e = r.entry(k).or_insert_with(Fr::zero);
                    if let Op::Add = n.op {
                        *e += v
                    } else {
                        *e -= v
                    }
                }
            }
            Op::Mul => {
                if pa.len() * pb.len() > 4 * cap {
                    return None;
                }
                for (k, v) in &pa {
                    for (l, w) in &pb {
                        let mut m = k.clone();
                        m.extend_from_slice(l);
                        m.sort();
                        *r.entry(m).or_insert_with(Fr::zero) += *v * w;
                    }
                }
            }
            _ => unreachable!(),
        }
        r.retain(|_, v| !v.is_zero());
        if r.len() > cap {
            return None;
        }
        memo.insert(i, r);
        st.pop();
    }
    Some(memo[&a.id].clone())
}

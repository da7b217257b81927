//! Contracts shared by every proof system of the library.  A system is given by closures that
//! run the real prover and verifier; the engine runs them on the tape and discharges
//!  * completeness,
//!  * binding of every proof slot, every public input and the key (with the transcript's own
//!    challenges and with challenges fixed in advance),
//!  * tightness: at fixed challenges the accepted proofs around an honest one form a set of
//!    exactly the dimension of the honest proofs (plus a protocol constant `slack`), i.e. no
//!    verification equation is missing and no blinder is missing,
//!  * the Fiat-Shamir order: every message is absorbed before any later challenge it meets in
//!    an equation, and prover and verifier draw the same challenges.
use crate::ctx::*;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use merlin::{verif_start, verif_take, VerifOp};
use std::collections::{HashMap, HashSet};
use vmodel::*;

pub fn ser<T: CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut b = vec![];
    t.serialize(&mut b).unwrap();
    b
}
pub fn de<T: CanonicalDeserialize>(b: &[u8]) -> R<T> {
    T::deserialize(b).map_err(|e| format!("{:?}", e))
}
pub fn e2s<E: std::fmt::Debug>(e: E) -> String {
    format!("{:?}", e)
}
pub type R<T> = Result<T, String>;
pub struct Proto<'a> {
    pub prove: Box<dyn Fn() -> R<Vec<u8>> + 'a>,
    pub verify: Box<dyn Fn(&[u8], &[TFr]) -> R<bool> + 'a>,
    pub inputs: Vec<TFr>,
    /// what the statement fixes (circuit coefficients, public inputs and outputs)
    pub fixed: Vec<TFr>,
    /// encoding of the public keys: randomness they contain does not count as the prover's
    pub public: Vec<u8>,
    /// verifiers of other statements / keys: must reject the honest proof
    pub alt: Vec<(String, Box<dyn Fn(&[u8]) -> R<bool> + 'a>)>,
    /// provers run on a false statement: must not give an accepted proof
    pub bad: Vec<(String, Box<dyn Fn() -> R<(Vec<u8>, Vec<TFr>)> + 'a>)>,
    /// the protocol's verification equations, from (proof, inputs, challenges)
    pub reference: Option<Box<dyn Fn(&[u8], &[TFr], &[TFr]) -> R<Vec<(TFr, TFr)>> + 'a>>,
}
#[derive(Clone)]
pub struct Opts {
    /// accepted dimension minus honest dimension at fixed challenges
    pub slack: Option<i64>,
    /// slack obligations only when all parts of the proof are visible
    pub merlin: bool,
    /// slots for which a public input is not expected to matter etc.
    pub tamper_all: bool,
    /// the coins of the proof are already drawn by mk (prover and setup are one function)
    pub coins_in_mk: bool,
    /// number of messages that the verifier only absorbs
    pub absorbed_only: usize,
    /// challenges come from a chain of hashes, each over the previous one
    pub chain: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { slack: Some(0), merlin: true, tamper_all: true, coins_in_mk: false, absorbed_only: 0, chain: false }
    }
}
#[derive(Clone, Copy)]
pub struct Which {
    pub complete: bool,
    pub sound: bool,
    pub fs: bool,
    pub hide: bool,
}
pub fn show<T: std::fmt::Debug>(r: &Result<R<T>, String>) -> String {
    let s = format!("{:?}", r);
    if s.len() > 400 {
        s[..400].to_string()
    } else {
        s
    }
}
thread_local! { static ORACLE: std::cell::Cell<Option<u64>> = std::cell::Cell::new(None); }
fn verif_oracle(s: Option<u64>) {
    ORACLE.with(|o| o.set(s));
    merlin::verif_oracle(s)
}
/// restart the fixed challenge sequence (between a prover and a verifier call)
pub fn again() {
    merlin::verif_oracle(ORACLE.with(|o| o.get()))
}
/// outcome of a verifier call: accepted?
fn accepts(p: &Proto, b: &[u8], x: &[TFr]) -> bool {
    matches!(guarded(|| (p.verify)(b, x)), Ok(Ok(true)))
}
fn quiet_on<T>(f: impl FnOnce() -> T) -> T {
    let o = tape().off;
    tape().off = true;
    let r = f();
    tape().off = o;
    r
}
pub fn read32(b: &[u8], off: usize) -> Fr {
    use ark_ff::FromBytes;
    Fr::read(&b[off..off + 32]).unwrap_or_else(|_| panic!("no field element at byte {} of {}", off, b.len()))
}
pub fn write32(b: &mut [u8], off: usize, v: Fr) {
    use ark_ff::ToBytes;
    let mut w: Vec<u8> = vec![];
    v.write(&mut w).unwrap();
    b[off..off + 32].copy_from_slice(&w);
}
fn challenges(log: &[VerifOp]) -> Vec<Vec<u8>> {
    log.iter().filter_map(|o| if let VerifOp::Challenge(_, b) = o { Some(b.clone()) } else { None }).collect()
}

pub struct Run {
    pub slots: Vec<(usize, Id)>,
    pub bytes: Vec<u8>,
}

/// mk builds the system on the freshly reset tape
pub fn protocol<'a>(c: &mut Ctx, seed: u64, o: &Opts, w: &Which, mk: &dyn Fn() -> Proto<'a>) -> bool {
    // ---- honest run, prover traced
    verif_oracle(None);
    tape().reset(seed, Assign::new());
    let p = match guarded(|| mk()) {
        Ok(p) => p,
        Err(e) => {
            c.ob("setup succeeds", By::Ground, false, || e);
            return false;
        }
    };
    let v0 = if o.coins_in_mk { 0 } else { tape().vars.len() };
    let m0 = {
        let t = tape();
        (t.msm_short, t.msm_twice)
    };
    verif_start();
    let got = guarded(|| (p.prove)());
    if w.sound {
        let t = tape();
        let (a, b) = (t.msm_short - m0.0, t.msm_twice - m0.1);
        drop(t);
        c.ob("binding: in the prover's commitments every coefficient has a generator of its own", By::Ground, a + b == 0, || format!("{} multi-scalar products drop a non-zero coefficient, {} use a generator twice", a, b));
    }
    let plog = verif_take();
    let bytes = match got {
        Ok(Ok(b)) => b,
        e => {
            c.ob("completeness: the prover succeeds on a satisfied statement", By::Ground, false, || show(&e));
            return false;
        }
    };
    let mut slots = slots(&bytes);
    verif_start();
    let r = guarded(|| (p.verify)(&bytes, &p.inputs));
    let vlog = verif_take();
    let ok = matches!(r, Ok(Ok(true)));
    if w.complete || !ok {
        c.ob("completeness: the verifier accepts the honest proof", By::Pit, ok, || format!("{} ; {}", show(&r), show_point(&Assign::new())));
    }
    if !ok {
        return false;
    }
    if o.merlin && (w.fs || w.complete) {
        let (a, b) = (challenges(&plog), challenges(&vlog));
        let same = a.len() >= b.len() && a[..b.len()] == b[..] || b.len() > a.len() && a[..] == b[..a.len()];
        c.ob("prover and verifier derive the same challenges", By::Ground, same, || format!("{} challenges of the prover, {} of the verifier", a.len(), b.len()));
        let set: HashSet<_> = b.iter().collect();
        c.ob("challenges are pairwise distinct", By::Ground, set.len() == b.len(), || format!("{} of {}", set.len(), b.len()));
    }
    if o.chain && (w.fs || w.complete) {
        let bad: Vec<String> = [("prover", &plog), ("verifier", &vlog)].iter().filter_map(|(n, l)| unchained(l).map(|k| format!("{}: challenge {}", n, k))).collect();
        c.ob("Fiat-Shamir: every challenge hashes the previous one", By::Ground, bad.is_empty(), || format!("{:?}", bad));
    }
    // what the prover's messages depend on
    let honest_rank;
    {
        let terms: Vec<Arg> = {
            let t = tape();
            slots.iter().map(|(_, id)| Arg { id: *id, v: t.nodes[*id as usize].val }).collect()
        };
        let public: HashSet<String> = {
            let s = vmodel::slots(&p.public);
            let t = tape();
            let a: Vec<Arg> = s.iter().map(|(_, id)| Arg { id: *id, v: t.nodes[*id as usize].val }).collect();
            support(&t, &a).into_iter().map(|k| t.vars[k as usize].name.clone()).collect()
        };
        let names: HashSet<String> = {
            let t = tape();
            t.vars[v0..].iter().filter(|v| v.kind == VarKind::Coin && !public.contains(&v.name)).map(|v| v.name.clone()).collect()
        };
        let small = slots.len() < 700;
        let coins = |v: &VarInfo| names.contains(&v.name);
        if w.hide && small {
            // variables of the statement's owner: coins of the prover and everything that is not a coin
            let own = |v: &VarInfo| coins(v) || v.kind == VarKind::Input;
            let fixed: Vec<Arg> = p.fixed.iter().map(|x| x.arg()).collect();
            let all: Vec<Arg> = fixed.iter().chain(&terms).copied().collect();
            let (rf, ra, rc) = (terms_rank(&fixed, &own), terms_rank(&all, &own), terms_rank(&terms, &coins));
            let n_in = {
                let t = tape();
                t.vars.iter().filter(|v| v.kind == VarKind::Input).count()
            };
            if n_in > rf {
                c.ob("hiding: for a fixed statement, whatever the witness changes in the proof is covered by the prover's coins", By::Rank, ra - rf == rc, || format!("{} degrees of freedom of the witness; proof dimension {} with a varying witness, {} from the coins alone; {} elements", n_in - rf, ra - rf, rc, terms.len()));
            }
        }
        honest_rank = if (w.sound || w.hide) && small { Some(terms_rank(&terms, &|v| names.contains(&v.name))) } else { None };
    }
    if w.complete {
        for (name, f) in &p.bad {
            let r = quiet_on(|| guarded(|| f().map(|(b, x)| {
                again();
                (p.verify)(&b, &x)
            })));
            let acc = matches!(r, Ok(Ok(Ok(true))));
            c.ob("no accepted proof is produced for a false statement", By::Pit, !acc, || format!("{} ; {}", name, show_point(&Assign::new())));
        }
    }
    if !(w.sound || w.fs || w.hide) {
        return true;
    }
    drop(p);
    // ---- verifier run with every proof slot a fresh variable
    tape().reset(seed, Assign::new());
    let p = mk();
    let mut ids: Vec<Id> = vec![];
    {
        for (j, (off, _)) in slots.iter().enumerate() {
            let v = read32(&bytes, *off);
            let known = {
                let t = tape();
                use ark_ff::PrimeField;
                let id = t.lookup(&v.into_repr().0);
                let is_slot = id != 0 && ids.contains(&id);
                (id, is_slot)
            };
            if known.1 {
                ids.push(known.0);
            } else {
                ids.push(TFr::input_val(&format!("slot{}", j), v).id);
            }
        }
    }
    let first_cond = tape().conds.len();
    let first_var = tape().vars.len();
    let mut unused: HashSet<usize> = HashSet::new();
    verif_start();
    let r = guarded(|| (p.verify)(&bytes, &p.inputs));
    let vlog = verif_take();
    if !matches!(r, Ok(Ok(true))) {
        c.note(format!("verifier run on decoded proof: {}", show(&r)));
        c.ob("completeness: the verifier accepts the decoded proof", By::Ground, false, || show(&r));
        return false;
    }
    let distinct: HashSet<Id> = ids.iter().copied().collect();
    if o.chain && (w.sound || w.fs) {
        let other: Vec<String> = tape().vars[first_var..].iter().filter(|v| v.kind == VarKind::Coin).map(|v| v.name.clone()).collect();
        c.ob("the verifier's randomness comes from the transcript only", By::Ground, other.is_empty(), || format!("{:?}", other));
    }
    if let (Some(f), true) = (&p.reference, w.sound) {
        let n1 = tape().conds.len();
        let chal: Vec<TFr> = {
            let t = tape();
            t.vars.iter().filter(|v| v.kind == VarKind::Challenge).map(|v| TFr { v: t.nodes[v.id as usize].val, id: v.id }).collect()
        };
        match guarded(|| f(&bytes, &p.inputs, &chal)) {
            Ok(Ok(eqs)) => {
                let diff: Vec<TFr> = eqs.iter().map(|(a, b)| *a - *b).collect();
                let all = diff.iter().all(|d| ark_ff::Zero::is_zero(&d.v));
                c.ob("soundness: an accepted proof satisfies the protocol's equations", By::Pit, all, || format!("equations {:?}", diff.iter().enumerate().filter(|(_, d)| !ark_ff::Zero::is_zero(&d.v)).map(|x| x.0).collect::<Vec<_>>()));
                let conds: Vec<Cond> = tape().conds[first_cond..n1].iter().filter(|c| c.eq).copied().collect();
                let code = grads(&conds);
                let refs: Vec<Cond> = diff.iter().map(|d| Cond { a: d.arg(), b: zero_arg(), eq: true }).collect();
                let rf = grads(&refs);
                let (rc, rr) = (grad_rank(&[&code]), grad_rank(&[&rf]));
                let ru = grad_rank(&[&code, &rf]);
                c.ob("soundness: the checked equations are exactly the protocol's", By::Rank, ru == rc && ru == rr, || format!("{} independent equations checked, {} in the protocol, {} together", rc, rr, ru));
            }
            e => c.note(format!("reference equations not evaluated: {:?}", e.map(|r| r.map(|_| ())))),
        }
    }
    if w.sound || w.hide {
        let n = distinct.len() as i64;
        if let (Some(h), true) = (honest_rank, slots.len() < 700) {
            let (eq, _) = equations_rank(&|v| v.name.starts_with("slot"));
            let acc = n - eq as i64;
            let slack = acc - h as i64;
            if std::env::var("VERIF_DEBUG").is_ok() {
                eprintln!("[{}] slots {} equations {} honest dim {} slack {}", c.shape, n, eq, h, slack);
            }
            if let Some(s) = o.slack {
                if w.sound {
                    c.ob("tightness: the verification equations leave no more freedom than the honest proofs have", By::Rank, slack <= s, || format!("{} proof slots, {} independent equations, honest dimension {}, allowed slack {}", n, eq, h, s));
                }
                if w.hide {
                    c.ob("hiding: the prover's coins randomize the proof as far as the equations permit", By::Rank, slack <= s, || format!("{} proof slots, {} independent equations, dimension of the coins' image {}, allowed slack {}", n, eq, h, s));
                }
            }
        }
        if w.sound {
            // every slot and every input meets an equation
            let t = tape();
            let mut used: HashSet<u32> = HashSet::new();
            for cd in t.conds.iter().filter(|c| c.eq) {
                for k in gradient(&t, &cd.a).into_iter().chain(gradient(&t, &cd.b)) {
                    if !ark_ff::Zero::is_zero(&k.1) {
                        used.insert(k.0);
                    }
                }
            }
            let mut free = vec![];
            for (k, v) in t.vars.iter().enumerate() {
                if v.name.starts_with("slot") && !used.contains(&(k as u32)) {
                    free.push(v.name.clone());
                }
            }
            drop(t);
            for f in &free {
                if let Ok(k) = f["slot".len()..].parse::<usize>() {
                    unused.insert(k);
                }
            }
            c.ob("every proof element occurs in a verification equation", By::Rank, free.len() == o.absorbed_only, || format!("unconstrained: {:?}", free));
        }
    }
    if o.merlin && w.fs {
        fs_order(c, &vlog, &ids, &p.inputs);
    }
    // ---- alterations
    if w.sound {
        for oracle in [false, true] {
            if oracle && !o.merlin {
                continue;
            }
            let sd = if oracle { Some(seed ^ 0x0feac1e) } else { None };
            let b = if oracle {
                // an honest proof for these challenges
                verif_oracle(sd);
                tape().reset(seed, Assign::new());
                tape().off = !o.chain;
                let p2 = mk();
                verif_oracle(sd);
                match guarded(|| (p2.prove)()) {
                    Ok(Ok(b)) => {
                        // the order of the elements may depend on the challenges
                        if o.chain {
                            slots = vmodel::slots(&b);
                            unused.clear();
                        }
                        b
                    }
                    _ => {
                        verif_oracle(None);
                        continue;
                    }
                }
            } else {
                bytes.clone()
            };
            tape().off = false;
            tape().reset(seed, Assign::new());
            tape().off = true;
            let p2 = mk();
            verif_oracle(sd);
            if !accepts(&p2, &b, &p2.inputs) {
                verif_oracle(None);
                tape().off = false;
                c.note("proof with fixed challenges not accepted; skipped");
                continue;
            }
            tamper(c, &p2, &b, &slots, sd, oracle, o, &unused);
            verif_oracle(None);
            tape().off = false;
        }
    }
    true
}

type Grad = HashMap<u32, Fr>;
fn grads(conds: &[Cond]) -> Vec<Grad> {
    let t = tape();
    let mut out = vec![];
    for cd in conds {
        let mut g = gradient(&t, &cd.a);
        for (k, v) in gradient(&t, &cd.b) {
            *g.entry(k).or_insert_with(ark_ff::Zero::zero) -= v;
        }
        g.retain(|_, v| !ark_ff::Zero::is_zero(v));
        if !g.is_empty() {
            out.push(g);
        }
    }
    out
}
fn grad_rank(gs: &[&Vec<Grad>]) -> usize {
    let mut pos: HashMap<u32, usize> = HashMap::new();
    for g in gs.iter().flat_map(|g| g.iter()) {
        for k in g.keys() {
            let n = pos.len();
            pos.entry(*k).or_insert(n);
        }
    }
    rank(
        gs.iter()
            .flat_map(|g| g.iter())
            .map(|g| {
                let mut r: Vec<Fr> = vec![ark_ff::Zero::zero(); pos.len()];
                for (k, v) in g {
                    r[pos[k]] = *v;
                }
                r
            })
            .collect(),
    )
}
/// first challenge that is not derived from its predecessor
fn unchained(log: &[VerifOp]) -> Option<usize> {
    let mut prev: Option<Vec<u8>> = None;
    let mut fresh = false;
    let mut seen = false;
    let mut k = 0;
    // absorbed by a transcript that has not been asked for a challenge since
    let mut pending = false;
    for op in log {
        match op {
            VerifOp::Append(l, _) if l == b"verif-new" => {
                if pending {
                    return Some(k);
                }
            }
            VerifOp::Append(l, b) => {
                fresh |= l == b"dom-sep";
                pending |= l != b"dom-sep";
                if let Some(p) = &prev {
                    seen |= b.windows(p.len()).any(|w| w == &p[..]);
                }
            }
            VerifOp::Challenge(_, b) => {
                if k > 0 && fresh && !seen {
                    return Some(k);
                }
                prev = Some(b.clone());
                pending = false;
                fresh = false;
                seen = false;
                k += 1;
            }
        }
    }
    None
}
fn tamper(c: &mut Ctx, p: &Proto, b: &[u8], slots: &[(usize, Id)], sd: Option<u64>, oracle: bool, o: &Opts, unused: &HashSet<usize>) {
    let mode = if oracle { " (challenges fixed in advance)" } else { "" };
    let step = if slots.len() > 160 && !o.tamper_all { slots.len() / 160 + 1 } else { 1 };
    let start = (c.seed as usize) % step;
    for (j, (off, _)) in slots.iter().enumerate() {
        if j % step != start {
            continue;
        }
        if oracle && unused.contains(&j) {
            continue;
        }
        if c.late() {
            c.note("time budget reached while altering proof elements");
            break;
        }
        let mut b2 = b.to_vec();
        let v = read32(b, *off);
        let d = det_rand(c.seed, &format!("t{}", j));
        write32(&mut b2, *off, v + d);
        verif_oracle(sd);
        let acc = accepts(p, &b2, &p.inputs);
        c.ob(&format!("an altered proof element is rejected{}", mode), By::Pit, !acc, || format!("element {} at byte {} changed by {}", j, off, d));
        if j % 3 == 0 {
            let mut b3 = b.to_vec();
            write32(&mut b3, *off, ark_ff::Zero::zero());
            verif_oracle(sd);
            let acc = accepts(p, &b3, &p.inputs);
            c.ob(&format!("a proof element replaced by zero is rejected{}", mode), By::Pit, !acc || ark_ff::Zero::is_zero(&v), || format!("element {} at byte {}", j, off));
        }
        // (with fixed challenges a verification equation may be symmetric in two messages)
        if !oracle && j + 1 < slots.len() && read32(b, slots[j + 1].0) != v {
            let mut b3 = b.to_vec();
            write32(&mut b3, *off, read32(b, slots[j + 1].0));
            write32(&mut b3, slots[j + 1].0, v);
            verif_oracle(sd);
            let acc = accepts(p, &b3, &p.inputs);
            c.ob(&format!("exchanged proof elements are rejected{}", mode), By::Pit, !acc, || format!("elements {} and {}", j, j + 1));
        }
    }
    for i in 0..p.inputs.len() {
        let mut x = p.inputs.clone();
        x[i] += TFr::cst(det_rand(c.seed, &format!("i{}", i)));
        verif_oracle(sd);
        let acc = accepts(p, b, &x);
        c.ob(&format!("an altered public input is rejected{}", mode), By::Pit, !acc, || format!("input {} of {}", i, x.len()));
        if i + 1 < p.inputs.len() && !p.inputs[i].same(&p.inputs[i + 1]) {
            let mut x = p.inputs.clone();
            x.swap(i, i + 1);
            verif_oracle(sd);
            let acc = accepts(p, b, &x);
            c.ob(&format!("exchanged public inputs are rejected{}", mode), By::Pit, !acc, || format!("inputs {} and {}", i, i + 1));
        }
    }
    for k in 0..2 {
        let mut x = p.inputs.clone();
        if k == 0 {
            x.push(TFr::cst(det_rand(c.seed, "extra")));
        } else {
            match x.pop() {
                // a missing zero input is indistinguishable from padding: not a different statement
                Some(v) if !ark_ff::Zero::is_zero(&v.v) => {}
                _ => continue,
            }
        }
        verif_oracle(sd);
        let acc = accepts(p, b, &x);
        c.ob(&format!("a wrong number of public inputs is rejected{}", mode), By::Pit, !acc, || format!("{} instead of {}", x.len(), p.inputs.len()));
    }
    for (name, f) in &p.alt {
        verif_oracle(sd);
        let acc = matches!(guarded(|| f(b)), Ok(Ok(true)));
        c.ob(&format!("the proof of another statement is rejected{}", mode), By::Pit, !acc, || name.clone());
    }
}

/// every message is absorbed before the challenge that follows it in the protocol
fn fs_order(c: &mut Ctx, vlog: &[VerifOp], ids: &[Id], inputs: &[TFr]) {
    // first absorption of every variable
    let mut absorbed: HashMap<u32, usize> = HashMap::new();
    let mut k = 0usize;
    for op in vlog {
        match op {
            VerifOp::Challenge(..) => k += 1,
            VerifOp::Append(_, b) => {
                let s = slots(b);
                let t = tape();
                let args: Vec<Arg> = s.iter().map(|(_, id)| Arg { id: *id, v: t.nodes[*id as usize].val }).collect();
                for v in support(&t, &args) {
                    absorbed.entry(v).or_insert(k);
                }
            }
        }
    }
    let t = tape();
    let mut var_of: HashMap<Id, u32> = HashMap::new();
    for (i, v) in t.vars.iter().enumerate() {
        var_of.insert(v.id, i as u32);
    }
    let at: Vec<Option<usize>> = ids.iter().map(|id| var_of.get(id).and_then(|v| absorbed.get(v)).copied()).collect();
    let now = at.iter().map(|a| a.map_or("-".to_string(), |a| a.to_string())).collect::<Vec<_>>().join(" ");
    if std::env::var("VERIF_DEBUG").is_ok() {
        eprintln!("SCHED {} | {}", c.shape, now);
    }
    let mut fails: Vec<String> = vec![];
    let want = schedule(&c.shape);
    match &want {
        Some(w) if w.len() == at.len() => {
            for (j, (a, w)) in at.iter().zip(w).enumerate() {
                if let Some(w) = w {
                    if a.map_or(true, |a| a > *w) {
                        fails.push(format!("proof element {} is absorbed after {} challenges, the protocol sends it after {}", j, a.map_or("all".to_string(), |a| a.to_string()), w));
                    }
                }
            }
        }
        _ => c.note(format!("no transcript contract for this proof layout ({}): skipped", c.shape)),
    }
    let nin = inputs.len();
    let mut infail = vec![];
    for (j, x) in inputs.iter().enumerate() {
        if x.id == 0 {
            continue;
        }
        let sup = support(&t, &[x.arg()]);
        let at = sup.iter().filter_map(|v| absorbed.get(v)).min().copied();
        if at != Some(0) && !sup.is_empty() {
            infail.push(format!("input {} absorbed {:?}", j, at));
        }
    }
    drop(t);
    if std::env::var("VERIF_DEBUG").is_ok() {
        eprintln!("SCHED {} | {}", c.shape, ids.iter().map(|id| absorbed.get(&var_of[id]).map_or("-".to_string(), |a| a.to_string())).collect::<Vec<_>>().join(" "));
    }
    if want.is_some() {
        c.ob("Fiat-Shamir: every message is absorbed before the next challenge of the protocol", By::Ground, fails.is_empty(), || format!("{:?}", &fails[..fails.len().min(5)]));
    }
    if nin > 0 {
        c.ob("Fiat-Shamir: every public input is absorbed before the first challenge", By::Ground, infail.is_empty(), || format!("{:?}", infail));
    }
}

/// how many challenges may precede the absorption of each proof element (contracts/transcript.txt)
fn schedule(shape: &str) -> Option<Vec<Option<usize>>> {
    let key: Vec<&str> = shape.split(' ').filter(|w| !w.starts_with("seed=") && !w.starts_with("coefs=")).collect();
    let key = key.join(" ");
    for l in include_str!("../contracts/transcript.txt").lines() {
        if let Some((k, v)) = l.split_once(" | ") {
            if k == key {
                return Some(v.split(' ').map(|x| x.parse().ok()).collect());
            }
        }
    }
    None
}

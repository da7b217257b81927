//! P17/P18: Plonk.
use crate::circ::rng;
use crate::ctx::*;
use crate::engine::*;
use ark_ff::{FftField, Field, One, Zero};
use ark_poly::univariate::DensePolynomial;
use digest::{consts::U32, generic_array::GenericArray, FixedOutput, Reset, Update};
use rand::RngCore;
use std::rc::Rc;
use vmodel::*;
use zkp_plonk::{Composer, Plonk, Proof, VerifierKey};

/// Blake2s that keeps a log of what is hashed
#[derive(Clone, Default)]
pub struct LogDigest(Vec<u8>);
impl Update for LogDigest {
    fn update(&mut self, data: impl AsRef<[u8]>) {
        self.0.extend_from_slice(data.as_ref());
    }
}
impl FixedOutput for LogDigest {
    type OutputSize = U32;
    fn finalize_into(self, out: &mut GenericArray<u8, U32>) {
        let h = <blake2::Blake2s as digest::Digest>::digest(&self.0);
        out.copy_from_slice(&merlin::verif_hash(&self.0, &h));
    }
    fn finalize_into_reset(&mut self, out: &mut GenericArray<u8, U32>) {
        self.clone().finalize_into(out);
        self.0.clear();
    }
}
impl Reset for LogDigest {
    fn reset(&mut self) {
        self.0.clear();
    }
}
pub type PC = ark_poly_commit::marlin_pc::MarlinKZG10<MP, DensePolynomial<TFr>>;
pub type PL = Plonk<TFr, LogDigest, PC>;

/// one gate: wires (aux, l, r, o), q_0..q_3, q_m, q_c, pi
#[derive(Clone)]
pub struct Gate {
    kind: u8,
    w: [usize; 4],
    q: [TFr; 4],
    qm: TFr,
    qc: TFr,
    pi: TFr,
}
/// a composed circuit; variable 0 is the composer's own null variable
#[derive(Clone)]
pub struct PCirc {
    vals: Vec<TFr>,
    gates: Vec<Gate>,
}
#[derive(Clone)]
pub struct PShape {
    vars: usize,
    pub gates: usize,
    pis: usize,
    small: bool,
    seed: u64,
}
impl std::fmt::Display for PShape {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "free variables={} gates={} public inputs={} coefs={} seed={}", self.vars, self.gates, self.pis, if self.small { "small" } else { "free" }, self.seed)
    }
}
impl Gate {
    fn eval(&self, v: &[TFr]) -> TFr {
        let w = |i: usize| v[self.w[i]];
        let mut r = self.qm * w(1) * w(2) + self.qc + self.pi;
        for i in 0..4 {
            r += self.q[i] * w(i);
        }
        r
    }
}
impl PCirc {
    pub fn make(s: &PShape) -> PCirc {
        let mut r = XorRng(s.seed * 2 + 1, 0x91a1);
        let mut pick = move |n: usize| (r.next_u64() % n as u64) as usize;
        let mut c = PCirc { vals: vec![TFr::zero()], gates: vec![] };
        for i in 0..s.vars {
            c.vals.push(TFr::input(&format!("w{}", i)));
        }
        let mut nc = 0;
        for g in 0..s.gates {
            let mut coef = |k: usize| {
                if s.small || k % 5 == 0 {
                    match k % 4 {
                        0 => TFr::zero(),
                        1 => TFr::one(),
                        2 => -TFr::one(),
                        _ => TFr::from(2u64),
                    }
                } else {
                    nc += 1;
                    TFr::input(&format!("c{}", nc))
                }
            };
            let n = c.vals.len();
            let some = |k: usize| if n > 1 { 1 + k % (n - 1) } else { 0 };
            let pi = if g < s.pis { TFr::input(&format!("pi{}", g)) } else { TFr::zero() };
            let (l, rr) = (some(pick(97)), some(pick(89)));
            let z = TFr::zero();
            let kind = if n == 1 { [2u8, 0, 1][g % 3] } else { [0u8, 1, 0, 1, 2, 3, 0, 1][pick(8)] };
            match kind {
                // addition / multiplication with a new or an existing output
                0 | 1 => {
                    let aux = if pick(3) == 0 { Some((some(pick(83)), coef(pick(100)))) } else { None };
                    let new = pick(4) != 0 || n == 1;
                    let mut gt = Gate { kind, w: [aux.map_or(0, |a| a.0), l, rr, 0], q: [aux.map_or(z, |a| a.1), z, z, -TFr::one()], qm: z, qc: coef(pick(100)), pi };
                    if kind == 0 {
                        gt.q[1] = coef(pick(100));
                        gt.q[2] = coef(pick(100));
                    } else {
                        gt.qm = coef(pick(100));
                    }
                    if new {
                        let mut t = gt.clone();
                        t.q[3] = z;
                        let v = t.eval(&c.vals);
                        c.vals.push(v);
                        gt.w[3] = n;
                    } else {
                        gt.w[3] = some(pick(79));
                        let e = gt.eval(&c.vals);
                        gt.qc -= e;
                    }
                    c.gates.push(gt);
                }
                2 => {
                    // var == value + pi
                    if n == 1 {
                        c.vals.push(TFr::input(&format!("k{}", g)));
                    }
                    let v = some(pick(73)).max(1);
                    let val = c.vals[v] + pi;
                    c.gates.push(Gate { kind, w: [0, v, v, v], q: [z, TFr::one(), z, z], qm: z, qc: -val, pi });
                }
                _ => {
                    // a copy of an existing variable
                    let v = c.vals[l];
                    c.vals.push(v);
                    c.gates.push(Gate { kind, w: [0, l, n, 0], q: [z, TFr::one(), -TFr::one(), z], qm: z, qc: z, pi: z });
                }
            }
        }
        c
    }
    /// drive the real composer
    pub fn compose(&self) -> Composer<TFr> {
        let mut cs = Composer::new();
        let vs: Vec<_> = self.vals[1..].iter().map(|v| cs.alloc_and_assign(*v)).collect();
        for g in &self.gates {
            let v = |i: usize| vs[g.w[i] - 1];
            let aux = if g.w[0] == 0 { None } else { Some((v(0), g.q[0])) };
            match g.kind {
                0 => cs.create_add_gate((v(1), g.q[1]), (v(2), g.q[2]), v(3), aux, g.qc, g.pi),
                1 => cs.create_mul_gate(v(1), v(2), v(3), aux, g.qm, g.qc, g.pi),
                2 => cs.constrain_to_constant(v(1), -g.qc, -g.pi),
                _ => cs.assert_equal(v(1), v(2)),
            }
        }
        cs
    }
    /// the occurrences of every variable
    fn partition(&self) -> Vec<usize> {
        let occ: Vec<usize> = self.gates.iter().flat_map(|g| g.w.iter().copied()).collect();
        occ.iter().map(|v| occ.iter().position(|u| u == v).unwrap()).collect()
    }
    fn satisfied(&self) -> bool {
        quiet(|| self.gates.iter().all(|g| g.eval(&self.vals).v.is_zero()))
    }
    pub fn pis(&self) -> Vec<TFr> {
        self.gates.iter().map(|g| g.pi).collect()
    }
    /// same circuit, false witness
    fn wrong(&self, seed: u64) -> Vec<(String, PCirc)> {
        let mut out = vec![];
        for i in 1..self.vals.len() {
            let mut c = self.clone();
            c.vals[i] += TFr::cst(det_rand(seed, &format!("bad{}", i)));
            if !c.satisfied() {
                out.push((format!("variable {} changed", i), c));
            }
        }
        // copy constraints dropped by the prover: one occurrence becomes a variable of its own
        for (k, g) in self.gates.iter().enumerate() {
            for j in 1..4 {
                if g.w[j] == 0 || g.kind >= 2 {
                    continue;
                }
                let uses: usize = self.gates.iter().map(|h| h.w.iter().filter(|x| **x == g.w[j]).count()).sum();
                if uses < 2 {
                    continue;
                }
                let mut c = self.clone();
                let n = c.vals.len();
                c.vals.push(self.vals[g.w[j]]);
                c.gates[k].w[j] = n;
                // keep the gate equation, break the wiring: change another free wire and repair with this one
                let co = |c: &PCirc| {
                    let mut v = c.vals.clone();
                    let e0 = c.gates[k].eval(&v);
                    v[n] += TFr::one();
                    (e0, c.gates[k].eval(&v) - e0)
                };
                let d = TFr::cst(det_rand(seed, &format!("split{}.{}", k, j)));
                c.vals[n] += d;
                let (e, s) = quiet(|| co(&c));
                if e.v.is_zero() || s.v.is_zero() {
                    // the wire does not enter this gate's equation: the values differ, the gates hold
                    out.push((format!("wire {} of gate {} detached", j, k), c));
                }
            }
        }
        out
    }
    /// other circuits
    fn other(&self, seed: u64) -> Vec<(String, PCirc)> {
        let mut out = vec![];
        for k in 0..self.gates.len() {
            let d = TFr::cst(det_rand(seed, &format!("oth{}", k)));
            for j in 0..6 {
                let mut c = self.clone();
                let g = &mut c.gates[k];
                let name = match (j, g.kind) {
                    (0, 0) | (0, 1) => {
                        g.qc += d;
                        "constant"
                    }
                    (1, 0) => {
                        g.q[1] += d;
                        "left coefficient"
                    }
                    (2, 0) => {
                        g.q[2] += d;
                        "right coefficient"
                    }
                    (3, 1) => {
                        g.qm += d;
                        "product coefficient"
                    }
                    (4, _) if g.w[0] != 0 => {
                        g.q[0] += d;
                        "auxiliary coefficient"
                    }
                    (5, 0) | (5, 1) if self.vals.len() > 2 => {
                        g.w[3] = 1 + g.w[3] % (self.vals.len() - 1);
                        if self.partition() == c.partition() {
                            continue;
                        }
                        "output wire"
                    }
                    _ => continue,
                };
                out.push((format!("{} of gate {}", name, k), c));
            }
        }
        out
    }
}
fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let o = tape().off;
    tape().off = true;
    let r = f();
    tape().off = o;
    r
}
pub fn shapes(thorough: bool) -> Vec<PShape> {
    let mut v = vec![];
    for (i, &(vars, gates, pis)) in [(2usize, 3usize, 1usize), (3, 4, 2), (1, 2, 0), (2, 5, 5), (0, 1, 0), (1, 1, 1), (3, 8, 1), (2, 9, 3), (0, 3, 2), (4, 6, 0), (5, 16, 2)].iter().enumerate() {
        v.push(PShape { vars, gates, pis, small: i % 3 == 2, seed: i as u64 + 900 });
    }
    if thorough {
        for k in 0..24u64 {
            v.push(PShape { vars: (k % 6) as usize, gates: 1 + (k * 5 % 19) as usize, pis: (k % 4) as usize, small: k % 4 == 0, seed: 9000 + k });
        }
    }
    v
}
pub fn ks() -> [TFr; 4] {
    [TFr::one(), TFr::from(7u64), TFr::from(13u64), TFr::from(17u64)]
}
fn pow2(n: usize) -> usize {
    n.max(1).next_power_of_two()
}
fn powz(x: TFr, n: usize) -> TFr {
    let mut r = x;
    let mut k = 1;
    while k < n {
        r = r * r;
        k *= 2;
    }
    r
}
fn root(n: usize) -> Fr {
    if n == 1 {
        Fr::one()
    } else {
        Fr::get_root_of_unity(n).unwrap()
    }
}
/// the challenges by name; None where one coincides with another element
fn named() -> Vec<Option<TFr>> {
    let t = tape();
    ["fs1.1", "fs1.2", "fs2.1", "fs3.1", "fs4.1", "fs5.1"].iter().map(|n| t.vars.iter().find(|v| v.kind == VarKind::Challenge && v.name == *n).map(|v| TFr { v: t.nodes[v.id as usize].val, id: v.id })).collect()
}
struct Eqs {
    /// t Z_H and the other side of the quotient identity, without the claimed r
    id: (TFr, TFr),
    /// one per evaluation point: commitment minus value (times h), and the point
    open: Vec<(TFr, TFr)>,
}
/// the verification equations, written from the protocol
fn parts(vk: &VerifierKey<TFr, PC>, pf: &Proof<TFr, PC>, x: &[TFr], ch: &[TFr]) -> R<Eqs> {
    let (beta, gamma, alpha, zeta, eps) = (ch[0], ch[1], ch[2], ch[3], ch[4]);
    let n = vk.info.n;
    let ev = |s: &str| pf.evaluations[NAMES.iter().position(|m| *m == s).unwrap()];
    let zn = powz(zeta, n);
    let w1 = root(n);
    let zh = zn - TFr::one();
    let ninv = TFr::cst(Fr::from(n as u64).inverse().unwrap());
    let lag = |i: usize| {
        let wi = TFr::cst(w1.pow(&[i as u64]));
        zh * ninv * wi * (zeta - wi).inverse().unwrap()
    };
    let mut pi = TFr::zero();
    for (i, v) in x.iter().enumerate() {
        pi += *v * lag(i);
    }
    let k = ks();
    let w: Vec<TFr> = (0..4).map(|i| ev(&format!("w_{}", i))).collect();
    let s: Vec<TFr> = (0..3).map(|i| ev(&format!("sigma_{}", i))).collect();
    let mut num = TFr::one();
    for i in 0..4 {
        num = num * (w[i] + beta * k[i] * zeta + gamma);
    }
    let mut den = TFr::one();
    for i in 0..3 {
        den = den * (w[i] + beta * s[i] + gamma);
    }
    // t Z_H = gates + alpha (numerator z - denominator z_shift) + alpha^2 (z - 1) L_1,
    // with r the part that is linear in the committed polynomials
    let id = (ev("t") * zh, ev("q_arith") * pi - alpha * den * (w[3] + gamma) * ev("z") - alpha * alpha * lag(0));
    let order = ["q_0", "q_1", "q_2", "q_3", "q_m", "q_c", "q_arith", "sigma_0", "sigma_1", "sigma_2", "sigma_3", "w_0", "w_1", "w_2", "w_3", "z", "t_0", "t_1", "t_2", "t_3"];
    let comms: Vec<_> = vk.comms.iter().chain(pf.commitments.iter().flat_map(|c| c.iter())).collect();
    if comms.len() != order.len() {
        return Err("number of commitments".into());
    }
    let cm = |s: &str| comms[order.iter().position(|o| *o == s).unwrap()].comm.0.x;
    let qa = ev("q_arith");
    let lc = |l: &str| -> TFr {
        match l {
            "t" => cm("t_0") + zn * cm("t_1") + zn * zn * cm("t_2") + zn * zn * zn * cm("t_3"),
            "r" => qa * (w[0] * cm("q_0") + w[1] * cm("q_1") + w[2] * cm("q_2") + w[3] * cm("q_3") + w[1] * w[2] * cm("q_m") + cm("q_c")) + (alpha * num + alpha * alpha * lag(0)) * cm("z") - alpha * den * beta * ev("z") * cm("sigma_3"),
            l => cm(l),
        }
    };
    let pts = [(zeta * TFr::cst(w1), vec!["z"]), (zeta, vec!["q_arith", "r", "sigma_0", "sigma_1", "sigma_2", "t", "w_0", "w_1", "w_2", "w_3"])];
    let g = &vk.rk.vk;
    let mut open = vec![];
    for (pt, labels) in pts.iter() {
        let (mut c, mut v, mut pw) = (TFr::zero(), TFr::zero(), TFr::one());
        for l in labels {
            c += pw * lc(l);
            v += pw * ev(l);
            pw = pw * eps;
        }
        open.push((c - v * g.g.x, *pt));
    }
    Ok(Eqs { id, open })
}
const NAMES: [&str; 11] = ["q_arith", "r", "sigma_0", "sigma_1", "sigma_2", "t", "w_0", "w_1", "w_2", "w_3", "z"];
fn equations(vk: &VerifierKey<TFr, PC>, by: &[u8], x: &[TFr]) -> R<Vec<(TFr, TFr)>> {
    let pf: Proof<TFr, PC> = de(by)?;
    let nm = named();
    if nm[..5].iter().any(|c| c.is_none()) {
        return Err("a challenge equals a proof element".into());
    }
    let ch: Vec<TFr> = nm[..5].iter().map(|c| c.unwrap()).collect();
    let e = parts(vk, &pf, x, &ch)?;
    let ops = &pf.pc_proof.proof;
    if ops.len() != 2 || pf.evaluations.len() != 11 {
        return Err("number of openings".into());
    }
    let g = &vk.rk.vk;
    let mut out = vec![(e.id.0, e.id.1 + pf.evaluations[1])];
    let o: Vec<TFr> = e.open.iter().zip(ops.iter()).map(|((c, pt), op)| (*c - op.random_v.unwrap_or_else(TFr::zero) * g.gamma_g.x + *pt * op.w.x) * g.h.x - op.w.x * g.beta_h.x).collect();
    match nm[5] {
        // the two openings may be combined by a challenge drawn after them
        Some(rho) => out.push((o[0] + rho * o[1], TFr::zero())),
        None => out.extend(o.iter().map(|x| (*x, TFr::zero()))),
    }
    Ok(out)
}
/// a proof made up from public values, for openings that are combined by a predictable number
fn forged(c: &mut Ctx, s: &PShape, seed: u64) {
    tape().reset(seed, Assign::new());
    let got = guarded(|| -> R<Option<bool>> {
        let circ = PCirc::make(s);
        let n = pow2(circ.gates.len());
        let srs = PL::setup((n + 2).max(2), &mut rng(7)).map_err(e2s)?;
        let cs = circ.compose();
        let (pk, vk) = PL::keygen(&srs, &cs, ks()).map_err(e2s)?;
        let by = ser(&PL::prove(&pk, &cs, &mut rng(12)).map_err(e2s)?);
        let rho: TFr = {
            use ark_ff::UniformRand;
            u128::rand(&mut ark_std::test_rng()).into()
        };
        // a false statement
        let x: Vec<TFr> = (0..circ.gates.len()).map(|i| TFr::cst(det_rand(seed, &format!("false{}", i)))).collect();
        let mut pf: Proof<TFr, PC> = de(&by)?;
        for (i, g) in pf.commitments.iter_mut().flat_map(|c| c.iter_mut()).enumerate() {
            g.comm.0.x = TFr::cst(det_rand(seed, &format!("cm{}", i)));
        }
        for (i, e) in pf.evaluations.iter_mut().enumerate() {
            *e = TFr::cst(det_rand(seed, &format!("ev{}", i)));
        }
        // 1: the challenges up to the evaluation point, then r that satisfies the identity
        // 2: the challenge of the batched opening, then the two opening elements
        for step in 0..2 {
            merlin::verif_start();
            let r = guarded(|| PL::verify(&vk, &x, de(&ser(&pf))?).map_err(e2s));
            merlin::verif_take();
            if let Ok(Ok(true)) = r {
                return Ok(Some(true));
            }
            let nm = named_last();
            if nm.iter().any(|c| c.is_none()) {
                return Ok(None);
            }
            let ch: Vec<TFr> = nm.into_iter().map(|c| c.unwrap()).collect();
            let e = parts(&vk, &pf, &x, &ch)?;
            if step == 0 {
                pf.evaluations[1] = e.id.0 - e.id.1;
            } else {
                // w0 + rho w1 = 0 and c0 + z0 w0 + rho (c1 + z1 w1) = 0
                let ((c0, z0), (c1, z1)) = (e.open[0], e.open[1]);
                let w1 = -(c0 + rho * c1) * (rho * (z1 - z0)).inverse().unwrap();
                let mut p: Vec<_> = pf.pc_proof.proof.iter().cloned().collect();
                p[0].w.x = -rho * w1;
                p[1].w.x = w1;
                p[0].random_v = None;
                p[1].random_v = None;
                pf.pc_proof.proof = p.into();
            }
        }
        Ok(Some(PL::verify(&vk, &x, pf).map_err(e2s)?))
    });
    match got {
        Ok(Ok(Some(acc))) => { c.ob("a proof of a false statement made up from public values is rejected", By::Ground, !acc, || format!("all commitments and evaluations random, openings solved for the fixed combining number; seed {}", seed)); }
        Ok(Ok(None)) => c.note("forgery not tried: challenges not identified"),
        Ok(Err(_)) | Err(_) => { c.ob("a proof of a false statement made up from public values is rejected", By::Ground, true, || String::new()); }
    }
}
/// the latest challenges (several runs may be on the tape)
fn named_last() -> Vec<Option<TFr>> {
    let t = tape();
    ["fs1.1", "fs1.2", "fs2.1", "fs3.1", "fs4.1"].iter().map(|n| t.vars.iter().rev().find(|v| v.kind == VarKind::Challenge && v.name == *n).map(|v| TFr { v: t.nodes[v.id as usize].val, id: v.id })).collect()
}
type Bad<'a> = Vec<(String, Box<dyn Fn() -> R<(Vec<u8>, Vec<TFr>)> + 'a>)>;
type Alt<'a> = Vec<(String, Box<dyn Fn(&[u8]) -> R<bool> + 'a>)>;
pub fn mk<'a>(s: &'a PShape, seed: u64) -> Proto<'a> {
    let circ = PCirc::make(s);
    assert!(circ.satisfied(), "harness: circuit not satisfied");
    let n = pow2(circ.gates.len());
    let srs = Rc::new(PL::setup((n + 2).max(2), &mut rng(seed)).map_err(e2s).unwrap());
    let cs = circ.compose();
    let (pk, vk) = PL::keygen(&srs, &cs, ks()).map_err(e2s).unwrap();
    let (pk, vk) = (Rc::new(pk), Rc::new(vk));
    let public = ser(&*vk);
    let mut bad: Bad = vec![];
    for (name, b) in circ.wrong(seed) {
        let pk = pk.clone();
        bad.push((name, Box::new(move || Ok((ser(&PL::prove(&pk, &b.compose(), &mut rng(seed + 5)).map_err(e2s)?), b.pis())))));
    }
    let mut alt: Alt = vec![];
    for (name, b) in circ.other(seed) {
        let x = circ.pis();
        let srs = srs.clone();
        alt.push((name, Box::new(move |by| {
            let (_, vk) = PL::keygen(&srs, &b.compose(), ks()).map_err(e2s)?;
            again();
            PL::verify(&vk, &x, de(by)?).map_err(e2s)
        })));
    }
    for round in 0..2 {
        let (x, vk) = (circ.pis(), vk.clone());
        alt.push((format!("the last commitment of round {} sent one round later", round + 1), Box::new(move |by| {
            let mut p: Proof<TFr, PC> = de(by)?;
            let m = p.commitments[round].pop().ok_or("no commitment")?;
            p.commitments[round + 1].insert(0, m);
            PL::verify(&vk, &x, p).map_err(e2s)
        })));
    }
    let inputs = circ.pis();
    let fixed = inputs.iter().copied().chain(circ.gates.iter().flat_map(|g| g.q.iter().copied().chain([g.qm, g.qc, g.pi].iter().copied().collect::<Vec<_>>()))).collect();
    let prove = Box::new(move || {
        if cs.public_inputs().len() != inputs_len(&circ) {
            return Err("public inputs".into());
        }
        Ok(ser(&PL::prove(&pk, &cs, &mut rng(seed + 5)).map_err(e2s)?))
    });
    let v2 = vk.clone();
    let verify = Box::new(move |b: &[u8], x: &[TFr]| PL::verify(&vk, x, de(b)?).map_err(e2s));
    Proto { fixed, prove, verify, inputs, public, alt, bad, reference: Some(Box::new(move |b, x, _| equations(&v2, b, x))) }
}
fn inputs_len(c: &PCirc) -> usize {
    c.gates.len()
}
pub fn opts() -> Opts {
    Opts { slack: None, chain: true, ..Default::default() }
}
pub fn p18(c: &mut Ctx) {
    let w = Which { complete: false, sound: true, fs: false, hide: false };
    for (i, s) in shapes(c.thorough).iter().enumerate() {
        if c.late() {
            break;
        }
        c.set_shape(s.to_string());
        protocol(c, c.seed * 100 + i as u64, &opts(), &w, &|| mk(s, 7));
        forged(c, s, c.seed * 100 + i as u64);
    }
}
pub fn p17(c: &mut Ctx) {
    let w = Which { complete: true, sound: false, fs: false, hide: false };
    for (i, s) in shapes(c.thorough).iter().enumerate() {
        if c.late() {
            break;
        }
        c.set_shape(s.to_string());
        let seed = c.seed * 100 + i as u64;
        tape().reset(seed, Assign::new());
        quiet(|| composition(c, s));
        protocol(c, seed, &opts(), &w, &|| mk(s, 7));
    }
}
/// selectors, wires and permutation are the stated gates and copy constraints
fn composition(c: &mut Ctx, s: &PShape) {
    let circ = PCirc::make(s);
    let cs = circ.compose();
    let k = ks();
    let n = pow2(circ.gates.len());
    let got = guarded(|| {
        let a = cs.compose(&k).map_err(e2s)?;
        let b = cs.synthesize().map_err(e2s)?;
        Ok::<_, String>((a, b))
    });
    let (sel, wit) = match got {
        Ok(Ok(x)) => x,
        e => {
            c.ob("composition succeeds", By::Ground, false, || format!("{:?}", e.map(|r| r.map(|_| ()))));
            return;
        }
    };
    let lens = sel.size() == n && sel.iter().all(|v| v.len() == n) && wit.iter().all(|v| v.len() == n) && cs.size() == circ.gates.len() && cs.public_inputs().len() == circ.gates.len();
    c.ob("selector and witness columns have the domain's size", By::Ground, lens, || format!("{} {}", sel.size(), n));
    if !lens {
        return;
    }
    let q = [&sel.q_0, &sel.q_1, &sel.q_2, &sel.q_3];
    let w = [&wit.w_0, &wit.w_1, &wit.w_2, &wit.w_3];
    let pi = cs.public_inputs();
    let z = TFr::zero();
    for i in 0..n {
        let g = circ.gates.get(i);
        let zero = Gate { kind: 9, w: [0; 4], q: [z; 4], qm: z, qc: z, pi: z };
        let gt = g.unwrap_or(&zero);
        // the gate polynomial in the wires: equal as a polynomial (coefficients), gates selected
        let act = sel.q_arith[i];
        let ok = (0..4).all(|j| (act * q[j][i]).same(&gt.q[j])) && (act * sel.q_m[i]).same(&gt.qm) && (act * sel.q_c[i]).same(&gt.qc) && (if i < pi.len() { act * pi[i] } else { z }).same(&gt.pi);
        c.ob("every row states exactly the gate it was given", By::Pit, ok, || format!("row {} of {} (gate kind {})", i, n, gt.kind));
        let okw = (0..4).all(|j| g.is_none() || w[j][i].same(&circ.vals[gt.w[j]]));
        c.ob("every wire carries the value of its variable", By::Pit, okw, || format!("row {}", i));
    }
    // permutation: bijective, and its cycles are the occurrences of one variable
    let w1 = root(n);
    let label = |j: usize, i: usize| k[j].v * w1.pow(&[i as u64]);
    let mut pos = std::collections::HashMap::new();
    for j in 0..4 {
        for i in 0..n {
            pos.insert(label(j, i).to_string(), j * n + i);
        }
    }
    let sg = [&sel.sigma_0, &sel.sigma_1, &sel.sigma_2, &sel.sigma_3];
    let mut perm = vec![usize::MAX; 4 * n];
    let mut hit = vec![false; 4 * n];
    let mut bij = true;
    for j in 0..4 {
        for i in 0..n {
            match pos.get(&sg[j][i].v.to_string()) {
                Some(t) => {
                    bij &= !hit[*t];
                    hit[*t] = true;
                    perm[j * n + i] = *t;
                }
                None => bij = false,
            }
        }
    }
    c.ob("the wiring is a permutation of the wire positions", By::Ground, bij, || format!("{:?}", perm));
    if bij {
        let var = |p: usize| circ.gates.get(p % n).map(|g| g.w[p / n]);
        let mut cyc = vec![usize::MAX; 4 * n];
        for p in 0..4 * n {
            let mut x = p;
            while cyc[x] == usize::MAX {
                cyc[x] = p;
                x = perm[x];
            }
        }
        let mut bad = vec![];
        for a in 0..4 * n {
            for b in 0..a {
                let same_var = var(a).is_some() && var(a) == var(b);
                let same_cyc = cyc[a] == cyc[b];
                // positions outside the gates may be tied to nothing
                if same_var != same_cyc {
                    bad.push((a, b));
                }
            }
        }
        c.ob("two wires are tied together exactly when they carry the same variable", By::Ground, bad.is_empty(), || format!("positions {:?} of {}", &bad[..bad.len().min(6)], 4 * n));
    }
}
pub fn runs(c: &mut Ctx, w: &Which) {
    for (i, s) in shapes(c.thorough).iter().enumerate() {
        if c.late() {
            break;
        }
        c.set_shape(s.to_string());
        protocol(c, c.seed * 100 + i as u64, &opts(), w, &|| mk(s, 7));
    }
}

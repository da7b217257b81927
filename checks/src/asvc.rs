//! P24: aggregatable subvector commitments.  The real generic code runs on the model engine, the
//! committed values, the toxic waste and both generators are variables.
use crate::circ::rng;
use crate::ctx::*;
use ark_ff::{FftField, Field, One, Zero};
use serde_json::json;
use vmodel::*;
use zkp_asvc::*;

fn show(asg: &Assign) -> String {
    show_point(asg)
}
struct W {
    n: usize,
    om: Fr,
    t: Fr,
    g1: Fr,
}
impl W {
    fn root(&self, i: usize) -> Fr {
        self.om.pow(&[i as u64])
    }
    /// L_i(t) over the n-th roots, by its definition
    fn lag(&self, i: usize) -> Fr {
        let mut r = Fr::one();
        for j in 0..self.n {
            if j != i {
                r *= (self.t - self.root(j)) * (self.root(i) - self.root(j)).inverse().unwrap();
            }
        }
        r
    }
    /// interpolation of the values at the given positions, at t
    fn interp(&self, ps: &[u32], vs: &[Fr]) -> Fr {
        let mut r = Fr::zero();
        for (a, &p) in ps.iter().enumerate() {
            let mut l = vs[a];
            for (b, &q) in ps.iter().enumerate() {
                if a != b {
                    l *= (self.t - self.root(q as usize)) * (self.root(p as usize) - self.root(q as usize)).inverse().unwrap();
                }
            }
            r += l;
        }
        r
    }
    fn van(&self, ps: &[u32]) -> Fr {
        ps.iter().map(|&p| self.t - self.root(p as usize)).product()
    }
    fn commit(&self, vs: &[Fr]) -> Fr {
        self.g1 * vs.iter().enumerate().map(|(i, v)| self.lag(i) * v).sum::<Fr>()
    }
    /// the quotient (phi - r_I) / A_I at t
    fn proof(&self, vs: &[Fr], ps: &[u32]) -> Fr {
        let all: Vec<Fr> = ps.iter().map(|&p| vs.get(p as usize).cloned().unwrap_or_else(Fr::zero)).collect();
        (self.commit(vs) - self.g1 * self.interp(ps, &all)) * self.van(ps).inverse().unwrap()
    }
}
fn sets(n: usize, seed: u64, thorough: bool) -> Vec<Vec<u32>> {
    let mut o = vec![];
    if n <= if thorough { 8 } else { 4 } {
        for m in 1u32..(1 << n) {
            o.push((0..n as u32).filter(|i| m >> i & 1 == 1).collect());
        }
    } else {
        for i in 0..n as u32 {
            o.push(vec![i]);
        }
        let mut s = seed;
        for _ in 0..if thorough { 60 } else { 20 } {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let m = s >> 24;
            let v: Vec<u32> = (0..n as u32).filter(|i| m >> (i % 40) & 1 == 1).collect();
            if !v.is_empty() {
                o.push(v);
            }
        }
        o.push((0..n as u32).collect());
    }
    // the order in which positions are given does not matter
    let mut more = vec![];
    for (k, v) in o.iter().enumerate() {
        if v.len() > 1 && k % 3 == 0 {
            let mut w = v.clone();
            w.reverse();
            more.push(w);
            let mut w = v.clone();
            w.rotate_left(1 + k % (v.len() - 1).max(1));
            more.push(w);
        }
    }
    o.extend(more);
    o
}

pub fn p24(c: &mut Ctx) {
    let sizes: &[(usize, usize)] = if c.thorough { &[(1, 1), (2, 2), (2, 1), (3, 3), (4, 4), (4, 2), (5, 5), (8, 8), (7, 7), (8, 3), (16, 16), (13, 11), (32, 32)] } else { &[(1, 1), (2, 2), (3, 3), (4, 4), (4, 2), (5, 5), (8, 8), (13, 11)] };
    for (k, &(req, len)) in sizes.iter().enumerate() {
        if c.late() && k > 5 {
            c.note(format!("time budget reached after {} of {} sizes", k, sizes.len()));
            break;
        }
        // zero values and equal values are part of the input space: mask selects them
        for style in 0..3 {
            if style > 0 && req > 8 && !c.thorough {
                continue;
            }
            c.set_shape(format!("key size={} committed={} values={}", req, len, ["free", "with zeros", "all equal"][style]));
            tape().reset(c.seed * 100 + k as u64, Assign::new());
            one(c, req, len, style);
        }
    }
    verifier(c);
}

fn one(c: &mut Ctx, req: usize, len: usize, style: usize) {
    let asg = Assign::new();
    let mut r = rng(c.seed + req as u64);
    let kg = guarded(|| key_gen::<MP, _>(req, &mut r));
    let pp = match kg {
        Ok(Ok(p)) => p,
        e => {
            c.ob("key_gen: succeeds for every size", By::Ground, false, || format!("{:?}", e.map(|x| x.map(|_| ()))));
            return;
        }
    };
    let n = req.next_power_of_two();
    let om = Fr::get_root_of_unity(n).unwrap();
    let (pk, vk) = (&pp.proving_key, &pp.verification_key);
    let g1 = pk.powers_of_g1[0].x.v;
    let g2 = vk.powers_of_g2[0].x.v;
    let t = pk.powers_of_g1.get(1).map(|p| p.x.v * g1.inverse().unwrap()).unwrap_or_else(Fr::zero);
    let w = W { n, om, t, g1 };
    // the key
    let mut bad = vec![];
    let mut chk = |name: String, got: Option<Fr>, want: Fr| {
        if got != Some(want) {
            bad.push(name);
        }
    };
    let mut tp = Fr::one();
    for i in 0..=n {
        chk(format!("powers_of_g1[{}]", i), pk.powers_of_g1.get(i).map(|p| p.x.v), g1 * tp);
        chk(format!("vk.powers_of_g1[{}]", i), vk.powers_of_g1.get(i).map(|p| p.x.v), g1 * tp);
        chk(format!("powers_of_g2[{}]", i), vk.powers_of_g2.get(i).map(|p| p.x.v), g2 * tp);
        tp *= t;
    }
    let a = t.pow(&[n as u64]) - Fr::one();
    chk("a".into(), Some(vk.a.x.v), g1 * a);
    for i in 0..n {
        let d = (t - w.root(i)).inverse().unwrap();
        chk(format!("l[{}]", i), pk.l_of_g1.get(i).map(|p| p.x.v), g1 * w.lag(i));
        chk(format!("a[{}]", i), pk.update_keys.get(i).map(|p| p.ai.x.v), g1 * a * d);
        chk(format!("u[{}]", i), pk.update_keys.get(i).map(|p| p.ui.x.v), g1 * (w.lag(i) - Fr::one()) * d);
    }
    if pk.powers_of_g1.len() != n + 1 || vk.powers_of_g1.len() != n + 1 || vk.powers_of_g2.len() != n + 1 || pk.l_of_g1.len() != n || pk.update_keys.len() != n {
        bad.push("lengths".into());
    }
    c.ob("key_gen: the key elements are the prescribed ones", By::Pit, bad.is_empty(), || format!("{:?} differ, {}", bad, show(&asg)));
    // values
    let mut vals: Vec<TFr> = (0..len).map(|i| TFr::input(&format!("v{}", i))).collect();
    if style == 1 {
        for i in (0..len).step_by(2) {
            vals[i] = TFr::zero();
        }
    }
    if style == 2 {
        for i in 1..len {
            vals[i] = vals[0];
        }
    }
    let omt = TFr::cst(om);
    let v: Vec<Fr> = vals.iter().map(|x| x.v).collect();
    let full = |i: u32| v.get(i as usize).cloned().unwrap_or_else(Fr::zero);
    let cm = match guarded(|| commit::<MP>(pk, vals.clone())) {
        Ok(Ok(x)) => x,
        e => {
            c.ob("commit: succeeds for every vector that fits", By::Ground, false, || format!("{:?}", e.map(|x| x.map(|_| ()))));
            return;
        }
    };
    c.ob("commit: the commitment to the vector's interpolation", By::Pit, cm.commit.x.v == w.commit(&v), || show(&asg));
    // updates keys
    for i in 0..n as u32 {
        let g = guarded(|| verify_upk::<MP>(vk, i, &pk.update_keys[i as usize], omt));
        c.ob("verify_upk: every genuine update key is accepted", By::Pit, matches!(g, Ok(Ok(true))), || format!("position {} of {}: {:?}", i, n, g));
        for j in [0, 1, n as u32 / 2, n as u32 - 1, n as u32 + i, 2 * n as u32 + i].iter() {
            if *j != i {
                let g = guarded(|| verify_upk::<MP>(vk, *j, &pk.update_keys[i as usize], omt));
                c.ob("verify_upk: no other position's key is accepted", By::Pit, !matches!(g, Ok(Ok(true))), || format!("key of position {} accepted for position {} of {}", i, j, n));
            }
        }
        for k in 0..2 {
            let mut u = pk.update_keys[i as usize].clone();
            let d = TFr::cst(det_rand(c.seed, &format!("upk{}", k)));
            if k == 0 {
                u.ai.x += d
            } else {
                u.ui.x += d
            }
            let g = guarded(|| verify_upk::<MP>(vk, i, &u, omt));
            c.ob("verify_upk: an altered update key is rejected", By::Pit, !matches!(g, Ok(Ok(true))), || format!("position {} element {}", i, k));
        }
    }
    // openings
    let single: Vec<_> = (0..n as u32).map(|i| guarded(|| prove_pos::<MP>(pk, vals.clone(), vec![i]))).collect();
    let ss = sets(n, c.seed + n as u64, c.thorough);
    for (si, ps) in ss.iter().enumerate() {
        let at: Vec<TFr> = ps.iter().map(|&p| vals.get(p as usize).cloned().unwrap_or_else(TFr::zero)).collect();
        let pf = match guarded(|| prove_pos::<MP>(pk, vals.clone(), ps.clone())) {
            Ok(Ok(p)) => p,
            e => {
                c.ob("prove_pos: succeeds for every set of positions", By::Ground, false, || format!("{:?} {:?}", ps, e.map(|x| x.map(|_| ()))));
                continue;
            }
        };
        c.ob("prove_pos: the proof is the prescribed quotient", By::Pit, pf.w.x.v == w.proof(&v, ps), || format!("positions {:?} {}", ps, show(&asg)));
        let ver = |cm: &Commitment<MP>, at: &[TFr], ps: &[u32], pf: &Proof<MP>, om: TFr| guarded(|| verify_pos::<MP>(vk, cm, at.to_vec(), ps.to_vec(), pf, om));
        let g = ver(&cm, &at, ps, &pf, omt);
        c.ob("verify_pos: proofs of the committed values are accepted", By::Pit, matches!(g, Ok(Ok(true))), || format!("positions {:?}: {:?} {}", ps, g, show(&asg)));
        // aggregation
        let parts: Vec<Proof<MP>> = ps.iter().filter_map(|&p| match &single[p as usize] {
            Ok(Ok(x)) => Some(x.clone()),
            _ => None,
        }).collect();
        if parts.len() == ps.len() {
            match guarded(|| aggregate_proofs::<MP>(ps.clone(), parts, omt)) {
                Ok(Ok(ag)) => {
                    c.ob("aggregate_proofs: the aggregate is the proof of the set", By::Pit, ag.w.x.v == w.proof(&v, ps), || format!("positions {:?} {}", ps, show(&asg)));
                    let g = ver(&cm, &at, ps, &ag, omt);
                    c.ob("verify_pos: aggregated proofs are accepted", By::Pit, matches!(g, Ok(Ok(true))), || format!("positions {:?}: {:?}", ps, g));
                }
                e => {
                    c.ob("aggregate_proofs: succeeds", By::Ground, false, || format!("{:?} {:?}", ps, e.map(|x| x.map(|_| ()))));
                }
            }
        }
        if si % (1 + ss.len() / 24) != 0 {
            continue;
        }
        let rej = |c: &mut Ctx, what: String, g: Result<Result<bool, zkp_r1cs::SynthesisError>, String>| {
            c.ob("verify_pos: any other value, position, proof or commitment is rejected", By::Pit, !matches!(g, Ok(Ok(true))), || format!("positions {:?}: {} accepted, {}", ps, what, show(&Assign::new())));
        };
        let d = TFr::cst(det_rand(c.seed, "alt"));
        for k in 0..ps.len() {
            let mut b = at.clone();
            b[k] += d;
            rej(c, format!("other value at {}", ps[k]), ver(&cm, &b, ps, &pf, omt));
            for j in 0..n as u32 {
                if !ps.contains(&j) && full(j) != at[k].v {
                    let mut q = ps.clone();
                    q[k] = j;
                    rej(c, format!("position {} for {}", j, ps[k]), ver(&cm, &at, &q, &pf, omt));
                }
            }
            let mut q = ps.clone();
            q[k] += n as u32;
            rej(c, format!("out of range position {}", q[k]), ver(&cm, &at, &q, &pf, omt));
            if k > 0 {
                let mut b = at.clone();
                b.swap(0, k);
                if b[0].v != b[k].v {
                    rej(c, "swapped values".into(), ver(&cm, &b, ps, &pf, omt));
                }
                let mut q = ps.clone();
                q[k] = q[0];
                rej(c, "repeated position".into(), ver(&cm, &at, &q, &pf, omt));
            }
        }
        let mut b = at.clone();
        b.pop();
        rej(c, "too few values".into(), ver(&cm, &b, ps, &pf, omt));
        let mut b = at.clone();
        b.push(d);
        rej(c, "too many values".into(), ver(&cm, &b, ps, &pf, omt));
        rej(c, "other commitment".into(), ver(&Commitment { commit: G1::new(cm.commit.x + d) }, &at, ps, &pf, omt));
        rej(c, "other proof".into(), ver(&cm, &at, ps, &Proof { w: G1::new(pf.w.x + d) }, omt));
    }
    // updates: every history of updates gives the commitment and the proofs of the updated vector
    let mut cur = v.clone();
    cur.resize(n, Fr::zero());
    let mut cm2 = cm.clone();
    let mut pfs: Vec<Proof<MP>> = single.into_iter().filter_map(|x| match x {
        Ok(Ok(p)) => Some(p),
        _ => None,
    }).collect();
    if pfs.len() != n {
        return;
    }
    let steps = if n > 8 && !c.thorough { 3 } else { n + 2 };
    for s in 0..steps {
        let j = ((s * 5 + 3 * (s / n) + c.seed as usize) % n) as u32;
        let d = if s == 1 { TFr::zero() } else { TFr::input(&format!("delta{}", s)) };
        cur[j as usize] += d.v;
        let uk = &pk.update_keys;
        let g = guarded(|| update_commit::<MP>(&cm2, d, j, &uk[j as usize], omt, n));
        match g {
            Ok(Ok(x)) => cm2 = x,
            e => {
                c.ob("update_commit: succeeds", By::Ground, false, || format!("{:?}", e.map(|x| x.map(|_| ()))));
                return;
            }
        }
        c.ob("update_commit: the commitment of the updated vector", By::Pit, cm2.commit.x.v == w.commit(&cur), || format!("after update {} at position {} {}", s, j, show(&asg)));
        for i in 0..n as u32 {
            match guarded(|| update_proof::<MP>(&pfs[i as usize], d, i, j, &uk[i as usize], &uk[j as usize], omt, n)) {
                Ok(Ok(x)) => pfs[i as usize] = x,
                e => {
                    c.ob("update_proof: succeeds", By::Ground, false, || format!("{:?}", e.map(|x| x.map(|_| ()))));
                    return;
                }
            }
            c.ob("update_proof: the proof of the updated vector", By::Pit, pfs[i as usize].w.x.v == w.proof(&cur, &[i]), || format!("proof of {} after update {} at position {} {}", i, s, j, show(&asg)));
            let g = guarded(|| verify_pos::<MP>(vk, &cm2, vec![TFr::cst(cur[i as usize])], vec![i], &pfs[i as usize], omt));
            c.ob("verify_pos: updated proofs are accepted for the updated commitment", By::Pit, matches!(g, Ok(Ok(true))), || format!("position {} after update {}", i, s));
            if i == j && !d.v.is_zero() {
                let g = guarded(|| verify_pos::<MP>(vk, &cm2, vec![TFr::cst(cur[i as usize] - d.v)], vec![i], &pfs[i as usize], omt));
                c.ob("verify_pos: the value before an update is rejected after it", By::Pit, !matches!(g, Ok(Ok(true))), || format!("position {} after update {}", i, s));
            }
        }
    }
    c.sample(json!({"size": n, "sets": ss.len(), "point": show(&asg)}));
}

/// acceptance is exactly the pairing equation, for arbitrary keys, commitments, proofs and values
fn verifier(c: &mut Ctx) {
    for &(n, ref ps) in &[(2usize, vec![0u32]), (4, vec![1]), (4, vec![0, 3]), (4, vec![3, 1, 2]), (8, vec![5]), (8, vec![1, 6, 7, 0]), (1, vec![0])] {
        c.set_shape(format!("verifier: n={} positions={:?}, free key, proof and values", n, ps));
        let om = Fr::get_root_of_unity(n).unwrap();
        let mut acc = [0usize; 2];
        let dl = c.slice(0.1);
        let seed = c.seed * 31 + n as u64;
        let st = explore(seed, 60, dl, Assign::new(), |_, asg| {
            let vk = VerificationKey::<MP> {
                powers_of_g1: (0..=n).map(|i| G1::new(TFr::input(&format!("p1_{}", i)))).collect(),
                powers_of_g2: (0..=n).map(|i| G2::new(TFr::input(&format!("p2_{}", i)))).collect(),
                a: G1::new(TFr::input("a")),
            };
            let cm = Commitment::<MP> { commit: G1::new(TFr::input("c")) };
            let pf = Proof::<MP> { w: G1::new(TFr::input("w")) };
            let vals: Vec<TFr> = (0..ps.len()).map(|i| TFr::input(&format!("v{}", i))).collect();
            let g = guarded(|| verify_pos::<MP>(&vk, &cm, vals.clone(), ps.clone(), &pf, TFr::cst(om)));
            // the coefficients of the interpolation and of the vanishing polynomial
            let rt: Vec<Fr> = ps.iter().map(|&p| om.pow(&[p as u64])).collect();
            let mulx = |p: &[Fr], r: Fr| {
                let mut o = vec![Fr::zero(); p.len() + 1];
                for (i, x) in p.iter().enumerate() {
                    o[i + 1] += x;
                    o[i] -= *x * r;
                }
                o
            };
            let mut ai = vec![Fr::one()];
            for r in &rt {
                ai = mulx(&ai, *r);
            }
            let mut ri = vec![Fr::zero(); rt.len()];
            for (i, r) in rt.iter().enumerate() {
                let mut l = vec![Fr::one()];
                let mut d = Fr::one();
                for (j, s) in rt.iter().enumerate() {
                    if i != j {
                        l = mulx(&l, *s);
                        d *= *r - *s;
                    }
                }
                for (k, x) in l.iter().enumerate() {
                    ri[k] += *x * vals[i].v * d.inverse().unwrap();
                }
            }
            let e1: Fr = ri.iter().zip(&vk.powers_of_g1).map(|(x, p)| *x * p.x.v).sum();
            let e2: Fr = ai.iter().zip(&vk.powers_of_g2).map(|(x, p)| *x * p.x.v).sum();
            let want = (cm.commit.x.v - e1) * vk.powers_of_g2[0].x.v == pf.w.x.v * e2;
            let got = matches!(g, Ok(Ok(true)));
            acc[0] += got as usize;
            c.ob("verify_pos: accepts exactly when the pairing equation holds", By::Pit, got == want, || format!("verifier said {:?}, equation {}, {}", g, want, show(asg)));
            true
        });
        c.stats(st);
        let st = explore(seed ^ 9, 60, dl, Assign::new(), |_, asg| {
            let vk = VerificationKey::<MP> {
                powers_of_g1: (0..=n).map(|i| G1::new(TFr::input(&format!("p1_{}", i)))).collect(),
                powers_of_g2: (0..=n).map(|i| G2::new(TFr::input(&format!("p2_{}", i)))).collect(),
                a: G1::new(TFr::input("a")),
            };
            let u = UpdateKey::<MP> { ai: G1::new(TFr::input("ai")), ui: G1::new(TFr::input("ui")) };
            let i = ps[0];
            let g = guarded(|| verify_upk::<MP>(&vk, i, &u, TFr::cst(om)));
            let wi = om.pow(&[i as u64]);
            let inner = vk.powers_of_g2[1].x.v - vk.powers_of_g2[0].x.v * wi;
            let l = u.ai.x.v * wi * Fr::from(n as u64).inverse().unwrap();
            let want = u.ai.x.v * inner == vk.a.x.v * vk.powers_of_g2[0].x.v && (l - vk.powers_of_g1[0].x.v) * vk.powers_of_g2[0].x.v == u.ui.x.v * inner;
            let got = matches!(g, Ok(Ok(true)));
            acc[1] += got as usize;
            c.ob("verify_upk: accepts exactly when both pairing equations hold", By::Pit, got == want, || format!("verifier said {:?}, equations {}, {}", g, want, show(asg)));
            true
        });
        c.stats(st);
        c.ob("cover: acceptance of the equations was reached", By::Ground, acc[0] > 0 && acc[1] > 0, || format!("{:?}", acc));
    }
}

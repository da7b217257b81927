//! P11/P12: Groth16.  The real generic code runs on the model engine MP, i.e. every group
//! element is its traced discrete logarithm.
use crate::circ::*;
use crate::ctx::*;
use ark_ff::{FftField, Field, One, Zero};
use serde_json::json;
use vmodel::*;
use zkp_groth16::generator::generate_parameters;
use zkp_groth16::prover::{create_proof, create_random_proof};
use zkp_groth16::{generate_random_parameters, prepare_verifying_key, verify_proof, Parameters, Proof, VerifyKey};

fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let o = tape().off;
    tape().off = true;
    let r = f();
    tape().off = o;
    r
}
pub fn shapes(thorough: bool) -> Vec<Shape> {
    let mut v = vec![];
    let mut s = 0;
    for &(i, a, c) in &[(1, 2, 2), (0, 1, 1), (1, 0, 1), (0, 2, 3), (2, 3, 4), (3, 1, 3), (1, 6, 7), (4, 4, 8), (5, 2, 3), (0, 0, 1), (2, 0, 0), (7, 9, 9), (3, 12, 13)] {
        s += 1;
        v.push(Shape { n_in: i, n_aux: a, n_con: c, terms: 3, small: s % 2 == 0, seed: s as u64 });
    }
    v.push(Shape { n_in: 2, n_aux: 4, n_con: 5, terms: 9, small: false, seed: 77 });
    v.push(Shape { n_in: 2, n_aux: 4, n_con: 5, terms: 9, small: true, seed: 78 });
    if thorough {
        for k in 0..24u64 {
            v.push(Shape { n_in: (k % 7) as usize, n_aux: (k * 5 % 11) as usize, n_con: (k * 3 % 17) as usize, terms: 1 + (k % 8) as usize, small: k % 3 == 0, seed: 1000 + k });
        }
    }
    v
}

/// independent QAP evaluation: u_i(t), v_i(t), w_i(t) for i over (one, inputs, aux)
fn qap(c: &Circ, t: Fr) -> (Vec<[Fr; 3]>, Fr) {
    let nin = c.ins.len() + 1;
    let m = c.cons.len();
    let mut n = 1;
    while n < m + nin {
        n *= 2;
    }
    let om = Fr::get_root_of_unity(n).unwrap();
    let zt = t.pow(&[n as u64]) - Fr::one();
    let ninv = Fr::from(n as u64).inverse().unwrap();
    let lag = |k: usize| {
        let w = om.pow(&[k as u64]);
        zt * ninv * w * (t - w).inverse().unwrap()
    };
    let mut q = vec![[Fr::zero(); 3]; nin + c.aux.len()];
    let idx = |v: &V| match v {
        V::One => 0,
        V::In(i) => 1 + i,
        V::Aux(i) => nin + i,
    };
    for i in 0..nin {
        q[i][0] += lag(m + i);
    }
    for (k, (a, b, e)) in c.cons.iter().enumerate() {
        let l = lag(k);
        for (j, lc) in [a, b, e].iter().enumerate() {
            for (v, co) in lc.iter() {
                q[idx(v)][j] += l * co.v;
            }
        }
    }
    (q, zt)
}

pub fn p11(c: &mut Ctx) {
    let shapes = shapes(c.thorough);
    let n = shapes.len();
    for (si, s) in shapes.iter().enumerate() {
        if c.late() && si > 8 {
            c.note(format!("time budget reached after {} of {} shapes", si, n));
            break;
        }
        c.set_shape(s.to_string());
        let budget = if s.n_con <= 4 { if c.thorough { 60 } else { 10 } } else { if c.thorough { 20 } else { 3 } };
        let seed = c.seed * 1000 + si as u64;
        let dl = c.slice(0.25);
        let st = explore(seed, budget, dl, Assign::new(), |_, asg| {
            run_p11(c, s, seed, asg);
            true
        });
        c.stats(st);
    }
}

fn run_p11(c: &mut Ctx, s: &Shape, seed: u64, asg: &Assign) {
    let circ = Circ::make(s);
    let mut r = rng(seed);
    let (al, be, ga, de) = (TFr::var("alpha", VarKind::Coin), TFr::var("beta", VarKind::Coin), TFr::var("gamma", VarKind::Coin), TFr::var("delta", VarKind::Coin));
    let pp = match guarded(|| generate_parameters::<MP, _, _>(circ.unknown(), al, be, ga, de, &mut r)) {
        Ok(Ok(p)) => p,
        e => {
            c.ob("generator::generate_parameters: succeeds for every circuit", By::Ground, false, || format!("{:?} at {}", e.map(|x| x.map(|_| ())), show_point(asg)));
            return;
        }
    };
    let rr = TFr::var("r", VarKind::Coin);
    let ss = TFr::var("s", VarKind::Coin);
    let pf = match guarded(|| create_proof::<MP, _>(&pp, circ.clone(), rr, ss)) {
        Ok(Ok(p)) => p,
        e => {
            c.ob("prover::create_proof: succeeds for every satisfied circuit", By::Ground, false, || format!("{:?} at {}", e.map(|x| x.map(|_| ())), show_point(asg)));
            return;
        }
    };
    let pvk = prepare_verifying_key(&pp.vk);
    let ok = guarded(|| verify_proof(&pvk, &pf, &circ.ins));
    c.ob("completeness: verify_proof(create_proof(satisfying assignment)) = true", By::Pit, matches!(ok, Ok(Ok(true))), || format!("{:?} at {}", ok, show_point(asg)));
    // production entry points with their own randomness
    let mut r2 = rng(seed ^ 99);
    let full = guarded(|| {
        let p = generate_random_parameters::<MP, _, _>(circ.unknown(), &mut r2)?;
        let f = create_random_proof::<MP, _, _>(&p, circ.clone(), &mut r2)?;
        verify_proof(&prepare_verifying_key(&p.vk), &f, &circ.ins)
    });
    c.ob("completeness with random setup and prover randomness", By::Pit, matches!(full, Ok(Ok(true))), || format!("{:?} at {}", full, show_point(asg)));
    quiet(|| key_contract(c, &circ, &pp, [al.v, be.v, ga.v, de.v], asg));
    quiet(|| proof_contract(c, &circ, &pp, &pf, rr.v, ss.v, asg));
    if asg.is_empty() {
        c.sample(json!({"shape": s.to_string(), "point": show_point(asg)}));
        // a wrong assignment must not yield an accepted proof
        for k in 0..circ.ins.len() + circ.aux.len() {
            let mut bad = circ.clone();
            let d = TFr::cst(det_rand(seed, &format!("delta{}", k)));
            if k < circ.ins.len() {
                bad.ins[k] += d
            } else {
                bad.aux[k - circ.ins.len()] += d
            }
            if bad.satisfied() {
                continue;
            }
            let got = guarded(|| create_proof::<MP, _>(&pp, bad.clone(), rr, ss).and_then(|p| verify_proof(&pvk, &p, &bad.ins)));
            c.ob("no accepted proof is produced from an unsatisfying assignment", By::Pit, !matches!(got, Ok(Ok(true))), || format!("variable {} altered, {}", k, show_point(asg)));
        }
    }
}

fn key_contract(c: &mut Ctx, circ: &Circ, pp: &Parameters<MP>, k: [Fr; 4], asg: &Assign) {
    let [al, be, ga, de] = k;
    let g1 = pp.vk.alpha_g1.x.v * al.inverse().unwrap();
    let g2 = pp.vk.beta_g2.x.v * be.inverse().unwrap();
    let nin = circ.ins.len() + 1;
    // evaluation point: ratio of consecutive H powers
    let t = if pp.h_query.len() >= 2 {
        pp.h_query[1].x.v * pp.h_query[0].x.v.inverse().unwrap_or_else(Fr::zero)
    } else {
        return;
    };
    if g1.is_zero() || g2.is_zero() || t.is_zero() {
        c.ob("generator: generators and evaluation point are non-degenerate", By::Ground, false, || show_point(asg));
        return;
    }
    let (q, zt) = qap(circ, t);
    let mut bad = String::new();
    let mut chk = |n: &str, got: Fr, want: Fr| {
        if got != want && bad.is_empty() {
            bad = n.to_string();
        }
    };
    chk("beta_g1", pp.beta_g1.x.v, g1 * be);
    chk("delta_g1", pp.delta_g1.x.v, g1 * de);
    chk("delta_g2", pp.vk.delta_g2.x.v, g2 * de);
    chk("gamma_g2", pp.vk.gamma_g2.x.v, g2 * ga);
    let gi = ga.inverse().unwrap();
    let di = de.inverse().unwrap();
    if pp.a_query.len() != q.len() || pp.b_g1_query.len() != q.len() || pp.b_g2_query.len() != q.len() || pp.vk.gamma_abc_g1.len() != nin || pp.l_query.len() != q.len() - nin {
        c.ob("generator::generate_parameters: key encodes exactly the circuit's QAP", By::Ground, false, || "query lengths".into());
        return;
    }
    for (i, [a, b, w]) in q.iter().enumerate() {
        chk(&format!("a_query[{}]", i), pp.a_query[i].x.v, g1 * a);
        chk(&format!("b_g1_query[{}]", i), pp.b_g1_query[i].x.v, g1 * b);
        chk(&format!("b_g2_query[{}]", i), pp.b_g2_query[i].x.v, g2 * b);
        let l = be * a + al * b + w;
        if i < nin {
            chk(&format!("gamma_abc[{}]", i), pp.vk.gamma_abc_g1[i].x.v, g1 * l * gi);
        } else {
            chk(&format!("l_query[{}]", i - nin), pp.l_query[i - nin].x.v, g1 * l * di);
        }
    }
    let mut tp = Fr::one();
    for (i, h) in pp.h_query.iter().enumerate() {
        chk(&format!("h_query[{}]", i), h.x.v, g1 * zt * di * tp);
        tp *= t;
    }
    let ok = bad.is_empty();
    c.ob("generator::generate_parameters: key encodes exactly the circuit's QAP", By::Pit, ok, || format!("{} differs, {}", bad, show_point(asg)));
}

fn proof_contract(c: &mut Ctx, circ: &Circ, pp: &Parameters<MP>, pf: &Proof<MP>, r: Fr, s: Fr, asg: &Assign) {
    let z: Vec<Fr> = std::iter::once(Fr::one()).chain(circ.ins.iter().map(|x| x.v)).chain(circ.aux.iter().map(|x| x.v)).collect();
    let dot = |q: &dyn Fn(usize) -> Fr| (0..z.len()).map(|i| q(i) * z[i]).sum::<Fr>();
    let a = pp.vk.alpha_g1.x.v + dot(&|i| pp.a_query[i].x.v) + r * pp.delta_g1.x.v;
    let b = pp.vk.beta_g2.x.v + dot(&|i| pp.b_g2_query[i].x.v) + s * pp.vk.delta_g2.x.v;
    c.ob("prover::create_proof: A = alpha + sum z_i A_i + r delta, B = beta + sum z_i B_i + s delta", By::Pit, a == pf.a.x.v && b == pf.b.x.v, || show_point(asg));
}

fn sym_vk(n: usize) -> VerifyKey<MP> {
    VerifyKey {
        alpha_g1: G1::new(TFr::input("vk.alpha")),
        beta_g2: G2::new(TFr::input("vk.beta")),
        gamma_g2: G2::new(TFr::input("vk.gamma")),
        delta_g2: G2::new(TFr::input("vk.delta")),
        gamma_abc_g1: (0..n + 1).map(|i| G1::new(TFr::input(&format!("vk.abc{}", i)))).collect(),
    }
}
pub fn p12(c: &mut Ctx) {
    let ns: &[usize] = if c.thorough { &[0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100] } else { &[0, 1, 2, 3, 5, 8, 16, 17, 33] };
    for &n in ns {
        c.set_shape(format!("public inputs={}", n));
        let dl = c.slice(0.2);
        let seed = c.seed * 77 + n as u64;
        let mut accepted = 0;
        let st = explore(seed, if c.thorough { 200 } else { 40 }, dl, Assign::new(), |_, asg| {
            let vk = sym_vk(n);
            let pf = Proof::<MP> { a: G1::new(TFr::input("a")), b: G2::new(TFr::input("b")), c: G1::new(TFr::input("c")) };
            let xs: Vec<TFr> = (0..n).map(|i| TFr::input(&format!("x{}", i))).collect();
            let got = guarded(|| verify_proof(&prepare_verifying_key(&vk), &pf, &xs));
            let mut ic = vk.gamma_abc_g1[0].x.v;
            for i in 0..n {
                ic += vk.gamma_abc_g1[i + 1].x.v * xs[i].v;
            }
            let want = pf.a.x.v * pf.b.x.v == vk.alpha_g1.x.v * vk.beta_g2.x.v + ic * vk.gamma_g2.x.v + pf.c.x.v * vk.delta_g2.x.v;
            let acc = matches!(got, Ok(Ok(true)));
            if acc {
                accepted += 1;
            }
            c.ob("verifier::verify_proof: accepts exactly when the pairing equation holds", By::Pit, acc == want, || format!("verifier said {:?}, equation {}, {}", got, want, show_point(asg)));
            true
        });
        c.stats(st);
        c.ob("cover: acceptance of the pairing equation was reached", By::Ground, accepted > 0, || format!("no accepting path for {} inputs", n));
        // length mismatch is never accepted, even when the equation could be completed
        for d in [-1i64, 1, 2, -2, 16].iter() {
            let m = n as i64 + d;
            if m < 0 {
                continue;
            }
            for style in 0..3 {
                tape().reset(seed ^ 5, Assign::new());
                let vk = sym_vk(n);
                let xs: Vec<TFr> = (0..m as usize).map(|i| if style == 0 { TFr::input(&format!("x{}", i)) } else if style == 1 || i >= n { TFr::zero() } else { TFr::one() }).collect();
                // C chosen so that the truncated / zero-extended equation holds
                let mut ic = vk.gamma_abc_g1[0].x.v;
                for i in 0..n.min(m as usize) {
                    ic += vk.gamma_abc_g1[i + 1].x.v * xs[i].v;
                }
                let a = det_rand(seed, "pa");
                let b = det_rand(seed, "pb");
                let cc = (a * b - vk.alpha_g1.x.v * vk.beta_g2.x.v - ic * vk.gamma_g2.x.v) * vk.delta_g2.x.v.inverse().unwrap();
                let pf = Proof::<MP> { a: G1::new(TFr::cst(a)), b: G2::new(TFr::cst(b)), c: G1::new(TFr::cst(cc)) };
                let got = guarded(|| verify_proof(&prepare_verifying_key(&vk), &pf, &xs));
                c.ob("verifier::verify_proof: wrong number of public inputs is never accepted", By::Pit, !matches!(got, Ok(Ok(true))), || format!("key for {} inputs accepted {} inputs", n, m));
            }
        }
    }
    // identity elements
    for mask in 0..8u32 {
        c.set_shape("identity elements in the proof");
        tape().reset(c.seed, Assign::new());
        let vk = sym_vk(1);
        let z = |b: u32, s: &str| if mask & b != 0 { TFr::zero() } else { TFr::input(s) };
        let pf = Proof::<MP> { a: G1::new(z(1, "a")), b: G2::new(z(2, "b")), c: G1::new(z(4, "c")) };
        let got = guarded(|| verify_proof(&prepare_verifying_key(&vk), &pf, &[TFr::input("x")]));
        c.ob("verifier::verify_proof: accepts exactly when the pairing equation holds", By::Pit, !matches!(got, Ok(Ok(true))), || format!("accepted random proof, identity mask {}", mask));
    }
    // end to end: a proof for one statement is not accepted for another, nor altered
    for (si, s) in shapes(c.thorough).iter().enumerate() {
        if c.late() {
            break;
        }
        c.set_shape(s.to_string());
        tape().reset(c.seed + si as u64, Assign::new());
        let circ = Circ::make(s);
        let mut r = rng(c.seed + si as u64);
        let got = guarded(|| {
            let p = generate_random_parameters::<MP, _, _>(circ.unknown(), &mut r)?;
            let f = create_random_proof::<MP, _, _>(&p, circ.clone(), &mut r)?;
            Ok::<_, zkp_r1cs::SynthesisError>((p, f))
        });
        if let Ok(Ok((p, f))) = got {
            let pvk = prepare_verifying_key(&p.vk);
            for i in 0..circ.ins.len() {
                let mut xs = circ.ins.clone();
                xs[i] += TFr::cst(det_rand(c.seed, &format!("d{}", i)));
                if p.vk.gamma_abc_g1[i + 1].x.v.is_zero() {
                    c.ob("every public input has a non-zero key element", By::Pit, false, || format!("input {}", i));
                }
                let ok = guarded(|| verify_proof(&pvk, &f, &xs));
                c.ob("verifier::verify_proof: every public input is bound", By::Pit, !matches!(ok, Ok(Ok(true))), || format!("input {} altered", i));
            }
            for k in 0..3 {
                let mut g = f.clone();
                let d = TFr::cst(det_rand(c.seed, "dd"));
                match k {
                    0 => g.a.x += d,
                    1 => g.b.x += d,
                    _ => g.c.x += d,
                }
                let ok = guarded(|| verify_proof(&pvk, &g, &circ.ins));
                c.ob("verifier::verify_proof: every proof element is bound", By::Pit, !matches!(ok, Ok(Ok(true))), || format!("element {} altered", k));
            }
        }
    }
}

/// zero knowledge (P27)
pub fn hide_runs(c: &mut Ctx, w: &crate::engine::Which) {
    use crate::engine::*;
    let mut all = shapes(false);
    all.extend(free_shapes(700));
    for (i, s) in all.iter().enumerate() {
        if c.late() {
            break;
        }
        c.set_shape(s.to_string());
        let mk = || {
            let circ = Circ::make(s);
            let pp = generate_random_parameters::<MP, _, _>(circ.unknown(), &mut rng(7)).unwrap();
            let pvk = prepare_verifying_key(&pp.vk);
            let (inputs, fixed) = (circ.ins.clone(), circ.fixed());
            Proto {
                fixed,
                public: ser(&pp.vk),
                prove: Box::new(move || Ok(ser(&create_random_proof::<MP, _, _>(&pp, circ.clone(), &mut rng(12)).map_err(e2s)?))),
                verify: Box::new(move |b, x| verify_proof(&pvk, &de(b)?, x).map_err(e2s)),
                inputs,
                alt: vec![],
                bad: vec![],
                reference: None,
            }
        };
        protocol(c, c.seed * 100 + i as u64, &Opts { slack: Some(0), merlin: false, ..Default::default() }, w, &mk);
    }
}

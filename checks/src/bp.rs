//! P13/P14: Bulletproofs.
use crate::circ::*;
use crate::ctx::*;
use crate::engine::*;
use merlin::Transcript;
use vmodel::*;
use zkp_bulletproofs::arithmetic_circuit::{create_random_proof, verify_proof, Proof};
use zkp_bulletproofs::{inner_product_proof as ipp};

pub fn shapes(thorough: bool) -> Vec<Shape> {
    let mut v = vec![];
    let mut s = 0;
    for &(i, a, c) in &[(1, 2, 2), (0, 1, 1), (1, 0, 1), (2, 3, 4), (3, 1, 3), (1, 6, 4), (0, 4, 5), (3, 3, 7)] {
        s += 1;
        v.push(Shape { n_in: i, n_aux: a, n_con: c, terms: 3, small: s % 3 == 0, seed: s as u64 + 40 });
    }
    if thorough {
        for k in 0..14u64 {
            v.push(Shape { n_in: (k % 5) as usize, n_aux: 1 + (k * 5 % 9) as usize, n_con: 1 + (k * 3 % 11) as usize, terms: 1 + (k % 6) as usize, small: k % 3 == 0, seed: 2000 + k });
        }
    }
    v
}
fn mk_circuit<'a>(s: &'a Shape, seed: u64) -> Proto<'a> {
    let circ = Circ::make(s);
    let c2 = circ.clone();
    let inputs = circ.ins.clone();
    let fixed = circ.fixed();
    // the generators and the matrices come with the proof; they depend on the seed only
    let (g, m, _) = create_random_proof::<MP, _, _>(circ.clone(), &mut rng(seed)).unwrap();
    let public = ser(&g);
    let key = std::rc::Rc::new((g, m));
    let mut bad: Vec<(String, Box<dyn Fn() -> R<(Vec<u8>, Vec<TFr>)>>)> = vec![];
    for (name, b) in circ.wrong(seed) {
        bad.push((name, Box::new(move || {
            let (_, _, p) = create_random_proof::<MP, _, _>(b.clone(), &mut rng(seed)).map_err(e2s)?;
            Ok((ser(&p), b.ins.clone()))
        })));
    }
    let mut alt: Vec<(String, Box<dyn Fn(&[u8]) -> R<bool>>)> = vec![];
    for (name, b) in circ.other(seed) {
        let x = inputs.clone();
        alt.push((name, Box::new(move |by| {
            let (g, m, _) = create_random_proof::<MP, _, _>(b.clone(), &mut rng(seed)).map_err(e2s)?;
            again();
            verify_proof::<MP>(&g, &de(by)?, &m, &x).map_err(e2s)
        })));
    }
    let prove = Box::new(move || {
        let (_, _, p) = create_random_proof::<MP, _, _>(c2.clone(), &mut rng(seed)).map_err(e2s)?;
        Ok(ser(&p))
    });
    let verify = Box::new(move |b: &[u8], x: &[TFr]| {
        let p: Proof<MP> = de(b)?;
        verify_proof::<MP>(&key.0, &p, &key.1, x).map_err(e2s)
    });
    Proto { fixed, prove, verify, inputs, public, alt, bad, reference: None }
}
pub fn p13(c: &mut Ctx) {
    circuits(c, &Which { complete: true, sound: true, fs: false, hide: false });
    }
pub fn circuits(c: &mut Ctx, w: &Which) {
    let mut all = shapes(c.thorough);
    if w.hide {
        all.extend(free_shapes(740));
    }
    for (i, s) in all.iter().enumerate() {
        if c.late() {
            break;
        }
        c.set_shape(s.to_string());
        let n = s.n_con.max(s.n_aux);
        let nn = n.next_power_of_two();
        // elements: 12 commitments, mu, tau, t, l(N), r(N), 2 lg N + 2 of the inner product (padded l are zero)
        // argument and its P; 4 equations; coins: 12 blinders and 2n masks
        let slack = 2 + 2 * nn.trailing_zeros() as i64 + (nn - n) as i64;
        protocol(c, c.seed * 100 + i as u64, &Opts { slack: Some(slack), coins_in_mk: true, ..Default::default() }, w, &|| mk_circuit(s, 7));
    }
}
fn mk_ipp<'a>(n: usize) -> Proto<'a> {
    let g: Vec<G1> = (0..n).map(|i| G1::new(TFr::input(&format!("g{}", i)))).collect();
    let h: Vec<G1> = (0..n).map(|i| G1::new(TFr::input(&format!("h{}", i)))).collect();
    let u = G1::new(TFr::input("u"));
    let a: Vec<TFr> = (0..n).map(|i| TFr::input(&format!("a{}", i))).collect();
    let b: Vec<TFr> = (0..n).map(|i| TFr::input(&format!("b{}", i))).collect();
    let mut p = TFr::cst(ark_ff::Zero::zero());
    for i in 0..n {
        p += a[i] * g[i].x + b[i] * h[i].x + a[i] * b[i] * u.x;
    }
    let (g2, h2) = (g.clone(), h.clone());
    let inputs: Vec<TFr> = [p, u.x].iter().copied().chain(g.iter().map(|x| x.x)).chain(h.iter().map(|x| x.x)).collect();
    Proto {
        prove: Box::new(move || {
            let mut t = Transcript::new(b"ipp");
            Ok(ser(&ipp::prove::<MP>(&mut t, g2.clone(), h2.clone(), u, &G1::new(p), a.clone(), b.clone())))
        }),
        verify: Box::new(move |by, x| {
            let mut t = Transcript::new(b"ipp");
            let pf: ipp::Proof<MP> = de(by)?;
            if x.len() < 2 {
                return Ok(false);
            }
            let m = (x.len() - 2) / 2;
            let g: Vec<G1> = x[2..2 + m].iter().map(|v| G1::new(*v)).collect();
            let h: Vec<G1> = x[2 + m..].iter().map(|v| G1::new(*v)).collect();
            Ok(ipp::verify::<MP>(&mut t, g, h, G1::new(x[1]), &G1::new(x[0]), &pf))
        }),
        fixed: inputs.clone(),
        inputs,
        public: vec![],
        alt: vec![],
        bad: vec![],
        reference: None,
    }
}
pub fn p14(c: &mut Ctx) {
    ipp_runs(c, &Which { complete: true, sound: true, fs: false, hide: false });
}
pub fn ipp_runs(c: &mut Ctx, w: &Which) {
    for (i, n) in [1usize, 2, 4, 8, 16, 32].iter().enumerate() {
        c.set_shape(format!("vector length {}", n));
        let lg = n.trailing_zeros() as i64;
        // one equation over 2 lg n + 2 elements; the prover has no coins
        protocol(c, c.seed * 100 + i as u64, &Opts { slack: Some(2 * lg + 1), ..Default::default() }, w, &|| mk_ipp(*n));
    }
}

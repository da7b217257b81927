//! P21/P22: Libra.
use crate::circ::rng;
use crate::ctx::*;
use crate::engine::*;
use crate::layered::*;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use vmodel::*;
use zkp_libra::circuit::Circuit;
use zkp_libra::libra_linear_gkr::{LayerProof, LinearGKRProof};
use zkp_libra::libra_zk_linear_gkr::ZKLinearGKRProof;
use zkp_libra::params::Parameters;
use zkp_libra::sumcheck::SumCheckProof;

fn circuit(c: &LCirc) -> Circuit {
    Circuit::new(c.n_in, c.n_aux, &c.raw)
}
fn enc(p: &LinearGKRProof<MP>) -> Vec<u8> {
    let mut b = vec![];
    for l in &p.proofs {
        l.proof_phase_one.serialize(&mut b).unwrap();
        l.proof_phase_two.serialize(&mut b).unwrap();
    }
    b
}
fn dec(b: &[u8], n: usize) -> R<LinearGKRProof<MP>> {
    let mut r = b;
    let mut proofs = vec![];
    for _ in 0..n {
        proofs.push(LayerProof { proof_phase_one: SumCheckProof::deserialize(&mut r).map_err(e2s)?, proof_phase_two: SumCheckProof::deserialize(&mut r).map_err(e2s)? });
    }
    Ok(LinearGKRProof { proofs })
}
fn flat(v: Vec<Vec<TFr>>) -> Vec<TFr> {
    v.into_iter().flatten().collect()
}
pub fn mk_gkr<'a>(s: &'a LShape, seed: u64) -> Proto<'a> {
    let c = LCirc::make(s);
    let n_out = c.raw.last().unwrap().len();
    let depth = c.raw.len();
    let inputs: Vec<TFr> = flat(c.outputs()).into_iter().chain(c.layer0(0)).collect();
    let h = circuit(&c).circuit_to_hash::<MP>();
    let mut alt: Vec<(String, Box<dyn Fn(&[u8]) -> R<bool>>)> = vec![];
    for (name, o) in c.other(seed) {
        let x = inputs.clone();
        alt.push((name, Box::new(move |b| Ok(dec(b, depth)?.verify(&circuit(&o), &x[..n_out].to_vec(), &x[n_out..].to_vec(), h)))));
    }
    let mut bad: Vec<(String, Box<dyn Fn() -> R<(Vec<u8>, Vec<TFr>)>>)> = vec![];
    for (name, o) in c.wrong(seed) {
        let x = inputs.clone();
        bad.push((name, Box::new(move || Ok((enc(&LinearGKRProof::<MP>::prover(&circuit(&o), &o.ins[0], &o.aux[0], h).0), x.clone())))));
    }
    let c2 = c.clone();
    Proto {
        fixed: inputs.clone(),
        prove: Box::new(move || {
            let (p, out) = LinearGKRProof::<MP>::prover(&circuit(&c2), &c2.ins[0], &c2.aux[0], h);
            let want = flat(c2.outputs());
            if out.len() != want.len() || !out.iter().zip(&want).all(|(a, b)| a.same(b)) {
                return Err("the prover reports another output".into());
            }
            Ok(enc(&p))
        }),
        verify: Box::new(move |b, x| {
            if x.len() < n_out {
                return Ok(false);
            }
            Ok(dec(b, depth)?.verify(&circuit(&c), &x[..n_out].to_vec(), &x[n_out..].to_vec(), h))
        }),
        inputs,
        public: vec![],
        alt,
        bad,
        reference: None,
    }
}
pub fn mk_zk<'a>(s: &'a LShape, seed: u64) -> Proto<'a> {
    let c = LCirc::make(s);
    let n_out = c.raw.last().unwrap().len();
    let inputs: Vec<TFr> = flat(c.outputs()).into_iter().chain(c.ins[0].clone()).collect();
    let h = circuit(&c).circuit_to_hash::<MP>();
    let lg = c.half.trailing_zeros() as usize;
    let pr = std::rc::Rc::new(Parameters::<MP>::new(&mut rng(seed + 1), lg));
    let ph = pr.param_to_hash();
    let mut alt: Vec<(String, Box<dyn Fn(&[u8]) -> R<bool>>)> = vec![];
    for (name, o) in c.other(seed) {
        let x = inputs.clone();
        let pr = pr.clone();
        alt.push((name, Box::new(move |b| Ok(de::<ZKLinearGKRProof<MP>>(b)?.verify(&pr, &circuit(&o), &x[..n_out].to_vec(), &x[n_out..].to_vec(), h, ph)))));
    }
    {
        let x = inputs.clone();
        let c = c.clone();
        alt.push(("other parameters".into(), Box::new(move |b| {
            let pr = Parameters::<MP>::new(&mut rng(seed + 3), lg);
            again();
            Ok(de::<ZKLinearGKRProof<MP>>(b)?.verify(&pr, &circuit(&c), &x[..n_out].to_vec(), &x[n_out..].to_vec(), h, ph))
        })));
    }
    let mut bad: Vec<(String, Box<dyn Fn() -> R<(Vec<u8>, Vec<TFr>)>>)> = vec![];
    for (name, o) in c.wrong(seed) {
        let x = inputs.clone();
        let pr = pr.clone();
        bad.push((name, Box::new(move || Ok((ser(&ZKLinearGKRProof::<MP>::prover(&pr, &circuit(&o), &o.ins[0], &o.aux[0], h, ph, &mut rng(seed + 2)).0), x.clone())))));
    }
    let c2 = c.clone();
    let p2 = pr.clone();
    Proto {
        fixed: inputs.clone(),
        public: ser(&*pr),
        prove: Box::new(move || {
            let (p, out) = ZKLinearGKRProof::<MP>::prover(&p2, &circuit(&c2), &c2.ins[0], &c2.aux[0], h, ph, &mut rng(seed + 2));
            let want = flat(c2.outputs());
            if out.len() != want.len() || !out.iter().zip(&want).all(|(a, b)| a.same(b)) {
                return Err("the prover reports another output".into());
            }
            Ok(ser(&p))
        }),
        verify: Box::new(move |b, x| {
            if x.len() < n_out {
                return Ok(false);
            }
            Ok(de::<ZKLinearGKRProof<MP>>(b)?.verify(&pr, &circuit(&c), &x[..n_out].to_vec(), &x[n_out..].to_vec(), h, ph))
        }),
        inputs,
        alt,
        bad,
        reference: None,
    }
}
pub fn p21(c: &mut Ctx) {
    gkr_runs(c, &Which { complete: true, sound: true, fs: false, hide: false });
}
pub fn gkr_runs(c: &mut Ctx, w: &Which) {
    for (i, s) in shapes(c.thorough, &[1]).iter().enumerate() {
        if c.late() {
            break;
        }
        c.set_shape(s.to_string());
        let w = Which { sound: w.sound && !s.consts, fs: w.fs && !s.consts, hide: w.hide && !s.consts, ..*w };
        protocol(c, c.seed * 100 + i as u64, &Opts { slack: None, ..Default::default() }, &w, &|| mk_gkr(s, 7));
    }
}
pub fn p22(c: &mut Ctx) {
    zk_runs(c, &Which { complete: true, sound: true, fs: false, hide: false });
}
pub fn zk_runs(c: &mut Ctx, w: &Which) {
    for (i, s) in shapes(c.thorough, &[1]).iter().enumerate() {
        if c.late() {
            break;
        }
        c.set_shape(s.to_string());
        let w = Which { sound: w.sound && !s.consts, fs: w.fs && !s.consts, hide: w.hide && !s.consts, ..*w };
        protocol(c, c.seed * 100 + i as u64, &Opts { slack: Some(0), ..Default::default() }, &w, &|| mk_zk(s, 7));
    }
}

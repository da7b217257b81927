//! P23: Hyrax.
use crate::circ::rng;
use crate::ctx::*;
use crate::engine::*;
use crate::layered::*;
use vmodel::*;
use zkp_hyrax::circuit::Circuit;
use zkp_hyrax::hyrax_proof::HyraxProof;
use zkp_hyrax::params::Parameters;

fn circuit(c: &LCirc) -> Circuit {
    Circuit::new(c.n_in, c.n_aux, &c.raw)
}
fn split(x: &[TFr], n: usize, n_out: usize) -> Option<(Vec<Vec<TFr>>, Vec<Vec<TFr>>)> {
    if x.len() < n * n_out {
        return None;
    }
    let o = (0..n).map(|t| x[t * n_out..(t + 1) * n_out].to_vec()).collect();
    let y = &x[n * n_out..];
    let k = y.len() / n;
    let mut v: Vec<Vec<TFr>> = (0..n).map(|t| y[t * k..(t + 1) * k].to_vec()).collect();
    v[n - 1].extend_from_slice(&y[n * k..]);
    Some((o, v))
}
pub fn mk<'a>(s: &'a LShape, seed: u64) -> Proto<'a> {
    let c = LCirc::make(s);
    let n = s.copies;
    let n_out = c.raw.last().unwrap().len();
    let inputs: Vec<TFr> = c.outputs().into_iter().flatten().chain(c.ins.iter().flatten().copied()).collect();
    let h = circuit(&c).circuit_to_hash::<MP>();
    let lg = (c.half * n).trailing_zeros() as usize;
    let pr = std::rc::Rc::new(Parameters::<MP>::new(&mut rng(seed + 1), lg));
    let ph = pr.param_to_hash();
    let mut alt: Vec<(String, Box<dyn Fn(&[u8]) -> R<bool>>)> = vec![];
    for (name, o) in c.other(seed) {
        let (ou, ins) = split(&inputs, n, n_out).unwrap();
        let pr = pr.clone();
        alt.push((name, Box::new(move |b| Ok(de::<HyraxProof<MP>>(b)?.verify(&pr, &ou, &ins, &circuit(&o), h, ph)))));
    }
    {
        let (ou, ins) = split(&inputs, n, n_out).unwrap();
        let c = c.clone();
        alt.push(("other parameters".into(), Box::new(move |b| {
            let pr = Parameters::<MP>::new(&mut rng(seed + 3), lg);
            again();
            Ok(de::<HyraxProof<MP>>(b)?.verify(&pr, &ou, &ins, &circuit(&c), h, ph))
        })));
    }
    let mut bad: Vec<(String, Box<dyn Fn() -> R<(Vec<u8>, Vec<TFr>)>>)> = vec![];
    for (name, o) in c.wrong(seed) {
        let x = inputs.clone();
        let pr = pr.clone();
        bad.push((name, Box::new(move || Ok((ser(&HyraxProof::<MP>::prover(&pr, &o.aux, &o.ins, &circuit(&o), h, ph, n, &mut rng(seed + 2)).0), x.clone())))));
    }
    let c2 = c.clone();
    let p2 = pr.clone();
    Proto {
        fixed: inputs.clone(),
        public: ser(&*pr),
        prove: Box::new(move || {
            let (p, out) = HyraxProof::<MP>::prover(&p2, &c2.aux, &c2.ins, &circuit(&c2), h, ph, n, &mut rng(seed + 2));
            let want: Vec<TFr> = c2.outputs().into_iter().flatten().collect();
            let out: Vec<TFr> = out.into_iter().flatten().collect();
            if out.len() != want.len() || !out.iter().zip(&want).all(|(a, b)| a.same(b)) {
                return Err("the prover reports another output".into());
            }
            Ok(ser(&p))
        }),
        verify: Box::new(move |b, x| match split(x, n, n_out) {
            Some((o, i)) => Ok(de::<HyraxProof<MP>>(b)?.verify(&pr, &o, &i, &circuit(&c), h, ph)),
            None => Ok(false),
        }),
        inputs,
        alt,
        bad,
        reference: None,
    }
}
/// the round evaluations are sent and absorbed, but the verifier combines the round polynomials directly
pub fn absorbed_only(s: &LShape) -> usize {
    let lg = |n: usize| n.next_power_of_two().trailing_zeros() as usize;
    let half = s.n_in.max(s.n_aux).max(1).next_power_of_two();
    let mut r = 0;
    let mut prev = 2 * half;
    for n in &s.sizes {
        r += lg(s.copies) + 2 * lg(prev);
        prev = *n;
    }
    r
}
pub fn p23(c: &mut Ctx) {
    runs(c, &Which { complete: true, sound: true, fs: false, hide: false });
}
pub fn runs(c: &mut Ctx, w: &Which) {
    for (i, s) in shapes(c.thorough, if w.fs { &[2, 4] } else { &[2, 8, 4] }).iter().enumerate() {
        if c.late() {
            break;
        }
        c.set_shape(s.to_string());
        let w = Which { sound: w.sound && !s.consts, fs: w.fs && !s.consts, hide: w.hide && !s.consts, ..*w };
        protocol(c, c.seed * 100 + i as u64, &Opts { slack: Some(0), absorbed_only: absorbed_only(s), ..Default::default() }, &w, &|| mk(s, 7));
    }
}

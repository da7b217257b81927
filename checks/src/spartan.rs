//! P19/P20: Spartan NIZK and SNARK.
use crate::circ::*;
use crate::ctx::*;
use crate::engine::*;
use vmodel::*;
use zkp_spartan::{nizk, snark};

pub fn shapes(thorough: bool, snark: bool) -> Vec<Shape> {
    let mut v = vec![];
    let mut s = 0;
    let base: &[(usize, usize, usize)] = if snark { &[(1, 2, 2), (2, 3, 4), (0, 5, 3), (3, 2, 5)] } else { &[(1, 2, 2), (0, 1, 2), (2, 3, 4), (3, 1, 3), (1, 6, 4), (0, 4, 5), (3, 3, 7), (5, 2, 6), (2, 9, 9)] };
    for &(i, a, c) in base {
        s += 1;
        v.push(Shape { n_in: i, n_aux: a, n_con: c, terms: 3, small: s % 3 == 0, seed: s as u64 + 140 });
    }
    if thorough {
        for k in 0..(if snark { 6u64 } else { 14 }) {
            v.push(Shape { n_in: (k % 5) as usize, n_aux: 1 + (k * 5 % 9) as usize, n_con: 2 + (k * 3 % 11) as usize, terms: 1 + (k % 6) as usize, small: k % 3 == 0, seed: 3000 + k });
        }
    }
    v
}
type Bad<'a> = Vec<(String, Box<dyn Fn() -> R<(Vec<u8>, Vec<TFr>)> + 'a>)>;
type Alt<'a> = Vec<(String, Box<dyn Fn(&[u8]) -> R<bool> + 'a>)>;
macro_rules! mk {
    ($name:ident, $m:ident, $keys:expr, $hash:expr, $prove:expr, $verify:expr) => {
        pub fn $name<'a>(s: &'a Shape, seed: u64) -> Proto<'a> {
            let circ = Circ::make(s);
            let setup = |c: &Circ| {
                let p = $m::generate_random_parameters::<MP, _, _>(c.unknown(), &mut rng(seed)).unwrap();
                let (pk, vk) = p.keypair();
                let h = $hash(&pk, &vk);
                std::rc::Rc::new((pk, vk, h))
            };
            let key = setup(&circ);
            let public = ser(&key.1);
            let mut bad: Bad = vec![];
            for (name, b) in circ.wrong(seed) {
                let key = key.clone();
                bad.push((name, Box::new(move || Ok((ser(&$prove(&key.0, &b, &key.2, &mut rng(seed + 5))?), b.ins.clone())))));
            }
            let mut alt: Alt = vec![];
            for (name, b) in circ.other(seed) {
                let x = circ.ins.clone();
                let h = key.2.clone();
                alt.push((name, Box::new(move |by| {
                    // even with the transcript labels of the original circuit
                    let p = $m::generate_random_parameters::<MP, _, _>(b.unknown(), &mut rng(seed)).unwrap();
                    let (_, vk) = p.keypair();
                    again();
                    $verify(&vk, &de(by)?, &x, &h)
                })));
            }
            let inputs = circ.ins.clone();
            let fixed = circ.fixed();
            let k2 = key.clone();
            let prove = Box::new(move || Ok(ser(&$prove(&k2.0, &circ, &k2.2, &mut rng(seed + 5))?)));
            let verify = Box::new(move |b: &[u8], x: &[TFr]| $verify(&key.1, &de(b)?, x, &key.2));
            Proto { fixed, prove, verify, inputs, public, alt, bad, reference: None }
        }
    };
}
mk!(
    mk_nizk,
    nizk,
    (),
    |_pk: &nizk::ProveKey<MP>, vk: &nizk::VerifyKey<MP>| vec![vk.r1cs.r1cs_to_hash(), vk.params.param_to_hash()],
    |pk: &nizk::ProveKey<MP>, c: &Circ, h: &Vec<TFr>, r: &mut XorRng| nizk::create_random_proof::<MP, _, _>(pk, c.clone(), h[0], h[1], r).map_err(e2s),
    |vk: &nizk::VerifyKey<MP>, p: &nizk::Proof<MP>, x: &[TFr], h: &Vec<TFr>| nizk::verify_proof::<MP>(vk, p, x, h[0], h[1]).map_err(e2s)
);
mk!(
    mk_snark,
    snark,
    (),
    |_pk: &snark::ProveKey<MP>, vk: &snark::VerifyKey<MP>| vec![vk.r1cs.r1cs_to_hash(), vk.params.param_to_hash(), vk.encode_comm.encode_to_hash()],
    |pk: &snark::ProveKey<MP>, c: &Circ, h: &Vec<TFr>, r: &mut XorRng| snark::create_random_proof::<MP, _, _>(pk, c.clone(), h[0], h[1], h[2], r).map_err(e2s),
    |vk: &snark::VerifyKey<MP>, p: &snark::Proof<MP>, x: &[TFr], h: &Vec<TFr>| snark::verify_proof::<MP>(vk, p, x, h[0], h[1], h[2]).map_err(e2s)
);
pub fn p19(c: &mut Ctx) {
    nizk_runs(c, &Which { complete: true, sound: true, fs: false, hide: false });
}
pub fn nizk_runs(c: &mut Ctx, w: &Which) {
    let mut all = shapes(c.thorough, false);
    if w.hide {
        all.extend(free_shapes(780));
    }
    for (i, s) in all.iter().enumerate() {
        if c.late() {
            break;
        }
        c.set_shape(s.to_string());
        protocol(c, c.seed * 100 + i as u64, &Opts { slack: nizk_slack(s), ..Default::default() }, w, &|| mk_nizk(s, 7));
    }
}
/// the proof carries a copy of the sumcheck challenges (checked against the transcript's own,
/// which are constants when challenges are fixed): one coordinate per round
pub fn nizk_slack(s: &Shape) -> Option<i64> {
    let lg = |n: usize| n.next_power_of_two().trailing_zeros() as i64;
    Some(lg(s.n_con) + 1 + lg(s.n_aux.max(s.n_in + 1)))
}
pub fn p20(c: &mut Ctx) {
    snark_runs(c, &Which { complete: true, sound: true, fs: false, hide: false });
}
pub fn snark_runs(c: &mut Ctx, w: &Which) {
    let mut all = shapes(c.thorough, true);
    if w.hide {
        all.extend(free_shapes(780).into_iter().take(3));
    }
    for (i, s) in all.iter().enumerate() {
        if c.late() {
            break;
        }
        c.set_shape(s.to_string());
        protocol(c, c.seed * 100 + i as u64, &Opts { slack: None, ..Default::default() }, w, &|| mk_snark(s, 7));
    }
}

//! P28: encodings.  Every serializable type is produced by the real key generation and provers
//! (over the model engine, whose compressed and uncompressed forms differ, and over real curves)
//! and taken through all three forms.
use crate::circ::{rng, Circ};
use crate::ctx::*;
use crate::engine::{de, e2s, ser, R};
use crate::layered::*;
use ark_ff::{One, UniformRand, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use rand::RngCore;
use serde_json::json;
use vmodel::*;

/// the three forms: encode, size, decode
fn put<T: CanonicalSerialize>(t: &T, f: usize) -> R<(Vec<u8>, usize)> {
    let mut b = vec![];
    match f {
        0 => t.serialize(&mut b),
        1 => t.serialize_uncompressed(&mut b),
        _ => t.serialize_unchecked(&mut b),
    }
    .map_err(e2s)?;
    Ok((b, if f == 0 { t.serialized_size() } else { t.uncompressed_size() }))
}
fn get<T: CanonicalDeserialize>(b: &mut &[u8], f: usize) -> R<T> {
    match f {
        0 => T::deserialize(b),
        1 => T::deserialize_uncompressed(b),
        _ => T::deserialize_unchecked(b),
    }
    .map_err(e2s)
}
const FORM: [&str; 3] = ["compressed", "uncompressed", "unchecked"];
/// round trips of one object; the decoded copies
fn trip<T: CanonicalSerialize + CanonicalDeserialize>(c: &mut Ctx, ty: &str, t: &T, eq: Option<&dyn Fn(&T, &T) -> bool>) -> Vec<T> {
    let mut out = vec![];
    let name = |s: &str| format!("{}: {}", ty, s);
    for f in 0..3 {
        let (b, n) = match guarded(|| put(t, f)) {
            Ok(Ok(x)) => x,
            e => {
                c.ob(&name("encoding succeeds"), By::Ground, false, || format!("{} form: {:?}", FORM[f], e));
                continue;
            }
        };
        c.ob(&name("the reported size is the number of bytes written"), By::Ground, b.len() == n, || format!("{} form: {} bytes, size {}", FORM[f], b.len(), n));
        let mut long = b.clone();
        let tail = [0x5au8; 40];
        long.extend_from_slice(&tail);
        let mut r = &long[..];
        match guarded(|| get::<T>(&mut r, f)) {
            Ok(Ok(d)) => {
                c.ob(&name("decoding consumes exactly the encoding"), By::Ground, r.len() == 40, || format!("{} form: {} of {} bytes consumed", FORM[f], long.len() - r.len(), b.len()));
                let mut same = true;
                for g in 0..3 {
                    same &= matches!((put(&d, g), put(t, g)), (Ok(x), Ok(y)) if x == y);
                }
                if let Some(e) = eq {
                    same &= e(&d, t);
                }
                c.ob(&name("decoding the encoding gives an equal object"), By::Ground, same, || format!("{} form, {} bytes", FORM[f], b.len()));
                out.push(d);
            }
            e => {
                let e = e.map(|r| r.map(|_| ()));
                c.ob(&name("decoding the encoding gives an equal object"), By::Ground, false, || format!("{} form, {} bytes: {:?}", FORM[f], b.len(), e));
            }
        }
        // truncations
        let l = b.len();
        let mut cuts: Vec<usize> = (0..l.min(80)).chain(l.saturating_sub(80)..l).collect();
        let mut r = XorRng(l as u64 + 1, 77);
        for _ in 0..60 {
            if l > 0 {
                cuts.push((r.next_u64() % l as u64) as usize);
            }
        }
        cuts.sort();
        cuts.dedup();
        let cut = cuts.into_iter().find(|k| !matches!(guarded(|| get::<T>(&mut &b[..*k], f).is_err()), Ok(true)));
        c.ob(&name("truncated encodings are rejected"), By::Ground, cut.is_none(), || format!("{} form: the first {} of {} bytes", FORM[f], cut.unwrap(), l));
    }
    out
}
fn dbg<T: std::fmt::Debug>(a: &T, b: &T) -> bool {
    format!("{:?}", a) == format!("{:?}", b)
}
/// verification results on honest and altered inputs are those of the originals
fn same_verdicts(c: &mut Ctx, ty: &str, what: &str, want: &[bool], got: Result<Vec<bool>, String>) {
    c.ob(&format!("{}: {}", ty, what), By::Ground, matches!(&got, Ok(g) if g == want), || format!("{:?} want {:?}", got, want));
}
fn inputs(x: &[TFr]) -> Vec<Vec<TFr>> {
    let mut v = vec![x.to_vec()];
    for i in 0..x.len().min(3) {
        let mut y = x.to_vec();
        y[i] += TFr::one();
        v.push(y);
    }
    v
}
fn verdict(f: impl FnOnce() -> R<bool>) -> bool {
    matches!(guarded(f), Ok(Ok(true)))
}

fn indexes(c: &mut Ctx) {
    use zkp_r1cs::Index;
    c.set_shape("variable indexes");
    for u in [0usize, 1, 2, 127, 128, 255, 256, 65535, 65536, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX].iter() {
        for i in [Index::Input(*u), Index::Aux(*u)].iter() {
            trip(c, "r1cs::Index", i, Some(&|a, b| a == b));
        }
    }
    let v: Vec<Index> = (0..7).map(|i| if i % 3 == 0 { Index::Input(i) } else { Index::Aux(i * i) }).collect();
    trip(c, "Vec<r1cs::Index>", &v, Some(&|a, b| a == b));
}
fn groth16(c: &mut Ctx) {
    use zkp_groth16::*;
    for s in crate::groth16::shapes(c.thorough).iter().take(if c.thorough { 30 } else { 9 }) {
        c.set_shape(format!("groth16: {}", s));
        tape().reset(c.seed, Assign::new());
        tape().off = true;
        let circ = Circ::make(s);
        let p = generate_random_parameters::<MP, _, _>(circ.unknown(), &mut rng(3)).unwrap();
        let pf = match create_random_proof(&p, circ.clone(), &mut rng(4)) {
            Ok(x) => x,
            Err(_) => continue,
        };
        let xs = inputs(&circ.ins);
        let run = |vk: &VerifyKey<MP>, pf: &Proof<MP>| xs.iter().map(|x| verdict(|| verify_proof(&prepare_verifying_key(vk), pf, x).map_err(e2s))).collect::<Vec<_>>();
        let want = run(&p.vk, &pf);
        for d in trip(c, "groth16::Parameters", &p, Some(&|a, b| a == b)) {
            let q = create_random_proof(&d, circ.clone(), &mut rng(4));
            c.ob("groth16::Parameters: proofs with the decoded key are the same", By::Ground, matches!(&q, Ok(q) if *q == pf), || String::new());
        }
        for d in trip(c, "groth16::VerifyKey", &p.vk, Some(&|a, b| a == b)) {
            same_verdicts(c, "groth16::VerifyKey", "the decoded key verifies like the original", &want, guarded(|| run(&d, &pf)));
        }
        for d in trip(c, "groth16::Proof", &pf, Some(&|a, b| a == b)) {
            same_verdicts(c, "groth16::Proof", "the decoded proof verifies like the original", &want, guarded(|| run(&p.vk, &d)));
        }
    }
}
fn bulletproofs(c: &mut Ctx) {
    use zkp_bulletproofs::arithmetic_circuit::*;
    use zkp_bulletproofs::inner_product_proof as ipp;
    for s in crate::bp::shapes(c.thorough).iter().take(if c.thorough { 22 } else { 6 }) {
        c.set_shape(format!("bulletproofs: {}", s));
        tape().reset(c.seed, Assign::new());
        tape().off = true;
        let circ = Circ::make(s);
        let (g, m, pf) = create_random_proof::<MP, _, _>(circ.clone(), &mut rng(7)).unwrap();
        let xs = inputs(&circ.ins);
        let run = |g: &Generators<MP>, m: &R1csCircuit<MP>, pf: &Proof<MP>| xs.iter().map(|x| verdict(|| verify_proof(g, pf, m, x).map_err(e2s))).collect::<Vec<_>>();
        let want = run(&g, &m, &pf);
        for d in trip(c, "bulletproofs::Generators", &g, None) {
            same_verdicts(c, "bulletproofs::Generators", "the decoded generators verify like the original", &want, guarded(|| run(&d, &m, &pf)));
        }
        for d in trip(c, "bulletproofs::R1csCircuit", &m, Some(&|a, b| a.CL == b.CL && a.CR == b.CR && a.CO == b.CO && a.CL_T == b.CL_T && a.CR_T == b.CR_T && a.CO_T == b.CO_T)) {
            same_verdicts(c, "bulletproofs::R1csCircuit", "the decoded circuit verifies like the original", &want, guarded(|| run(&g, &d, &pf)));
        }
        for d in trip(c, "bulletproofs::Proof", &pf, None) {
            same_verdicts(c, "bulletproofs::Proof", "the decoded proof verifies like the original", &want, guarded(|| run(&g, &m, &d)));
        }
    }
    for k in 0..5 {
        let n = 1usize << k;
        c.set_shape(format!("inner product: {}", n));
        tape().reset(c.seed, Assign::new());
        tape().off = true;
        let gp = |p: &str| (0..n).map(|i| G1::new(TFr::input(&format!("{}{}", p, i)))).collect::<Vec<_>>();
        let sc = |p: &str| (0..n).map(|i| TFr::input(&format!("{}{}", p, i))).collect::<Vec<_>>();
        let (g, h, u, a, b) = (gp("g"), gp("h"), G1::new(TFr::input("u")), sc("a"), sc("b"));
        let p = (0..n).fold(TFr::zero(), |t, i| t + a[i] * g[i].x + b[i] * h[i].x + a[i] * b[i] * u.x);
        let pf = ipp::prove::<MP>(&mut merlin::Transcript::new(b"x"), g.clone(), h.clone(), u, &G1::new(p), a, b);
        for d in trip(c, "bulletproofs::inner_product_proof::Proof", &pf, None) {
            let ok = guarded(|| ipp::verify::<MP>(&mut merlin::Transcript::new(b"x"), g.clone(), h.clone(), u, &G1::new(p), &d));
            c.ob("bulletproofs::inner_product_proof::Proof: the decoded proof verifies like the original", By::Ground, matches!(ok, Ok(true)), || format!("{:?}", ok));
        }
    }
    // the prover's private assignment: any five vectors
    c.set_shape("bulletproofs: assignments");
    for k in 0..4u64 {
        let v = |j: u64| (0..(k * 3 + j) % 5).map(|i| TFr::from(1 + i + 10 * j + 100 * k)).collect::<Vec<_>>();
        let t = (v(0), (v(1), (v(2), (v(3), v(4)))));
        if let Ok(a) = de::<Assignment<MP>>(&ser(&t)) {
            trip(c, "bulletproofs::Assignment", &a, None);
            c.ob("bulletproofs::Assignment: every byte of the encoding matters", By::Ground, ser(&a) == ser(&t), || String::new());
        }
    }
}
fn spartan(c: &mut Ctx) {
    use zkp_spartan::{nizk, snark};
    macro_rules! go {
        ($m:ident, $sh:expr, $label:literal, $hash:expr, $prove:expr, $verify:expr) => {
            for s in $sh.iter() {
                c.set_shape(format!("{}: {}", $label, s));
                tape().reset(c.seed, Assign::new());
                tape().off = true;
                let circ = Circ::make(s);
                let p = $m::generate_random_parameters::<MP, _, _>(circ.unknown(), &mut rng(7)).unwrap();
                trip(c, concat!($label, "::Parameters"), &p, None);
                let back: $m::Parameters<MP> = de(&ser(&p)).unwrap();
                let (pk, vk) = p.keypair();
                let (pk3, vk3) = back.keypair();
                let h: Vec<TFr> = $hash(&vk);
                c.ob(concat!($label, "::Parameters: the key pair of decoded parameters is the same"), By::Ground, ser(&pk3) == ser(&pk) && ser(&vk3) == ser(&vk) && $hash(&vk3) == h, || String::new());
                let pf = $prove(&pk, &circ, &h).unwrap();
                let xs = inputs(&circ.ins);
                let run = |vk: &$m::VerifyKey<MP>, pf: &$m::Proof<MP>| xs.iter().map(|x| verdict(|| $verify(vk, pf, x, &$hash(vk)))).collect::<Vec<_>>();
                let want = run(&vk, &pf);
                for d in trip(c, concat!($label, "::ProveKey"), &pk, None) {
                    let q = guarded(|| $prove(&d, &circ, &h));
                    c.ob(concat!($label, "::ProveKey: proofs with the decoded key are the same"), By::Ground, matches!(&q, Ok(Ok(q)) if ser(q) == ser(&pf)), || String::new());
                }
                for d in trip(c, concat!($label, "::VerifyKey"), &vk, None) {
                    same_verdicts(c, concat!($label, "::VerifyKey"), "the decoded key verifies like the original", &want, guarded(|| run(&d, &pf)));
                }
                for d in trip(c, concat!($label, "::Proof"), &pf, None) {
                    same_verdicts(c, concat!($label, "::Proof"), "the decoded proof verifies like the original", &want, guarded(|| run(&vk, &d)));
                }
            }
        };
    }
    let n = if c.thorough { 12 } else { 3 };
    go!(
        nizk,
        crate::spartan::shapes(c.thorough, false).into_iter().take(n + 2).collect::<Vec<_>>(),
        "spartan::nizk",
        |vk: &nizk::VerifyKey<MP>| vec![vk.r1cs.r1cs_to_hash(), vk.params.param_to_hash()],
        |pk: &nizk::ProveKey<MP>, c: &Circ, h: &Vec<TFr>| nizk::create_random_proof::<MP, _, _>(pk, c.clone(), h[0], h[1], &mut rng(5)).map_err(e2s),
        |vk: &nizk::VerifyKey<MP>, p: &nizk::Proof<MP>, x: &[TFr], h: &Vec<TFr>| nizk::verify_proof::<MP>(vk, p, x, h[0], h[1]).map_err(e2s)
    );
    go!(
        snark,
        crate::spartan::shapes(c.thorough, true).into_iter().take(n - 1).collect::<Vec<_>>(),
        "spartan::snark",
        |vk: &snark::VerifyKey<MP>| vec![vk.r1cs.r1cs_to_hash(), vk.params.param_to_hash(), vk.encode_comm.encode_to_hash()],
        |pk: &snark::ProveKey<MP>, c: &Circ, h: &Vec<TFr>| snark::create_random_proof::<MP, _, _>(pk, c.clone(), h[0], h[1], h[2], &mut rng(5)).map_err(e2s),
        |vk: &snark::VerifyKey<MP>, p: &snark::Proof<MP>, x: &[TFr], h: &Vec<TFr>| snark::verify_proof::<MP>(vk, p, x, h[0], h[1], h[2]).map_err(e2s)
    );
}
fn marlin(c: &mut Ctx) {
    use zkp_marlin::*;
    for s in crate::marlin::shapes(c.thorough).iter().take(if c.thorough { 20 } else { 5 }) {
        c.set_shape(format!("marlin: {}", s));
        tape().reset(c.seed, Assign::new());
        tape().off = true;
        let circ = Circ::make(s);
        let srs: &'static UniversalParams<MP> = Box::leak(Box::new(universal_setup::<MP, _>(crate::marlin::degree(s), &mut rng(2)).unwrap()));
        let (pk, vk) = index(srs, circ.unknown()).map_err(e2s).unwrap();
        let pf = create_random_proof(&pk, circ.clone(), &mut rng(5)).map_err(e2s).unwrap();
        let xs = inputs(&circ.ins);
        let run = |vk: &VerifyKey<MP>, pf: &Proof<MP>| xs.iter().map(|x| verdict(|| verify_proof(vk, pf, x).map_err(e2s))).collect::<Vec<_>>();
        let want = run(&vk, &pf);
        for d in trip(c, "marlin::VerifyKey", &vk, Some(&dbg)) {
            same_verdicts(c, "marlin::VerifyKey", "the decoded key verifies like the original", &want, guarded(|| run(&d, &pf)));
        }
        for d in trip(c, "marlin::Proof", &pf, Some(&dbg)) {
            same_verdicts(c, "marlin::Proof", "the decoded proof verifies like the original", &want, guarded(|| run(&vk, &d)));
        }
        trip(c, "marlin::IndexInfo", &vk.index_info, Some(&dbg));
        trip(c, "marlin::pc::VerifierKey", &vk.verifier_key, Some(&dbg));
        trip(c, "marlin::pc::CommitterKey", &pk.committer_key, Some(&dbg));
        for cm in vk.index_comms.iter().chain(pf.commitments.iter().flat_map(|x| x.iter())) {
            trip(c, "marlin::pc::Commitment", cm, Some(&dbg));
        }
        for p in &pf.opening_proofs {
            trip(c, "marlin::pc::Proof", p, Some(&dbg));
        }
        trip(c, "marlin::pc::LabeledPolynomial", &pk.index.a_star_polys.row, Some(&dbg));
    }
}
fn plonk(c: &mut Ctx) {
    use crate::plonk::{ks, shapes, PCirc, PC, PL};
    use zkp_plonk::{Proof, VerifierKey};
    for s in shapes(c.thorough).iter().take(if c.thorough { 20 } else { 5 }) {
        c.set_shape(format!("plonk: {}", s));
        tape().reset(c.seed, Assign::new());
        tape().off = true;
        let circ = PCirc::make(s);
        let cs = circ.compose();
        let n = (4 * s.gates + 16).next_power_of_two();
        let srs = PL::setup(4 * n, &mut rng(1)).map_err(|_| "setup").unwrap();
        let (pk, vk) = match PL::keygen(&srs, &cs, ks()) {
            Ok(k) => k,
            Err(e) => {
                c.note(format!("plonk key generation: {:?}", format!("{:?}", e)));
                continue;
            }
        };
        let pf = match PL::prove(&pk, &cs, &mut rng(2)) {
            Ok(p) => p,
            Err(_) => continue,
        };
        let xs = inputs(&circ.pis());
        let run = |vk: &VerifierKey<TFr, PC>, pf: &Proof<TFr, PC>| xs.iter().map(|x| verdict(|| PL::verify(vk, x, copy(pf)).map_err(|e| format!("{:?}", e)))).collect::<Vec<_>>();
        let want = run(&vk, &pf);
        for d in trip(c, "plonk::VerifierKey", &vk, Some(&|a, b| a.labels == b.labels && dbg(&a.info, &b.info) && dbg(&a.comms, &b.comms))) {
            same_verdicts(c, "plonk::VerifierKey", "the decoded key verifies like the original", &want, guarded(|| run(&d, &pf)));
        }
        trip(c, "plonk::IndexInfo", &vk.info, Some(&|a, b| a.n == b.n && a.ks == b.ks && a.domain_n == b.domain_n));
        for d in trip(c, "plonk::Proof", &pf, None) {
            same_verdicts(c, "plonk::Proof", "the decoded proof verifies like the original", &want, guarded(|| run(&vk, &d)));
        }
    }
    fn copy(p: &Proof<TFr, PC>) -> Proof<TFr, PC> {
        // not through the encoding under test
        Proof { commitments: p.commitments.clone(), evaluations: p.evaluations.clone(), pc_proof: ark_poly_commit::BatchLCProof { proof: p.pc_proof.proof.clone(), evals: p.pc_proof.evals.clone() } }
    }
}
fn libra(c: &mut Ctx) {
    use zkp_libra::circuit::Circuit;
    use zkp_libra::libra_linear_gkr::LinearGKRProof;
    use zkp_libra::libra_zk_linear_gkr::ZKLinearGKRProof;
    use zkp_libra::params::Parameters;
    for s in shapes(c.thorough, &[1]).iter().filter(|s| !s.consts) {
        c.set_shape(format!("libra: {}", s));
        tape().reset(c.seed, Assign::new());
        tape().off = true;
        let l = LCirc::make(s);
        let circ = Circuit::new(l.n_in, l.n_aux, &l.raw);
        let h = circ.circuit_to_hash::<MP>();
        let lg = l.half.trailing_zeros() as usize;
        let pr = Parameters::<MP>::new(&mut rng(1), lg);
        let out: Vec<TFr> = l.outputs().into_iter().flatten().collect();
        let xs = inputs(&l.ins[0]);
        let prove = |pr: &Parameters<MP>| ZKLinearGKRProof::<MP>::prover(pr, &circ, &l.ins[0], &l.aux[0], h, pr.param_to_hash(), &mut rng(2)).0;
        let pf = prove(&pr);
        let run = |pr: &Parameters<MP>, pf: &ZKLinearGKRProof<MP>| xs.iter().map(|x| verdict(|| Ok(pf.verify(pr, &circ, &out, x, h, pr.param_to_hash())))).collect::<Vec<_>>();
        let want = run(&pr, &pf);
        for d in trip(c, "libra::Parameters", &pr, None) {
            same_verdicts(c, "libra::Parameters", "the decoded parameters verify like the original", &want, guarded(|| run(&d, &pf)));
            let q = guarded(|| ser(&prove(&d)));
            c.ob("libra::Parameters: proofs with the decoded parameters are the same", By::Ground, q.as_ref() == Ok(&ser(&pf)), || String::new());
        }
        for d in trip(c, "libra::ZKLinearGKRProof", &pf, None) {
            same_verdicts(c, "libra::ZKLinearGKRProof", "the decoded proof verifies like the original", &want, guarded(|| run(&pr, &d)));
        }
        let (g, _) = LinearGKRProof::<MP>::prover(&circ, &l.ins[0], &l.aux[0], h);
        for lp in &g.proofs {
            trip(c, "libra::SumCheckProof", &lp.proof_phase_one, None);
            trip(c, "libra::SumCheckProof", &lp.proof_phase_two, None);
        }
        let input = l.layer0(0);
        let gp = LinearGKRProof::<MP> {
            proofs: g.proofs.iter().map(|x| zkp_libra::libra_linear_gkr::LayerProof { proof_phase_one: again(&x.proof_phase_one), proof_phase_two: again(&x.proof_phase_two) }).collect(),
        };
        let w = verdict(|| Ok(g.verify(&circ, &out, &input, h)));
        let v = verdict(|| Ok(gp.verify(&circ, &out, &input, h)));
        c.ob("libra::SumCheckProof: the decoded proof verifies like the original", By::Ground, w == v, || format!("{} want {}", v, w));
    }
    fn again<T: CanonicalSerialize + CanonicalDeserialize>(t: &T) -> T {
        de(&ser(t)).unwrap()
    }
}
fn hyrax(c: &mut Ctx) {
    use zkp_hyrax::circuit::Circuit;
    use zkp_hyrax::hyrax_proof::HyraxProof;
    use zkp_hyrax::params::Parameters;
    for s in shapes(c.thorough, &[2, 4]).iter().filter(|s| !s.consts) {
        c.set_shape(format!("hyrax: {}", s));
        tape().reset(c.seed, Assign::new());
        tape().off = true;
        let l = LCirc::make(s);
        let circ = Circuit::new(l.n_in, l.n_aux, &l.raw);
        let h = circ.circuit_to_hash::<MP>();
        let n = s.copies;
        let lg = (l.half * n).trailing_zeros() as usize;
        let pr = Parameters::<MP>::new(&mut rng(1), lg);
        let out = l.outputs();
        let mut xs = vec![l.ins.clone()];
        for t in 0..n.min(2) {
            let mut y = l.ins.clone();
            y[t][0] += TFr::one();
            xs.push(y);
        }
        let prove = |pr: &Parameters<MP>| HyraxProof::<MP>::prover(pr, &l.aux, &l.ins, &circ, h, pr.param_to_hash(), n, &mut rng(2)).0;
        let pf = prove(&pr);
        let run = |pr: &Parameters<MP>, pf: &HyraxProof<MP>| xs.iter().map(|x| verdict(|| Ok(pf.verify(pr, &out, x, &circ, h, pr.param_to_hash())))).collect::<Vec<_>>();
        let want = run(&pr, &pf);
        for d in trip(c, "hyrax::Parameters", &pr, None) {
            same_verdicts(c, "hyrax::Parameters", "the decoded parameters verify like the original", &want, guarded(|| run(&d, &pf)));
            let q = guarded(|| ser(&prove(&d)));
            c.ob("hyrax::Parameters: proofs with the decoded parameters are the same", By::Ground, q.as_ref() == Ok(&ser(&pf)), || String::new());
        }
        for d in trip(c, "hyrax::HyraxProof", &pf, None) {
            same_verdicts(c, "hyrax::HyraxProof", "the decoded proof verifies like the original", &want, guarded(|| run(&pr, &d)));
        }
    }
}
/// real curves
#[derive(Clone)]
struct Mul<F>(Option<(F, F)>);
impl<F: ark_ff::PrimeField> zkp_r1cs::ConstraintSynthesizer<F> for Mul<F> {
    fn generate_constraints<S: zkp_r1cs::ConstraintSystem<F>>(self, cs: &mut S) -> Result<(), zkp_r1cs::SynthesisError> {
        use zkp_r1cs::SynthesisError::AssignmentMissing as M;
        let v = self.0;
        let a = cs.alloc(|| "a", || v.map(|x| x.0).ok_or(M))?;
        let b = cs.alloc(|| "b", || v.map(|x| x.1).ok_or(M))?;
        let o = cs.alloc_input(|| "o", || v.map(|x| x.0 * x.1).ok_or(M))?;
        cs.enforce(|| "m", |l| l + a, |l| l + b, |l| l + o);
        cs.enforce(|| "n", |l| l + a + b, |l| l + S::one(), |l| l + a + b);
        Ok(())
    }
}
fn real(c: &mut Ctx) {
    tape().off = true;
    {
        use ark_bls12_381::{Bls12_381 as E, Fr as F};
        use zkp_groth16::*;
        c.set_shape("groth16 over BLS12-381");
        let mut r = rng(c.seed + 9);
        let (a, b) = (F::rand(&mut r), F::rand(&mut r));
        let p = generate_random_parameters::<E, _, _>(Mul::<F>(None), &mut r).unwrap();
        let pf = create_random_proof(&p, Mul(Some((a, b))), &mut r).unwrap();
        let run = |vk: &VerifyKey<E>, pf: &Proof<E>| [a * b, a * b + F::one()].iter().map(|x| verdict(|| verify_proof(&prepare_verifying_key(vk), pf, &[*x]).map_err(e2s))).collect::<Vec<_>>();
        for d in trip(c, "groth16::VerifyKey", &p.vk, Some(&|a, b| a == b)) {
            same_verdicts(c, "groth16::VerifyKey", "the decoded key verifies like the original", &[true, false], guarded(|| run(&d, &pf)));
        }
        for d in trip(c, "groth16::Proof", &pf, Some(&|a, b| a == b)) {
            same_verdicts(c, "groth16::Proof", "the decoded proof verifies like the original", &[true, false], guarded(|| run(&p.vk, &d)));
        }
        let q: Parameters<E> = de(&ser(&p)).unwrap();
        c.ob("groth16::Parameters: decoding the encoding gives an equal object", By::Ground, p == q && ser(&p).len() == p.serialized_size(), || String::new());
    }
    {
        use zkp_bulletproofs::arithmetic_circuit::*;
        use zkp_curve25519::{Curve25519 as E, Curve25519Point as P, Fr as F};
        c.set_shape("bulletproofs over curve25519");
        let mut r = rng(c.seed + 10);
        let (a, b) = (F::rand(&mut r), F::rand(&mut r));
        let (g, m, pf) = create_random_proof::<E, _, _>(Mul::<F>(Some((a, b))), &mut r).unwrap();
        let run = |g: &Generators<E>, m: &R1csCircuit<E>, pf: &Proof<E>| [a * b, a * b + F::one()].iter().map(|x| verdict(|| verify_proof(g, pf, m, &[*x]).map_err(e2s))).collect::<Vec<_>>();
        for d in trip(c, "bulletproofs::Generators", &g, None) {
            same_verdicts(c, "bulletproofs::Generators", "the decoded generators verify like the original", &[true, false], guarded(|| run(&d, &m, &pf)));
        }
        for d in trip(c, "bulletproofs::Proof", &pf, None) {
            same_verdicts(c, "bulletproofs::Proof", "the decoded proof verifies like the original", &[true, false], guarded(|| run(&g, &m, &d)));
        }
        for d in trip(c, "bulletproofs::R1csCircuit", &m, None) {
            same_verdicts(c, "bulletproofs::R1csCircuit", "the decoded circuit verifies like the original", &[true, false], guarded(|| run(&g, &d, &pf)));
        }
        c.set_shape("curve25519 values");
        let mut ps: Vec<P> = vec![P::zero()];
        let mut fs: Vec<F> = vec![F::zero(), F::one(), -F::one(), F::from(2u64), F::from(255u64), F::from(256u64)];
        for _ in 0..10 {
            ps.push(P::rand(&mut r));
            fs.push(F::rand(&mut r));
        }
        for p in &ps {
            trip(c, "curve25519::Curve25519Point", p, Some(&|a, b| a == b));
        }
        for f in &fs {
            trip(c, "curve25519::Fr", f, Some(&|a, b| a == b));
        }
        trip(c, "Vec<curve25519::Curve25519Point>", &ps, Some(&|a, b| a == b));
        trip(c, "Vec<curve25519::Fr>", &fs, Some(&|a, b| a == b));
    }
}
pub fn p28(c: &mut Ctx) {
    indexes(c);
    real(c);
    groth16(c);
    plonk(c);
    marlin(c);
    libra(c);
    hyrax(c);
    bulletproofs(c);
    spartan(c);
    c.sample(json!({"forms": FORM, "types": c.obls.keys().filter_map(|k| k.split(": ").next()).collect::<std::collections::BTreeSet<_>>().len()}));
}

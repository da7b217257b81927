//! P26, continued: the digests of circuits, keys and parameters that enter the transcripts change
//! with every component, and the digests are absorbed.
use crate::circ::{rng, Circ};
use crate::ctx::*;
use crate::engine::{e2s, ser, R};
use crate::layered::*;
use ark_ff::{to_bytes, One};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use vmodel::*;

/// every object that differs from `t` in one byte of its encoding has another digest
fn binds<T: CanonicalSerialize + CanonicalDeserialize>(c: &mut Ctx, what: &str, t: &T, digest: &dyn Fn(&T) -> Vec<u8>) {
    let b = ser(t);
    let d0 = digest(t);
    let (mut bad, mut n) = (vec![], 0);
    for i in 0..b.len() {
        let mut a = b.clone();
        a[i] ^= 1;
        let mut r = &a[..];
        let x = match guarded(|| T::deserialize(&mut r).map_err(e2s)) {
            Ok(Ok(x)) => x,
            _ => continue,
        };
        if ser(&x) != a {
            continue;
        }
        n += 1;
        if matches!(guarded(|| digest(&x)), Ok(d) if d == d0) {
            bad.push(i);
        }
    }
    c.ob(&format!("{}: the digest changes with every component", what), By::Ground, bad.is_empty(), || format!("not with bytes {:?} of {}", &bad[..bad.len().min(20)], b.len()));
    c.note(format!("{}: {} altered objects", what, n));
}
fn absorbed(c: &mut Ctx, what: &str, accepts: &dyn Fn() -> R<bool>) {
    let a = matches!(guarded(|| accepts()), Ok(Ok(true)));
    c.ob(&format!("{}: an altered digest is rejected", what), By::Ground, !a, || String::new());
}

macro_rules! circuits {
    ($f:ident, $m:ident, $label:literal) => {
        fn $f(c: &mut Ctx, l: &LCirc) {
            use $m::circuit::Circuit;
            let mk = || Circuit::new(l.n_in, l.n_aux, &l.raw);
            let h0 = mk().circuit_to_hash::<MP>();
            let mut bad = vec![];
            let n = mk().layers.len();
            for d in 0..n {
                for g in 0..mk().layers[d].gates.len() {
                    for k in 0..4 {
                        let mut x = mk();
                        let q = &mut x.layers[d].gates[g];
                        match k {
                            0 => q.g += 1,
                            1 => q.op ^= 1,
                            2 => q.left_node += 1,
                            _ => q.right_node += 1,
                        }
                        if x.circuit_to_hash::<MP>() == h0 {
                            bad.push(format!("layer {} gate {} field {}", d, g, k));
                        }
                    }
                }
                let mut x = mk();
                x.layers[d].bit_size += 1;
                if x.circuit_to_hash::<MP>() == h0 {
                    bad.push(format!("layer {} bit size", d));
                }
                // the same gates, divided differently among the layers
                if d + 1 < n {
                    let mut x = mk();
                    let q = x.layers[d + 1].gates.remove(0);
                    x.layers[d + 1].gates_count -= 1;
                    x.layers[d].gates.push(q);
                    x.layers[d].gates_count += 1;
                    if x.circuit_to_hash::<MP>() == h0 {
                        bad.push(format!("first gate of layer {} in layer {}", d + 1, d));
                    }
                }
            }
            let mut x = mk();
            x.depth += 1;
            if x.circuit_to_hash::<MP>() == h0 {
                bad.push("depth".into());
            }
            c.ob(concat!($label, " circuit: the digest changes with every component"), By::Ground, bad.is_empty(), || format!("not with {:?}", &bad[..bad.len().min(6)]));
        }
    };
}
circuits!(libra_circuit, zkp_libra, "libra");
circuits!(hyrax_circuit, zkp_hyrax, "hyrax");

fn fresh(c: &mut Ctx) {
    tape().reset(c.seed, Assign::new());
    tape().off = true;
}
fn r1cs(c: &mut Ctx, what: &str, r: &zkp_spartan::r1cs::R1CSInstance<MP>) {
    binds(c, what, r, &|r: &zkp_spartan::r1cs::R1CSInstance<MP>| ser(&r.r1cs_to_hash()));
    // the same entries, divided differently among the rows
    let h0 = r.r1cs_to_hash();
    let mut bad = vec![];
    for m in 0..3 {
        for i in 0..r.num_constraints.saturating_sub(1) {
            let mut x: zkp_spartan::r1cs::R1CSInstance<MP> = crate::engine::de(&ser(r)).unwrap();
            let mat = match m {
                0 => &mut x.a_matrix,
                1 => &mut x.b_matrix,
                _ => &mut x.c_matrix,
            };
            if i + 1 >= mat.len() || mat[i].is_empty() {
                continue;
            }
            let e = mat[i].pop().unwrap();
            mat[i + 1].insert(0, e);
            if x.r1cs_to_hash() == h0 {
                bad.push(format!("matrix {} rows {} and {}", ["a", "b", "c"][m], i, i + 1));
            }
        }
    }
    c.ob(&format!("{}: the digest fixes the rows", what), By::Ground, bad.is_empty(), || format!("{:?}", bad));
}
pub fn p26(c: &mut Ctx) {
    c.system = String::new();
    let n = if c.thorough { 10 } else { 2 };
    for s in shapes(c.thorough, &[1, 2]).iter().filter(|s| !s.consts).take(2 * n) {
        c.set_shape(format!("digests: layered {}", s));
        fresh(c);
        let l = LCirc::make(s);
        libra_circuit(c, &l);
        hyrax_circuit(c, &l);
        let lg = (l.half * s.copies).trailing_zeros() as usize;
        let out = l.outputs();
        let flat: Vec<TFr> = out.iter().cloned().flatten().collect();
        let one = TFr::one();
        if s.copies == 1 {
            let circ = zkp_libra::circuit::Circuit::new(l.n_in, l.n_aux, &l.raw);
            let pr = zkp_libra::params::Parameters::<MP>::new(&mut rng(1), lg);
            binds(c, "libra parameters", &pr, &|p: &zkp_libra::params::Parameters<MP>| ser(&p.param_to_hash()));
            let (h, ph) = (circ.circuit_to_hash::<MP>(), pr.param_to_hash());
            let pf = zkp_libra::libra_zk_linear_gkr::ZKLinearGKRProof::<MP>::prover(&pr, &circ, &l.ins[0], &l.aux[0], h, ph, &mut rng(2)).0;
            absorbed(c, "libra zk circuit", &|| Ok(pf.verify(&pr, &circ, &flat, &l.ins[0], h + one, ph)));
            absorbed(c, "libra zk parameters", &|| Ok(pf.verify(&pr, &circ, &flat, &l.ins[0], h, ph + one)));
        } else {
            let circ = zkp_hyrax::circuit::Circuit::new(l.n_in, l.n_aux, &l.raw);
            let pr = zkp_hyrax::params::Parameters::<MP>::new(&mut rng(1), lg);
            binds(c, "hyrax parameters", &pr, &|p: &zkp_hyrax::params::Parameters<MP>| ser(&p.param_to_hash()));
            let (h, ph) = (circ.circuit_to_hash::<MP>(), pr.param_to_hash());
            let pf = zkp_hyrax::hyrax_proof::HyraxProof::<MP>::prover(&pr, &l.aux, &l.ins, &circ, h, ph, s.copies, &mut rng(2)).0;
            absorbed(c, "hyrax circuit", &|| Ok(pf.verify(&pr, &out, &l.ins, &circ, h + one, ph)));
            absorbed(c, "hyrax parameters", &|| Ok(pf.verify(&pr, &out, &l.ins, &circ, h, ph + one)));
        }
    }
    for s in crate::spartan::shapes(c.thorough, false).into_iter().take(n + 1) {
        use zkp_spartan::nizk;
        c.set_shape(format!("digests: spartan nizk {}", s));
        fresh(c);
        let circ = Circ::make(&s);
        let (pk, vk) = nizk::generate_random_parameters::<MP, _, _>(circ.unknown(), &mut rng(7)).unwrap().keypair();
        r1cs(c, "spartan r1cs", &vk.r1cs);
        binds(c, "spartan nizk parameters", &vk.params, &|p| ser(&p.param_to_hash()));
        let h = vec![vk.r1cs.r1cs_to_hash(), vk.params.param_to_hash()];
        let pf = nizk::create_random_proof::<MP, _, _>(&pk, circ.clone(), h[0], h[1], &mut rng(5)).unwrap();
        for k in 0..2 {
            let mut g = h.clone();
            g[k] += TFr::one();
            absorbed(c, ["spartan nizk r1cs", "spartan nizk parameters"][k], &|| nizk::verify_proof::<MP>(&vk, &pf, &circ.ins, g[0], g[1]).map_err(e2s));
        }
    }
    for s in crate::spartan::shapes(c.thorough, true).into_iter().take(n) {
        use zkp_spartan::snark;
        c.set_shape(format!("digests: spartan snark {}", s));
        fresh(c);
        let circ = Circ::make(&s);
        let (pk, vk) = snark::generate_random_parameters::<MP, _, _>(circ.unknown(), &mut rng(7)).unwrap().keypair();
        r1cs(c, "spartan r1cs", &vk.r1cs);
        binds(c, "spartan snark parameters", &vk.params, &|p| ser(&p.param_to_hash()));
        binds(c, "spartan snark encoding", &vk.encode_comm, &|p| ser(&p.encode_to_hash()));
        let h = vec![vk.r1cs.r1cs_to_hash(), vk.params.param_to_hash(), vk.encode_comm.encode_to_hash()];
        let pf = snark::create_random_proof::<MP, _, _>(&pk, circ.clone(), h[0], h[1], h[2], &mut rng(5)).unwrap();
        for k in 0..3 {
            let mut g = h.clone();
            g[k] += TFr::one();
            absorbed(c, ["spartan snark r1cs", "spartan snark parameters", "spartan snark encoding"][k], &|| snark::verify_proof::<MP>(&vk, &pf, &circ.ins, g[0], g[1], g[2]).map_err(e2s));
        }
    }
    for s in crate::marlin::shapes(c.thorough).iter().take(n + 1) {
        use zkp_marlin::*;
        c.set_shape(format!("digests: marlin {}", s));
        fresh(c);
        let circ = Circ::make(s);
        let srs = universal_setup::<MP, _>(crate::marlin::degree(s), &mut rng(2)).unwrap();
        let (_, vk) = index(&srs, circ.unknown()).map_err(e2s).unwrap();
        binds(c, "marlin key", &vk, &|v: &VerifyKey<MP>| to_bytes![v].unwrap());
    }
}

//! P15/P16: Marlin.
use crate::circ::*;
use crate::ctx::*;
use crate::engine::*;
use ark_ff::{FftField, Field, One, Zero};
use vmodel::*;
use zkp_marlin::*;

fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let o = tape().off;
    tape().off = true;
    let r = f();
    tape().off = o;
    r
}
/// the padded number of public inputs (with the constant one) is a power of two
pub fn shapes(thorough: bool) -> Vec<Shape> {
    let mut v = vec![];
    let mut s = 0;
    for &(i, a, c, t) in &[(1, 2, 2, 3), (0, 3, 3, 3), (3, 2, 4, 2), (1, 5, 3, 3), (0, 1, 1, 1), (3, 1, 9, 3), (1, 0, 1, 1), (0, 0, 1, 1), (1, 1, 4, 1), (7, 2, 5, 2), (0, 6, 2, 5)] {
        s += 1;
        v.push(Shape { n_in: i, n_aux: a, n_con: c, terms: t, small: s % 3 == 0, seed: s as u64 + 500 });
    }
    if thorough {
        for k in 0..24u64 {
            v.push(Shape { n_in: [0, 1, 3, 7][(k % 4) as usize], n_aux: (k * 5 % 11) as usize, n_con: 1 + (k * 3 % 13) as usize, terms: 1 + (k % 5) as usize, small: k % 3 == 0, seed: 5000 + k });
        }
    }
    v
}
fn pow2(n: usize) -> usize {
    n.max(1).next_power_of_two()
}
fn lg(x: TFr, n: usize) -> TFr {
    // x^n, n a power of two
    let mut r = x;
    let mut k = 1;
    while k < n {
        r = r * r;
        k *= 2;
    }
    r
}
fn vanish(x: TFr, n: usize) -> TFr {
    lg(x, n) - TFr::one()
}
fn root(n: usize) -> Fr {
    if n == 1 {
        Fr::one()
    } else {
        Fr::get_root_of_unity(n).unwrap()
    }
}
/// value at x of the polynomial with values v on the domain of size n
fn interp(v: &[TFr], n: usize, x: TFr) -> TFr {
    let w = root(n);
    let zx = vanish(x, n) * TFr::cst(Fr::from(n as u64).inverse().unwrap());
    let mut r = TFr::zero();
    for (i, vi) in v.iter().enumerate() {
        let wi = TFr::cst(w.pow(&[i as u64]));
        r += *vi * zx * wi * (x - wi).inverse().unwrap();
    }
    r
}
fn power(x: TFr, n: usize) -> TFr {
    let mut r = TFr::one();
    for i in (0..64).rev() {
        r = r * r;
        if n >> i & 1 == 1 {
            r = r * x;
        }
    }
    r
}
/// Marlin's verification equations, written from the protocol
fn equations(vk: &VerifyKey<MP>, by: &[u8], x: &[TFr], ch: &[TFr]) -> R<Vec<(TFr, TFr)>> {
    let pf: Proof<MP> = de(by)?;
    if ch.len() != 7 {
        return Err(format!("{} challenges (one equals a proof element)", ch.len()));
    }
    let (alpha, ea, eb, ec, beta, gamma, xi) = (ch[0], ch[1], ch[2], ch[3], ch[4], ch[5], ch[6]);
    let info = &vk.index_info;
    let (h, k) = (pow2(info.num_variables), pow2(info.num_non_zeros));
    let names = ["a_col", "a_row", "a_row_col", "a_val", "b_col", "b_row", "b_row_col", "b_val", "c_col", "c_row", "c_row_col", "c_val", "g_1", "g_2", "h_1", "h_2", "mask", "t", "w", "z_a", "z_b"];
    let ev = |n: &str| pf.evaluations[names.iter().position(|m| *m == n).unwrap()];
    let mut z = vec![TFr::one()];
    z.extend_from_slice(x);
    let nx = pow2(z.len());
    let vh = |y: TFr| vanish(y, h);
    let r_ab = (vh(alpha) - vh(beta)) * (alpha - beta).inverse().unwrap();
    let t = ev("t");
    let e1 = ev("mask") + r_ab * (ea * ev("z_a") + eb * ev("z_b") + ec * ev("z_a") * ev("z_b")) - t * (vanish(beta, nx) * ev("w") + interp(&z, nx, beta));
    let f1 = ev("h_1") * vh(beta) + beta * ev("g_1");
    let den = |m: &str| alpha * beta - alpha * ev(&format!("{}_row", m)) - beta * ev(&format!("{}_col", m)) + ev(&format!("{}_row_col", m));
    let (da, db, dc) = (den("a"), den("b"), den("c"));
    let num = vh(alpha) * vh(beta) * (ea * ev("a_val") * db * dc + eb * ev("b_val") * da * dc + ec * ev("c_val") * da * db);
    let e2 = ev("h_2") * vanish(gamma, k);
    let f2 = num - da * db * dc * (gamma * ev("g_2") + t * TFr::cst(Fr::from(k as u64).inverse().unwrap()));
    // openings
    let order = ["a_row", "a_col", "a_val", "a_row_col", "b_row", "b_col", "b_val", "b_row_col", "c_row", "c_col", "c_val", "c_row_col", "w", "z_a", "z_b", "mask", "t", "g_1", "h_1", "g_2", "h_2"];
    let comms: Vec<_> = vk.index_comms.iter().chain(pf.commitments.iter().flat_map(|c| c.iter())).collect();
    if comms.len() != order.len() || pf.opening_proofs.len() != 2 {
        return Err("number of commitments".into());
    }
    let pc = &vk.verifier_key;
    let mut out = vec![(e1, f1), (e2, f2)];
    let mut pts = vec![(beta, vec!["g_1", "h_1", "mask", "t", "w", "z_a", "z_b"]), (gamma, vec!["a_col", "a_row", "a_row_col", "a_val", "b_col", "b_row", "b_row_col", "b_val", "c_col", "c_row", "c_row_col", "c_val", "g_2", "h_2"])];
    pts.sort_by_key(|p| p.0.v);
    for ((pt, labels), op) in pts.iter().zip(&pf.opening_proofs) {
        let mut cc = TFr::zero();
        let mut vv = TFr::zero();
        let mut pw = TFr::one();
        for l in labels {
            let cm = comms[order.iter().position(|o| o == l).unwrap()];
            cc += pw * cm.comm.0.x;
            vv += pw * ev(l);
            let bound = match *l {
                "g_1" => Some(h - 2),
                "g_2" => Some(k - 2),
                _ => None,
            };
            if let Some(b) = bound {
                let sc = cm.shifted_comm.as_ref().ok_or("no shifted commitment")?;
                cc += pw * xi * sc.0.x;
                vv += pw * xi * power(*pt, pc.supported_degree - b) * ev(l);
            }
            pw = pw * xi * xi;
        }
        let rv = op.rand_v.unwrap_or_else(TFr::zero);
        out.push(((cc - vv * pc.g.x - rv * pc.gamma_g.x) * pc.h.x, op.w.x * (pc.beta_h.x - *pt * pc.h.x)));
    }
    Ok(out)
}
/// degree of the reference string that fits every circuit used here
pub fn degree(s: &Shape) -> usize {
    let n = pow2(s.n_in + 1) + s.n_aux.max(s.n_con) + s.n_con;
    let k = pow2(s.n_con * (s.terms + 1));
    (3 * pow2(n) + 8).max(3 * k + 8)
}
type Bad<'a> = Vec<(String, Box<dyn Fn() -> R<(Vec<u8>, Vec<TFr>)> + 'a>)>;
type Alt<'a> = Vec<(String, Box<dyn Fn(&[u8]) -> R<bool> + 'a>)>;
pub fn mk<'a>(s: &'a Shape, seed: u64) -> Proto<'a> {
    let circ = Circ::make(s);
    let srs: &'static UniversalParams<MP> = Box::leak(Box::new(universal_setup::<MP, _>(degree(s), &mut rng(seed)).unwrap()));
    let (pk, vk) = index(srs, circ.unknown()).map_err(|e| format!("index: {:?}", e)).unwrap();
    let (pk, vk) = (std::rc::Rc::new(pk), std::rc::Rc::new(vk));
    let public = ser(&*vk);
    let mut bad: Bad = vec![];
    for (name, b) in circ.wrong(seed) {
        let pk = pk.clone();
        bad.push((name, Box::new(move || Ok((ser(&create_random_proof(&pk, b.clone(), &mut rng(seed + 5)).map_err(e2s)?), b.ins.clone())))));
    }
    let mut alt: Alt = vec![];
    for (name, b) in circ.other(seed) {
        let x = circ.ins.clone();
        alt.push((name, Box::new(move |by| {
            let (_, vk) = index(srs, b.unknown()).map_err(e2s)?;
            again();
            verify_proof(&vk, &de(by)?, &x).map_err(e2s)
        })));
    }
    for round in 0..2 {
        let (x, vk) = (circ.ins.clone(), vk.clone());
        alt.push((format!("the last commitment of round {} sent one round later", round + 1), Box::new(move |by| {
            let mut p: Proof<MP> = de(by)?;
            let m = p.commitments[round].pop().ok_or("no commitment")?;
            p.commitments[round + 1].insert(0, m);
            verify_proof(&vk, &p, &x).map_err(e2s)
        })));
    }
    let inputs = circ.ins.clone();
    let fixed = circ.fixed();
    let prove = Box::new(move || Ok(ser(&create_random_proof(&pk, circ.clone(), &mut rng(seed + 5)).map_err(e2s)?)));
    let v2 = vk.clone();
    let verify = Box::new(move |b: &[u8], x: &[TFr]| verify_proof(&vk, &de(b)?, x).map_err(e2s));
    Proto { fixed, prove, verify, inputs, public, alt, bad, reference: Some(Box::new(move |b, x, ch| equations(&v2, b, x, ch))) }
}
pub fn opts() -> Opts {
    Opts { slack: None, chain: true, ..Default::default() }
}
pub fn p16(c: &mut Ctx) {
    let w = Which { complete: false, sound: true, fs: false, hide: false };
    for (i, s) in shapes(c.thorough).iter().enumerate() {
        if c.late() {
            break;
        }
        c.set_shape(s.to_string());
        protocol(c, c.seed * 100 + i as u64, &opts(), &w, &|| mk(s, 7));
    }
}
pub fn p15(c: &mut Ctx) {
    let w = Which { complete: true, sound: false, fs: false, hide: false };
    for (i, s) in shapes(c.thorough).iter().enumerate() {
        if c.late() {
            break;
        }
        c.set_shape(s.to_string());
        let seed = c.seed * 100 + i as u64;
        tape().reset(seed, Assign::new());
        quiet(|| matrices(c, s, seed));
        protocol(c, seed, &opts(), &w, &|| mk(s, 7));
    }
}
/// the index is the circuit
fn matrices(c: &mut Ctx, s: &Shape, seed: u64) {
    let circ = Circ::make(s);
    let got = guarded(|| {
        let srs: &'static UniversalParams<MP> = Box::leak(Box::new(universal_setup::<MP, _>(degree(s), &mut rng(seed)).unwrap()));
        index(srs, circ.unknown()).map_err(e2s)
    });
    let (pk, _) = match got {
        Ok(Ok(k)) => k,
        e => {
            c.ob("indexing succeeds for every circuit", By::Ground, false, || format!("{:?}", e.map(|r| r.map(|_| ()))));
            return;
        }
    };
    c.ob("indexing succeeds for every circuit", By::Ground, true, || String::new());
    let ix = &pk.index;
    let n = ix.index_info.num_variables;
    let nin = circ.ins.len() + 1;
    c.ob("the padded system is square and holds every variable and constraint", By::Ground, ix.index_info.num_constraints == n && n >= nin + circ.aux.len() && n >= circ.cons.len() && ix.a.0.len() == n && ix.b.0.len() == n && ix.c.0.len() == n, || format!("{:?}", ix.index_info));
    // rows at an arbitrary assignment
    for k in 0..3 {
        let z: Vec<Fr> = (0..n).map(|i| det_rand(seed, &format!("z{}.{}", k, i))).collect();
        let at = |v: &V| match v {
            V::One => z[0],
            V::In(i) => z[1 + i],
            V::Aux(i) => z[nin + i],
        };
        let row = |m: &Vec<Vec<(TFr, usize)>>, r: usize| m.get(r).map_or(Fr::zero(), |r| r.iter().map(|(c, j)| c.v * z[*j]).fold(Fr::zero(), |a, b| a + b));
        let lc = |l: &Lc| l.iter().map(|(v, c)| c.v * at(v)).fold(Fr::zero(), |a, b| a + b);
        for r in 0..n {
            let got = (row(&ix.a.0, r), row(&ix.b.0, r), row(&ix.c.0, r));
            let want = circ.cons.get(r).map_or((Fr::zero(), Fr::zero(), Fr::zero()), |(a, b, e)| (lc(a), lc(b), lc(e)));
            let same = got.2 == want.2 && (got.0 == want.0 && got.1 == want.1 || got.0 == want.1 && got.1 == want.0);
            c.ob("every matrix row is the circuit's constraint (A and B possibly exchanged)", By::Pit, same, || format!("row {} of {}", r, n));
        }
    }
    // polynomials against matrices, at a random point
    let (h, kk, nx) = (pow2(n), pow2(ix.index_info.num_non_zeros), pow2(nin));
    let (wh, wk) = (root(h), root(kk));
    let (al, be) = (det_rand(seed, "alpha"), det_rand(seed, "beta"));
    let vh = |x: Fr| x.pow(&[h as u64]) - Fr::one();
    // position of variable j in the domain H: inputs are spread over the subdomain
    let ratio = h / nx;
    let pos = |j: usize| {
        if j < nx {
            j * ratio
        } else {
            let i = j - nx;
            i + i / (ratio - 1) + 1
        }
    };
    for (nm, m, p) in &[("a", &ix.a, &ix.a_star_polys), ("b", &ix.b, &ix.b_star_polys), ("c", &ix.c, &ix.c_star_polys)] {
        let mut want = Fr::zero();
        for (i, row) in m.0.iter().enumerate() {
            for (co, j) in row {
                let (hi, hj) = (wh.pow(&[i as u64]), wh.pow(&[pos(*j) as u64]));
                let r = vh(al) * (al - hi).inverse().unwrap();
                let l = vh(be) * hj * (Fr::from(h as u64) * (be - hj)).inverse().unwrap();
                want += co.v * r * l;
            }
        }
        let mut got = Fr::zero();
        let evp = |q: &dyn Fn(TFr) -> TFr, x: Fr| q(TFr::cst(x)).v;
        let mut rc = true;
        for k in 0..kk {
            let x = wk.pow(&[k as u64]);
            let (r, co, v) = (evp(&|x| p.row.evaluate(x), x), evp(&|x| p.col.evaluate(x), x), evp(&|x| p.val.evaluate(x), x));
            rc &= evp(&|x| p.row_col.evaluate(x), x) == r * co;
            rc &= r.pow(&[h as u64]).is_one() && co.pow(&[h as u64]).is_one();
            rc &= p.row_evals_on_k.evals[k].v == r && p.col_evals_on_k.evals[k].v == co && p.val_evals_on_k.evals[k].v == v;
            got += v * vh(al) * vh(be) * ((be - r) * (al - co)).inverse().unwrap();
        }
        c.ob("row, column and product polynomials agree on the domain K", By::Pit, rc, || nm.to_string());
        c.ob("the indexed polynomials represent the matrix", By::Pit, got == want, || format!("matrix {} got {} want {}", nm, got, want));
    }
}
pub fn runs(c: &mut Ctx, w: &Which) {
    let mut all = shapes(c.thorough);
    if w.hide {
        all.extend(free_shapes(1220).into_iter().filter(|s| (s.n_in + 1).is_power_of_two()));
    }
    for (i, s) in all.iter().enumerate() {
        if c.late() {
            break;
        }
        c.set_shape(s.to_string());
        protocol(c, c.seed * 100 + i as u64, &opts(), w, &|| mk(s, 7));
    }
}

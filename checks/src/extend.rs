//! P25: layered circuits and multilinear extensions against their defining sums.
use crate::ctx::*;
use crate::layered::*;
use ark_ff::{One, Zero};
use merlin::Transcript;
use rand::RngCore;
use vmodel::*;

fn xs(p: &str, n: usize) -> Vec<TFr> {
    (0..n).map(|i| TFr::input(&format!("{}{}", p, i))).collect()
}
/// table with free entries, some fixed to zero or one
fn table(p: &str, n: usize, style: usize) -> Vec<TFr> {
    (0..n)
        .map(|i| match (style, i % 3) {
            (1, 0) => TFr::zero(),
            (1, 1) => TFr::one(),
            (2, _) => TFr::zero(),
            _ => TFr::input(&format!("{}{}", p, i)),
        })
        .collect()
}
/// prod over the variables of r_k or 1 - r_k by the bits of i, first variable = most significant bit
fn eqb(r: &[TFr], i: usize) -> TFr {
    let m = r.len();
    let mut p = TFr::one();
    for (k, v) in r.iter().enumerate() {
        p = p * if i >> (m - 1 - k) & 1 == 1 { *v } else { TFr::one() - *v };
    }
    p
}
/// the multilinear extension of a table (padded with zeros)
fn mle(t: &[TFr], r: &[TFr]) -> TFr {
    t.iter().enumerate().fold(TFr::zero(), |a, (i, v)| a + *v * eqb(r, i))
}
fn eqv(c: &mut Ctx, name: &str, got: Result<Vec<TFr>, String>, want: &[TFr]) {
    match got {
        Ok(g) if g.len() == want.len() => {
            for (a, b) in g.iter().zip(want) {
                c.eq(name, a, b, &Assign::new());
            }
            if g.is_empty() {
                c.ob(name, By::Ground, true, || String::new());
            }
        }
        Ok(g) => {
            c.ob(name, By::Ground, false, || format!("{} values instead of {}", g.len(), want.len()));
        }
        Err(e) => {
            c.ob(name, By::Ground, false, || format!("panic: {}", e));
        }
    }
}
fn one(r: Result<TFr, String>) -> Result<Vec<TFr>, String> {
    r.map(|x| vec![x])
}
fn flat(v: Vec<Vec<TFr>>) -> Vec<TFr> {
    v.into_iter().flatten().collect()
}

macro_rules! circuits {
    ($fname:ident, $lib:ident, $label:literal, $rev:literal) => {
        fn $fname(c: &mut Ctx) {
            use $lib::circuit::{Circuit, Layer};
            // well-formed circuits
            let mut sh: Vec<LShape> = vec![];
            let mut r = XorRng(c.seed + 41, 9);
            let io = [(0usize, 1usize), (1, 0), (1, 1), (2, 1), (1, 2), (3, 3), (5, 2), (0, 4), (4, 0), (2, 7), (8, 3), (9, 9)];
            for k in 0..(if c.thorough { 900u64 } else { 200 }) {
                let (n_in, n_aux) = io[k as usize % io.len()];
                let d = (k % 4) as usize + (k == 0) as usize;
                sh.push(LShape { n_in, n_aux, sizes: (0..d).map(|_| 1 + (r.next_u64() % 9) as usize).collect(), copies: 1, seed: 7000 + k, consts: false });
            }
            for s in &sh {
                c.set_shape(format!(concat!($label, " {}"), s));
                tape().reset(c.seed, Assign::new());
                let l = LCirc::make(s);
                let circ = guarded(|| Circuit::new(l.n_in, l.n_aux, &l.raw));
                let circ = match circ {
                    Ok(x) => x,
                    Err(e) => {
                        c.ob(concat!($label, " circuit: well-formed circuits are built"), By::Ground, false, || e);
                        continue;
                    }
                };
                let mut meta = circ.depth == l.raw.len() + 1 && circ.layers.len() == circ.depth;
                for (d, la) in circ.layers.iter().enumerate() {
                    let n = if d == 0 { 2 * l.half } else { l.raw[d - 1].len() };
                    meta &= la.gates_count == n && la.gates.len() == n && 1usize << la.bit_size == n.max(1).next_power_of_two();
                    for (g, gt) in la.gates.iter().enumerate() {
                        meta &= gt.g == g;
                        meta &= if d == 0 { gt.op == 3 } else { (gt.op, gt.left_node, gt.right_node) == l.raw[d - 1][g] };
                    }
                }
                c.ob(concat!($label, " circuit: layers hold the given gates, in order, with their sizes"), By::Ground, meta, || format!("{:?}", l.raw));
                let mut want = l.values(0);
                if $rev {
                    want.reverse();
                }
                let got = guarded(|| circ.evaluate::<MP>(&l.ins[0], &l.aux[0]).map_err(|e| format!("{:?}", e)));
                match got {
                    Ok(Ok(g)) => {
                        c.ob(concat!($label, " circuit: one value per gate and layer"), By::Ground, g.iter().map(|x| x.len()).eq(want.iter().map(|x| x.len())), || format!("{:?}", g.iter().map(|x| x.len()).collect::<Vec<_>>()));
                        if g.iter().map(|x| x.len()).eq(want.iter().map(|x| x.len())) {
                            eqv(c, concat!($label, " circuit: each gate is the sum or product of its two wires"), Ok(flat(g)), &flat(want));
                        }
                    }
                    e => {
                        c.ob(concat!($label, " circuit: well-formed circuits evaluate"), By::Ground, false, || format!("{:?}", e));
                    }
                }
                // more values than the circuit has room for
                for (di, da) in [(l.half + 1 - l.n_in, 0), (0, l.half + 1 - l.n_aux)].iter() {
                    let mut i2 = l.ins[0].clone();
                    i2.extend(xs("mi", *di));
                    let mut a2 = l.aux[0].clone();
                    a2.extend(xs("ma", *da));
                    let r = guarded(|| circ.evaluate::<MP>(&i2, &a2).is_ok());
                    c.ob(concat!($label, " circuit: more values than input wires are not accepted"), By::Ground, !matches!(r, Ok(true)), || format!("{} inputs {} witnesses", i2.len(), a2.len()));
                }
                // malformed layers
                let mut prev = 2 * l.half;
                for d in 0..l.raw.len() {
                    for g in 0..l.raw[d].len() {
                        for bad in 0..6 {
                            let mut raw = l.raw.clone();
                            let q = &mut raw[d][g];
                            match bad {
                                0 => q.0 = 2,
                                1 => q.0 = 3,
                                2 => q.1 = prev,
                                3 => q.2 = prev,
                                4 => q.1 = prev + 3,
                                _ => q.2 = usize::MAX,
                            }
                            let r = guarded(|| {
                                Circuit::new(l.n_in, l.n_aux, &raw);
                            });
                            c.ob(concat!($label, " circuit: a gate with an unknown operation or a wire outside the layer below is not accepted"), By::Ground, r.is_err(), || format!("{:?} with {:?}", l.raw, raw[d][g]));
                            let r = guarded(|| Layer::mid_layer_new(&raw[d], prev).is_ok());
                            c.ob(concat!($label, " layer: a gate with an unknown operation or a wire outside the layer below is not accepted"), By::Ground, !matches!(r, Ok(true)), || format!("{:?}", raw[d][g]));
                            // the circuit altered after construction
                            let r = guarded(|| {
                                let mut o = Circuit::new(l.n_in, l.n_aux, &l.raw);
                                let q = &mut o.layers[d + 1].gates[g];
                                q.op = raw[d][g].0;
                                q.left_node = raw[d][g].1;
                                q.right_node = raw[d][g].2;
                                o.evaluate::<MP>(&l.ins[0], &l.aux[0]).is_ok()
                            });
                            c.ob(concat!($label, " circuit: evaluation of a malformed circuit is refused"), By::Ground, !matches!(r, Ok(true)), || format!("{:?}", raw[d][g]));
                        }
                    }
                    prev = l.raw[d].len();
                }
            }
        }
    };
}
circuits!(libra_circuits, zkp_libra, "libra", false);
circuits!(hyrax_circuits, zkp_hyrax, "hyrax", true);

macro_rules! extensions {
    ($fname:ident, $m:path, $label:literal, $value:ident, $fold:expr) => {
        fn $fname(c: &mut Ctx) {
            use $m::*;
            for m in 0..(if c.thorough { 8 } else { 6 }) {
                c.set_shape(format!(concat!($label, " {} variables"), m));
                tape().reset(c.seed, Assign::new());
                let (r, s) = (xs("r", m), xs("s", m));
                let n = 1usize << m;
                eqv(c, concat!($label, " eval_eq: the equality polynomial at every vertex"), guarded(|| eval_eq::<MP>(&r)), &(0..n).map(|i| eqb(&r, i)).collect::<Vec<_>>());
                let w = (0..m).fold(TFr::one(), |a, k| a * (r[k] * s[k] + (TFr::one() - r[k]) * (TFr::one() - s[k])));
                eqv(c, concat!($label, " eval_eq_x_y: the equality polynomial of two points"), one(guarded(|| eval_eq_x_y::<MP>(&r, &s))), &[w]);
                c.ob(concat!($label, " eval_eq_x_y: points of different dimension are refused"), By::Ground, guarded(|| eval_eq_x_y::<MP>(&r, &xs("s", m + 1))).is_err(), || String::new());
                for style in 0..3 {
                    for len in [n, n.saturating_sub(1), n / 2 + 1, 0].iter() {
                        let t = table("t", *len, style);
                        eqv(c, concat!($label, " value: the multilinear extension of the table"), one(guarded(|| $value::<MP>(&t, &r))), &[mle(&t, &r)]);
                    }
                    if m > 0 {
                        let t = table("t", n, style);
                        let h = n / 2;
                        let want: Vec<TFr> = (0..h).map(|i| (TFr::one() - r[0]) * t[i] + r[0] * t[i + h]).collect();
                        let fold: fn(&Vec<TFr>, TFr) -> Vec<Vec<TFr>> = $fold;
                        for k in 0..fold(&t, r[0]).len() {
                            eqv(c, concat!($label, " fold: the first variable is fixed"), guarded(|| fold(&t, r[0])[k].clone()), &want);
                        }
                    }
                }
            }
        }
    };
}
extensions!(libra_ext, zkp_libra::evaluate, "libra", eval_value, |t, r| vec![combine_with_r::<MP>(t, r)]);
extensions!(hyrax_ext, zkp_hyrax::evaluate, "hyrax", eval_value, |t, r| vec![combine_with_r::<MP>(t, r)]);
extensions!(spartan_ext, zkp_spartan::polynomial, "spartan", sparse_evaluate_value, |t, r| {
    let mut u = t.clone();
    combine_with_r::<MP>(&mut u, r);
    vec![combine_with_n::<MP>(t, r), u]
});

fn spartan_more(c: &mut Ctx) {
    use zkp_r1cs::Index;
    use zkp_spartan::polynomial::*;
    let mut r = XorRng(c.seed + 3, 5);
    for k in 0..(if c.thorough { 600u64 } else { 160 }) {
        let (a, b) = ((k % 4) as usize, (k / 4 % 4) as usize);
        let (rows, cols) = (1usize << a, 1usize << b);
        // inputs come after the witness half: column of Input(i) is half + i
        c.set_shape(format!("spartan matrix {}x{} number {}", rows, cols, k));
        tape().reset(c.seed, Assign::new());
        let mut n = 0;
        let used = if k % 3 == 0 { rows } else { 1 + (r.next_u64() % rows as u64) as usize };
        let mat: Vec<Vec<(TFr, Index)>> = (0..used)
            .map(|_| {
                (0..r.next_u64() % 4)
                    .map(|_| {
                        n += 1;
                        let col = (r.next_u64() % cols as u64) as usize;
                        // the half of the columns for inputs, as the library lays them out
                        let ix = if col < cols / 2 || cols == 1 { Index::Aux(col) } else { Index::Input(col - cols / 2) };
                        (TFr::input(&format!("m{}", n)), ix)
                    })
                    .collect()
            })
            .collect();
        let col = |i: &Index| match i {
            Index::Aux(j) => *j,
            Index::Input(j) => cols / 2 + *j,
        };
        let (rx, ry, z, co) = (xs("x", a), xs("y", b), xs("z", cols), xs("c", rows));
        let mut want = TFr::zero();
        let mut wv = vec![TFr::zero(); used];
        let mut wc = vec![TFr::zero(); cols];
        for (i, row) in mat.iter().enumerate() {
            for (v, ix) in row {
                want += *v * eqb(&rx, i) * eqb(&ry, col(ix));
                wv[i] += *v * z[col(ix)];
                wc[col(ix)] += *v * co[i];
            }
        }
        if cols == 1 {
            continue;
        }
        eqv(c, "spartan evaluate_mle: the extension of the matrix", one(guarded(|| evaluate_mle::<MP>(&mat, &rx, &ry))), &[want]);
        eqv(c, "spartan evaluate_matrix_vec: the matrix times the vector", guarded(|| evaluate_matrix_vec::<MP>(&mat, &z)), &wv);
        eqv(c, "spartan evaluate_matrix_vec_col: the transposed matrix times the vector", guarded(|| evaluate_matrix_vec_col::<MP>(&mat, &co, cols)), &wc);
        let mut u = z.clone();
        let x = TFr::input("fold");
        let got = guarded(|| {
            bound_poly_var_bot::<MP>(&mut u, x);
            u.clone()
        });
        let want: Vec<TFr> = (0..cols / 2).map(|i| (TFr::one() - x) * z[2 * i] + x * z[2 * i + 1]).collect();
        eqv(c, "spartan bound_poly_var_bot: the last variable is fixed", got, &want);
    }
}
/// sum over the vertices of the remaining variables
fn hyper(m: usize, done: &[TFr], x: TFr, f: &dyn Fn(&[TFr]) -> TFr) -> TFr {
    let left = m - done.len() - 1;
    let mut s = TFr::zero();
    for b in 0..1usize << left {
        let mut p = done.to_vec();
        p.push(x);
        for k in 0..left {
            p.push(if b >> (left - 1 - k) & 1 == 1 { TFr::one() } else { TFr::zero() });
        }
        s += f(&p);
    }
    s
}
fn libra_more(c: &mut Ctx) {
    use zkp_libra::circuit::Circuit;
    use zkp_libra::evaluate::*;
    use zkp_libra::sumcheck::SumCheckProof;
    for s in shapes(c.thorough, &[1]).iter().filter(|s| !s.consts) {
        c.set_shape(format!("libra {}", s));
        tape().reset(c.seed, Assign::new());
        let l = LCirc::make(s);
        let circ = Circuit::new(l.n_in, l.n_aux, &l.raw);
        for d in 1..circ.layers.len() {
            let (la, nx) = (&circ.layers[d], &circ.layers[d - 1]);
            let (mb, nb) = (la.bit_size, nx.bit_size);
            let (gu, gv, ru, rv) = (xs("gu", mb), xs("gv", mb), xs("ru", nb), xs("rv", nb));
            let (al, be) = (TFr::input("al"), TFr::input("be"));
            let mut w = [TFr::zero(); 2];
            for (g, &(op, a, b)) in l.raw[d - 1].iter().enumerate() {
                w[op as usize] += (al * eqb(&gu, g) + be * eqb(&gv, g)) * eqb(&ru, a) * eqb(&rv, b);
            }
            eqv(c, "libra eval_operators: the wiring predicates at the point", guarded(|| la.eval_operators::<MP>(&gu, &gv, &ru, &rv, al, be)).map(|x| vec![x.0, x.1]), &w);
            let (ge, ve) = (xs("ge", 1 << mb), xs("ve", 1 << nb));
            let n = 1usize << nb;
            let mut h = vec![vec![TFr::zero(); n]; 5];
            for (g, &(op, a, b)) in l.raw[d - 1].iter().enumerate() {
                if op == 1 {
                    h[0][a] += ge[g] * ve[b];
                    h[3][b] += ge[g] * ve[a];
                } else {
                    h[1][a] += ge[g];
                    h[2][a] += ge[g] * ve[b];
                    h[4][b] += ge[g] * ve[a];
                }
            }
            eqv(c, "libra eval_hg: the first phase tables are their defining sums", guarded(|| eval_hg::<MP>(&ge, &ve, &la.gates, nb)).map(|x| flat(vec![x.0, x.1, x.2])), &flat(h[..3].to_vec()));
            eqv(c, "libra eval_fgu: the second phase tables are their defining sums", guarded(|| eval_fgu::<MP>(&ge, &ve, &la.gates, nb)).map(|x| flat(vec![x.0, x.1])), &flat(h[3..].to_vec()));
        }
    }
    for m in 0..(if c.thorough { 6 } else { 4 }) {
        c.set_shape(format!("libra sumcheck {} variables", m));
        tape().reset(c.seed, Assign::new());
        let n = 1usize << m;
        let (f, a, b, e) = (table("f", n, 0), table("a", n, m % 2), table("b", n, 0), table("e", n, 0));
        for len in [n, n - n / 3, 1].iter() {
            let t = &f[..*len].to_vec();
            let got = guarded(|| eval_output::<MP>(t, m, &mut Transcript::new(b"o")));
            match got {
                Ok((v, rs)) => {
                    c.ob("libra eval_output: one challenge per variable", By::Ground, rs.len() == m, || String::new());
                    c.eq("libra eval_output: the extension of the outputs at the challenges", &v, &mle(t, &rs), &Assign::new());
                }
                Err(e) => {
                    c.ob("libra eval_output: one challenge per variable", By::Ground, false, || e);
                }
            }
        }
        let fu = TFr::input("fu");
        let h1 = |p: &[TFr]| mle(&f, p) * mle(&a, p) + mle(&f, p) * mle(&b, p) + mle(&e, p);
        let h2 = |p: &[TFr]| mle(&a, p) * mle(&f, p) * fu + mle(&b, p) * (fu + mle(&f, p));
        let sum = |h: &dyn Fn(&[TFr]) -> TFr| (0..n).fold(TFr::zero(), |t, i| t + h(&(0..m).map(|k| if i >> (m - 1 - k) & 1 == 1 { TFr::one() } else { TFr::zero() }).collect::<Vec<_>>()));
        for phase in 1..3 {
            let h: &dyn Fn(&[TFr]) -> TFr = if phase == 1 { &h1 } else { &h2 };
            let claim = sum(h);
            let got = guarded(|| if phase == 1 { SumCheckProof::<MP>::phase_one_prover(&f, &(a.clone(), b.clone(), e.clone()), m, claim, &mut Transcript::new(b"s")) } else { SumCheckProof::<MP>::phase_two_prover(&f, &(a.clone(), b.clone(), fu), m, claim, &mut Transcript::new(b"s")) });
            let (pf, r) = match got {
                Ok(x) => x,
                Err(e) => {
                    c.ob("libra sumcheck: one round polynomial and challenge per variable", By::Ground, false, || e);
                    continue;
                }
            };
            c.ob("libra sumcheck: one round polynomial and challenge per variable", By::Ground, pf.polys.len() == m && r.len() == m, || format!("{} {}", pf.polys.len(), r.len()));
            for (i, p) in pf.polys.iter().enumerate() {
                c.ob("libra sumcheck: round polynomials are of degree 2", By::Ground, p.coeffs.len() <= 3, || format!("{}", p.coeffs.len()));
                for x in [TFr::zero(), TFr::one(), TFr::input("probe")].iter() {
                    let v = p.coeffs.iter().rev().fold(TFr::zero(), |s, co| s * *x + *co);
                    c.eq("libra sumcheck: each round polynomial is the sum over the remaining variables", &v, &hyper(m, &r[..i], *x, h), &Assign::new());
                }
            }
            let mut want = vec![mle(&f, &r), mle(&a, &r), mle(&b, &r)];
            if phase == 1 {
                want.push(mle(&e, &r));
            }
            eqv(c, "libra sumcheck: the final values are the extensions at the challenges", Ok(pf.poly_value_at_r.clone()), &want);
        }
    }
}
fn hyrax_more(c: &mut Ctx) {
    use zkp_hyrax::circuit::Circuit;
    use zkp_hyrax::evaluate::*;
    for m in 0..6usize {
        c.set_shape(format!("hyrax bits {}", m));
        tape().reset(c.seed, Assign::new());
        for v in 0..1usize << m {
            let want: Vec<TFr> = (0..m).map(|k| if v >> (m - 1 - k) & 1 == 1 { TFr::one() } else { TFr::zero() }).collect();
            eqv(c, "hyrax convert_to_bit: the bits, most significant first", guarded(|| convert_to_bit::<MP>(v, m)), &want);
        }
    }
    for k in 0..(if c.thorough { 120u64 } else { 40 }) {
        let (n, g) = (1 + (k % 5) as usize, 1 + (k * 3 % 7) as usize);
        c.set_shape(format!("hyrax outputs of {} copies with {} outputs", n, g));
        tape().reset(c.seed, Assign::new());
        let out: Vec<Vec<TFr>> = (0..n).map(|t| xs(&format!("o{}.", t), g)).collect();
        match guarded(|| eval_outputs::<MP>(&out, &mut Transcript::new(b"o"))) {
            Ok((v, qa, q)) => {
                c.ob("hyrax eval_outputs: one challenge per variable", By::Ground, 1 << qa.len() == n.next_power_of_two() && 1 << q.len() == g.next_power_of_two(), || format!("{} {}", qa.len(), q.len()));
                let w = (0..n).fold(TFr::zero(), |t, i| t + eqb(&qa, i) * mle(&out[i], &q));
                c.eq("hyrax eval_outputs: the extension of the outputs at the challenges", &v, &w, &Assign::new());
            }
            Err(e) => {
                c.ob("hyrax eval_outputs: one challenge per variable", By::Ground, false, || e);
            }
        }
    }
    // the matrix of the sumcheck relation: row by row, the sum-check identities
    for s in shapes(c.thorough, &[2, 4]).iter().filter(|s| !s.consts) {
        tape().reset(c.seed, Assign::new());
        let l = LCirc::make(s);
        let circ = Circuit::new(l.n_in, l.n_aux, &l.raw);
        let ln0 = s.copies.trailing_zeros() as usize;
        for (d, ln) in (1..circ.layers.len()).flat_map(|d| vec![(d, ln0), (d, ln0 + 2)]) {
            let (la, nx) = (&circ.layers[d], &circ.layers[d - 1]);
            let (mb, lg) = (la.bit_size, nx.bit_size);
            if lg == 0 {
                continue;
            }
            c.set_shape(format!("hyrax {} layer {}", s, d));
            let (rs, r0, r1, qa, ql, qr) = (xs("rs", ln), xs("ra", lg), xs("rb", lg), xs("qa", ln), xs("ql", mb), xs("qr", mb));
            let u = (TFr::input("u0"), TFr::input("u1"));
            let got = match guarded(|| construct_matrix::<MP>((&rs, &r0, &r1), (&qa, &ql, &qr), &la.gates, u, ln, lg)) {
                Ok(m) => m,
                Err(e) => {
                    c.ob("hyrax construct_matrix: the rows are the sum-check relations", By::Ground, false, || e);
                    continue;
                }
            };
            // coefficient vector: cubic per copy variable (4), quadratic per gate variable (3), then
            // the claims v0 v1, their sum's parts and product
            let rounds = ln + 2 * lg;
            let ev: Vec<TFr> = rs.iter().chain(&r0).chain(&r1).copied().collect();
            let wd = |i: usize| if i < ln { 4 } else { 3 };
            let off = |i: usize| if i <= ln { 4 * i } else { 4 * ln + 3 * (i - ln) };
            let mut want = vec![vec![TFr::zero(); 4 * ln + 6 * lg + 3]; rounds + 1];
            for i in 0..rounds {
                // p_i(0) + p_i(1)
                for k in 0..wd(i) {
                    want[i][off(i) + k] = if k == 0 { TFr::from(2u64) } else { TFr::one() };
                }
                // minus the previous polynomial at its challenge, in the next row
                let mut p = -TFr::one();
                for k in 0..wd(i) {
                    want[i + 1][off(i) + k] = p;
                    p = p * ev[i];
                }
            }
            let eq0 = (0..ln).fold(TFr::one(), |a, k| a * (qa[k] * rs[k] + (TFr::one() - qa[k]) * (TFr::one() - rs[k])));
            let mut w = [TFr::zero(); 2];
            for (g, &(op, a, b)) in l.raw[d - 1].iter().enumerate() {
                w[op as usize] += eq0 * (u.0 * eqb(&ql, g) + u.1 * eqb(&qr, g)) * eqb(&r0, a) * eqb(&r1, b);
            }
            want[rounds][off(rounds)] = w[0];
            want[rounds][off(rounds) + 1] = w[0];
            want[rounds][off(rounds) + 2] = w[1];
            let dims = got.len() == want.len() && got.iter().zip(&want).all(|(x, y)| x.len() == y.len());
            c.ob("hyrax construct_matrix: dimensions", By::Ground, dims, || format!("{}", got.len()));
            if dims {
                eqv(c, "hyrax construct_matrix: the rows are the sum-check relations", Ok(flat(got)), &flat(want));
            }
        }
    }
}
pub fn p25(c: &mut Ctx) {
    libra_circuits(c);
    hyrax_circuits(c);
    libra_ext(c);
    hyrax_ext(c);
    spartan_ext(c);
    spartan_more(c);
    libra_more(c);
    hyrax_more(c);
}

//! Symbolic circuits: shape chosen by a seed, all coefficients and free witness values are
//! tape variables; each constraint's output variable is computed so that the honest
//! assignment satisfies the circuit.
use ark_ff::{Field, One, Zero};
use rand::{RngCore, SeedableRng};
use vmodel::*;
use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem, LinearCombination, SynthesisError, Variable};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum V {
    One,
    In(usize),
    Aux(usize),
}
pub type Lc = Vec<(V, TFr)>;

#[derive(Clone)]
pub struct Circ {
    pub ins: Vec<TFr>,
    pub aux: Vec<TFr>,
    pub cons: Vec<(Lc, Lc, Lc)>,
    /// build terms by this style: 0 = lc + (coeff,var); 1 = raw push (duplicates kept)
    pub known: bool,
}
#[derive(Clone, Debug)]
pub struct Shape {
    pub n_in: usize,
    pub n_aux: usize,
    pub n_con: usize,
    pub terms: usize,
    /// 0: coefficients are free variables, 1: constants in {0,1,-1,2} (zero and repeats included)
    pub small: bool,
    pub seed: u64,
}
impl std::fmt::Display for Shape {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "inputs={} aux={} constraints={} terms<={} coefs={} seed={}", self.n_in, self.n_aux, self.n_con, self.terms, if self.small { "small" } else { "free" }, self.seed)
    }
}
fn pick(r: &mut XorRng, n: usize) -> usize {
    (r.next_u64() % n as u64) as usize
}
impl Circ {
    pub fn val(&self, v: V) -> TFr {
        match v {
            V::One => TFr::one(),
            V::In(i) => self.ins[i],
            V::Aux(i) => self.aux[i],
        }
    }
    pub fn ev(&self, l: &Lc) -> TFr {
        let mut r = TFr::zero();
        for (v, c) in l {
            r += *c * self.val(*v);
        }
        r
    }
    pub fn satisfied(&self) -> bool {
        let off = tape().off;
        tape().off = true;
        let r = self.cons.iter().all(|(a, b, c)| (self.ev(a) * self.ev(b)).same(&self.ev(c)));
        tape().off = off;
        r
    }
    /// make a satisfied circuit on the current tape
    pub fn make(s: &Shape) -> Circ {
        let mut r = XorRng(s.seed * 2 + 1, 0xc1c1);
        let n_out = s.n_con.min(s.n_in + s.n_aux);
        // which variables are constraint outputs
        let mut vars: Vec<V> = (0..s.n_in).map(V::In).chain((0..s.n_aux).map(V::Aux)).collect();
        for i in (1..vars.len()).rev() {
            let j = pick(&mut r, i + 1);
            vars.swap(i, j);
        }
        let outs: Vec<V> = vars[..n_out].to_vec();
        let mut c = Circ { ins: vec![TFr::zero(); s.n_in], aux: vec![TFr::zero(); s.n_aux], cons: vec![], known: true };
        for v in &vars[n_out..] {
            match v {
                V::In(i) => c.ins[*i] = TFr::input(&format!("x{}", i)),
                V::Aux(i) => c.aux[*i] = TFr::input(&format!("w{}", i)),
                _ => {}
            }
        }
        let mut avail: Vec<V> = vars[n_out..].to_vec();
        avail.push(V::One);
        let mut nc = 0;
        let mut coef = |r: &mut XorRng| -> TFr {
            let k = r.next_u64();
            if s.small {
                match k % 5 {
                    0 => TFr::zero(),
                    1 => -TFr::one(),
                    2 => TFr::from(2u64),
                    _ => TFr::one(),
                }
            } else {
                nc += 1;
                if k % 4 == 0 {
                    TFr::one()
                } else {
                    TFr::input(&format!("c{}", nc))
                }
            }
        };
        for k in 0..s.n_con {
            let mut a: Lc = vec![];
            let mut b: Lc = vec![];
            let mut e: Lc = vec![];
            let na = 1 + pick(&mut r, s.terms);
            for _ in 0..na {
                let v = avail[pick(&mut r, avail.len())];
                a.push((v, coef(&mut r)));
            }
            let nb = 1 + pick(&mut r, s.terms);
            for _ in 0..nb {
                let v = avail[pick(&mut r, avail.len())];
                b.push((v, coef(&mut r)));
            }
            for _ in 0..pick(&mut r, s.terms) {
                let v = avail[pick(&mut r, avail.len())];
                e.push((v, coef(&mut r)));
            }
            if k < n_out {
                let o = outs[k];
                let val = c.ev(&a) * c.ev(&b) - c.ev(&e);
                e.push((o, TFr::one()));
                match o {
                    V::In(i) => c.ins[i] = val,
                    V::Aux(i) => c.aux[i] = val,
                    _ => {}
                }
                avail.push(o);
            } else {
                // no variable left: C carries the value as coefficient of one
                let val = c.ev(&a) * c.ev(&b) - c.ev(&e);
                e.push((V::One, val));
            }
            c.cons.push((a, b, e));
        }
        c
    }
    /// everything the statement fixes: coefficients and public inputs
    pub fn fixed(&self) -> Vec<TFr> {
        let mut v = self.ins.clone();
        for (a, b, c) in &self.cons {
            v.extend(a.iter().chain(b).chain(c).map(|x| x.1));
        }
        v
    }
    /// give every assigned value its own variable name (used for adversarial assignments)
    pub fn with_values(&self, ins: Vec<TFr>, aux: Vec<TFr>) -> Circ {
        let mut c = self.clone();
        c.ins = ins;
        c.aux = aux;
        c
    }
    /// assignments of the same circuit that violate it
    pub fn wrong(&self, seed: u64) -> Vec<(String, Circ)> {
        let mut v = vec![];
        for k in 0..self.ins.len() + self.aux.len() {
            let mut bad = self.clone();
            let d = TFr::cst(det_rand(seed, &format!("delta{}", k)));
            if k < self.ins.len() {
                bad.ins[k] += d
            } else {
                bad.aux[k - self.ins.len()] += d
            }
            if !bad.satisfied() {
                v.push((format!("assignment with variable {} altered", k), bad));
            }
        }
        v
    }
    /// circuits of the same size, not satisfied by the same public inputs and this assignment
    pub fn other(&self, seed: u64) -> Vec<(String, Circ)> {
        let mut v = vec![];
        for k in 0..self.cons.len() {
            for j in 0..3 {
                let mut o = self.clone();
                {
                    let l = match j {
                        0 => &mut o.cons[k].0,
                        1 => &mut o.cons[k].1,
                        _ => &mut o.cons[k].2,
                    };
                    if let Some(t) = l.last_mut() {
                        t.1 += TFr::cst(det_rand(seed, &format!("oc{}.{}", k, j)));
                    }
                }
                if !o.satisfied() {
                    v.push((format!("circuit with constraint {} part {} altered", k, j), o));
                }
            }
        }
        // keep it small
        if v.len() > 6 {
            let st = v.len() / 6 + 1;
            v = v.into_iter().enumerate().filter(|(i, _)| i % st == seed as usize % st).map(|x| x.1).collect();
        }
        v
    }
    /// same circuit without an assignment
    pub fn unknown(&self) -> Circ {
        let mut c = self.clone();
        c.known = false;
        c
    }
}
/// circuits that leave the witness many degrees of freedom
pub fn free_shapes(seed: u64) -> Vec<Shape> {
    [(1, 6, 2), (0, 7, 3), (2, 11, 4), (3, 5, 5), (0, 13, 7)].iter().enumerate().map(|(k, &(i, a, c))| Shape { n_in: i, n_aux: a, n_con: c, terms: 6, small: k % 3 == 1, seed: seed + k as u64 }).collect()
}
pub fn lc_of(l: &Lc, vars: &dyn Fn(V) -> Variable) -> LinearCombination<TFr> {
    let mut r = LinearCombination::zero();
    for (v, c) in l {
        r = r + (*c, vars(*v));
    }
    r
}
impl ConstraintSynthesizer<TFr> for Circ {
    fn generate_constraints<CS: ConstraintSystem<TFr>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let mut vi = vec![];
        let mut va = vec![];
        // interleave allocations
        let n = self.ins.len().max(self.aux.len());
        for i in 0..n {
            if i < self.aux.len() {
                let v = self.aux[i];
                let k = self.known;
                va.push(cs.alloc(|| format!("w{}", i), || if k { Ok(v) } else { Err(SynthesisError::AssignmentMissing) })?);
            }
            if i < self.ins.len() {
                let v = self.ins[i];
                let k = self.known;
                vi.push(cs.alloc_input(|| format!("x{}", i), || if k { Ok(v) } else { Err(SynthesisError::AssignmentMissing) })?);
            }
        }
        for (k, (a, b, c)) in self.cons.iter().enumerate() {
            let f = |v: V| match v {
                V::One => CS::one(),
                V::In(i) => vi[i],
                V::Aux(i) => va[i],
            };
            cs.enforce(|| format!("c{}", k), |_| lc_of(a, &f), |_| lc_of(b, &f), |_| lc_of(c, &f));
        }
        Ok(())
    }
}
pub fn inv(x: &TFr) -> TFr {
    x.inverse().unwrap_or_else(TFr::zero)
}

pub fn rng(seed: u64) -> XorRng {
    let mut s = [0u8; 16];
    // XorRng forces the lowest bit: keep different seeds apart
    s[..8].copy_from_slice(&(seed * 2 + 1).to_le_bytes());
    XorRng::from_seed(s)
}

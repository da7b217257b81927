//! Layered circuits (libra, hyrax): random wirings and the reference evaluation.
use rand::RngCore;
use vmodel::*;
#[derive(Clone, Debug)]
pub struct LShape {
    pub n_in: usize,
    pub n_aux: usize,
    /// gates per layer from the input side
    pub sizes: Vec<usize>,
    pub copies: usize,
    pub seed: u64,
    /// constants 0/1 instead of variables (completeness only)
    pub consts: bool,
}
impl std::fmt::Display for LShape {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "inputs={} aux={} layers={:?} copies={}{} seed={}", self.n_in, self.n_aux, self.sizes, self.copies, if self.consts { " constants" } else { "" }, self.seed)
    }
}
pub type Raw = Vec<Vec<(u8, usize, usize)>>;
#[derive(Clone)]
pub struct LCirc {
    pub n_in: usize,
    pub n_aux: usize,
    pub half: usize,
    pub raw: Raw,
    pub ins: Vec<Vec<TFr>>,
    pub aux: Vec<Vec<TFr>>,
}
impl LCirc {
    pub fn make(s: &LShape) -> LCirc {
        let mut r = XorRng(s.seed * 2 + 3, 0x1a7e);
        let half = s.n_in.max(s.n_aux).max(1).next_power_of_two();
        let mut prev = 2 * half;
        let mut raw = vec![];
        for (li, &n) in s.sizes.iter().enumerate() {
            let mut l = vec![];
            for g in 0..n {
                let op = match (li + s.seed as usize) % 5 {
                    3 => 0,
                    4 => 1,
                    _ => (r.next_u64() % 2) as u8,
                };
                // most wires point at real inputs of the first layer
                let mut pick = || {
                    let k = (r.next_u64() % prev as u64) as usize;
                    if li == 0 && r.next_u64() % 4 != 0 {
                        let m = (s.n_in + s.n_aux) as u64;
                        let k = (r.next_u64() % m) as usize;
                        if k < s.n_aux { k } else { half + k - s.n_aux }
                    } else {
                        k
                    }
                };
                let (a, b) = (pick(), pick());
                l.push(if li > 0 && g * 2 + 1 < prev { (op, g * 2, if r.next_u64() % 3 == 0 { b } else { g * 2 + 1 }) } else { (op, a, b) });
            }
            prev = n;
            raw.push(l);
        }
        let val = |n: String, r: &mut XorRng| if s.consts { TFr::from(r.next_u64() % 2) } else { TFr::input(&n) };
        let ins = (0..s.copies).map(|t| (0..s.n_in).map(|i| val(format!("x{}.{}", t, i), &mut r)).collect()).collect();
        let aux = (0..s.copies).map(|t| (0..s.n_aux).map(|i| val(format!("w{}.{}", t, i), &mut r)).collect()).collect();
        LCirc { n_in: s.n_in, n_aux: s.n_aux, half, raw, ins, aux }
    }
    /// the definition: witnesses padded to half the layer, then inputs padded
    pub fn layer0(&self, t: usize) -> Vec<TFr> {
        let z = TFr::cst(ark_ff::Zero::zero());
        let mut v = vec![z; 2 * self.half];
        for (i, a) in self.aux[t].iter().enumerate() {
            v[i] = *a;
        }
        for (i, a) in self.ins[t].iter().enumerate() {
            v[self.half + i] = *a;
        }
        v
    }
    pub fn values(&self, t: usize) -> Vec<Vec<TFr>> {
        let mut all = vec![self.layer0(t)];
        for l in &self.raw {
            let p = all.last().unwrap();
            let v = l.iter().map(|&(op, a, b)| if op == 0 { p[a] + p[b] } else { p[a] * p[b] }).collect();
            all.push(v);
        }
        all
    }
    pub fn outputs(&self) -> Vec<Vec<TFr>> {
        (0..self.ins.len()).map(|t| self.values(t).pop().unwrap()).collect()
    }
    /// same inputs, one gate altered so that the output changes
    pub fn other(&self, seed: u64) -> Vec<(String, LCirc)> {
        let off = tape().off;
        tape().off = true;
        let base = self.outputs();
        let mut v = vec![];
        let mut prev = 2 * self.half;
        for l in 0..self.raw.len() {
            for g in 0..self.raw[l].len() {
                for k in 0..3 {
                    let mut o = self.clone();
                    let q = &mut o.raw[l][g];
                    match k {
                        0 => q.0 = 1 - q.0,
                        1 => q.1 = (q.1 + 1) % prev,
                        _ => q.2 = (q.2 + 1) % prev,
                    }
                    let n = o.outputs();
                    if n.iter().flatten().zip(base.iter().flatten()).any(|(a, b)| !a.same(b)) {
                        v.push((format!("gate {} of layer {} altered ({})", g, l, ["operation", "left wire", "right wire"][k]), o));
                    }
                }
            }
            prev = self.raw[l].len();
        }
        tape().off = off;
        let st = v.len() / 8 + 1;
        v.into_iter().enumerate().filter(|(i, _)| i % st == seed as usize % st).map(|x| x.1).collect()
    }
    /// same circuit and inputs, other witness
    pub fn wrong(&self, seed: u64) -> Vec<(String, LCirc)> {
        let mut v = vec![];
        for t in 0..self.aux.len() {
            for i in 0..self.aux[t].len() {
                let mut o = self.clone();
                let off = tape().off;
                tape().off = true;
                let base = self.outputs();
                o.aux[t][i] += TFr::cst(det_rand(seed, &format!("dw{}", i)));
                let n = o.outputs();
                tape().off = off;
                if n.iter().flatten().zip(base.iter().flatten()).any(|(a, b)| !a.same(b)) {
                    v.push((format!("witness {} of copy {} altered", i, t), o));
                }
            }
        }
        v.truncate(5);
        v
    }
}
pub fn shapes(thorough: bool, copies: &[usize]) -> Vec<LShape> {
    let mut v = vec![];
    let base: &[(usize, usize, &[usize])] = &[(2, 2, &[2, 1]), (4, 4, &[4, 2]), (1, 3, &[4, 4]), (3, 1, &[8, 2, 2]), (2, 4, &[2, 8, 1]), (8, 8, &[8, 4, 4])];
    for (i, (n_in, n_aux, sz)) in base.iter().enumerate() {
        v.push(LShape { n_in: *n_in, n_aux: *n_aux, sizes: sz.to_vec(), copies: copies[i % copies.len()], seed: 11 + i as u64, consts: false });
    }
    v.push(LShape { n_in: 2, n_aux: 2, sizes: vec![4, 2], copies: copies[0], seed: 31, consts: true });
    v.push(LShape { n_in: 4, n_aux: 3, sizes: vec![4, 2, 2], copies: copies[0], seed: 32, consts: true });
    if thorough {
        for k in 0..10u64 {
            let mut r = XorRng(k + 900, 77);
            let d = 2 + (r.next_u64() % 3) as usize;
            v.push(LShape {
                n_in: 1 + (r.next_u64() % 6) as usize,
                n_aux: 1 + (r.next_u64() % 9) as usize,
                sizes: (0..d).map(|_| 1usize << (r.next_u64() % 4)).collect(),
                copies: copies[k as usize % copies.len()],
                seed: 500 + k,
                consts: k % 5 == 4,
            });
        }
    }
    v
}

//! Expression tape: every arithmetic operation performed by the code under
//! verification on model field elements appends a node.  The tape is the source of the
//! verification conditions: a run of the real code yields, for every output and for every
//! branch condition, a term over the input variables.
use ark_bls12_381::Fr;
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use std::collections::HashMap;
use std::sync::{Mutex, MutexGuard};

pub type Id = u32; // 0 = constant

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum VarKind {
    Input,
    Coin,
    Gen,
    Challenge,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Arg {
    pub id: Id,
    pub v: Fr,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Var(u32),
    Add,
    Sub,
    Mul,
    Inv,
}

#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub op: Op,
    pub a: Arg,
    pub b: Arg,
    pub val: Fr,
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub kind: VarKind,
    pub id: Id,
}

#[derive(Clone, Copy, Debug)]
pub struct Cond {
    pub a: Arg,
    pub b: Arg,
    pub eq: bool,
}

#[derive(Default)]
pub struct Tape {
    pub nodes: Vec<Node>,
    pub vars: Vec<VarInfo>,
    pub conds: Vec<Cond>,
    pub by_val: HashMap<[u64; 4], Id>,
    hc: HashMap<(Op, Id, [u64; 4], Id, [u64; 4]), Id>,
    pub assign: HashMap<String, Fr>,
    pub seed: u64,
    pub coin: u64,
    pub chal: u64,
    pub off: bool,
    pub force_zero_ok: bool,
    /// multi-scalar multiplications that dropped a non-zero scalar / repeated a base
    pub msm_short: u32,
    pub msm_twice: u32,
}

static TAPE: std::sync::LazyLock<Mutex<Tape>> = std::sync::LazyLock::new(|| Mutex::new(Tape::default()));

impl Tape {
    pub fn reset(&mut self, seed: u64, assign: HashMap<String, Fr>) {
        self.nodes.clear();
        self.vars.clear();
        self.conds.clear();
        self.by_val.clear();
        self.hc.clear();
        self.assign = assign;
        self.seed = seed;
        self.coin = 0;
        self.chal = 0;
        self.off = false;
        self.msm_short = 0;
        self.msm_twice = 0;
        self.nodes.push(Node {
            op: Op::Var(u32::MAX),
            a: zero_arg(),
            b: zero_arg(),
            val: Fr::zero(),
        });
    }
    pub fn push(&mut self, op: Op, a: Arg, b: Arg, val: Fr) -> Id {
        if self.off {
            return 0;
        }
        if self.nodes.is_empty() {
            self.reset(0, HashMap::new());
        }
        let ka = if a.id == 0 { a.v.into_repr().0 } else { [0; 4] };
        let kb = if b.id == 0 { b.v.into_repr().0 } else { [0; 4] };
        let (a, b, ka, kb) = match op {
            Op::Add | Op::Mul if (b.id, kb) < (a.id, ka) => (b, a, kb, ka),
            _ => (a, b, ka, kb),
        };
        if let Op::Var(_) = op {
        } else if let Some(&id) = self.hc.get(&(op, a.id, ka, b.id, kb)) {
            return id;
        }
        let id = self.nodes.len() as Id;
        self.nodes.push(Node { op, a, b, val });
        if let Op::Var(_) = op {
        } else {
            self.hc.insert((op, a.id, ka, b.id, kb), id);
        }
        id
    }
    /// create (or fetch the assigned value of) a variable
    pub fn new_var(&mut self, name: String, kind: VarKind, default: Fr) -> Arg {
        if self.off {
            return Arg { id: 0, v: default };
        }
        let v = *self.assign.get(&name).unwrap_or(&default);
        let n = self.vars.len() as u32;
        let id = self.push(Op::Var(n), zero_arg(), zero_arg(), v);
        self.vars.push(VarInfo { name, kind, id });
        // variables take precedence in the value map
        let k = v.into_repr().0;
        if !small(&k) {
            self.by_val.insert(k, id);
        }
        Arg { id, v }
    }
    pub fn register(&mut self, a: Arg) {
        if a.id != 0 {
            let k = a.v.into_repr().0;
            if !small(&k) {
                self.by_val.entry(k).or_insert(a.id);
            }
        }
    }
    pub fn lookup(&self, k: &[u64; 4]) -> Id {
        if small(k) {
            return 0;
        }
        *self.by_val.get(k).unwrap_or(&0)
    }
}

/// values below 2^64 (or close to the modulus) are never treated as traced
pub fn small(k: &[u64; 4]) -> bool {
    (k[1] == 0 && k[2] == 0 && k[3] == 0) || k[3] == 0x73eda753299d7d48
}

pub fn zero_arg() -> Arg {
    Arg {
        id: 0,
        v: Fr::zero(),
    }
}

pub fn tape() -> MutexGuard<'static, Tape> {
    match TAPE.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

/// Evaluate a set of nodes under a new variable valuation.
pub struct Eval<'a> {
    pub t: &'a Tape,
    pub vals: Vec<Option<Fr>>,
    pub var: Box<dyn Fn(u32) -> Fr + 'a>,
    pub undefined: bool,
}

impl<'a> Eval<'a> {
    pub fn new(t: &'a Tape, var: Box<dyn Fn(u32) -> Fr + 'a>) -> Self {
        Eval {
            t,
            vals: vec![None; t.nodes.len()],
            var,
            undefined: false,
        }
    }
    pub fn arg(&mut self, a: &Arg) -> Fr {
        if a.id == 0 {
            return a.v;
        }
        let mut stack = vec![a.id];
        while let Some(&id) = stack.last() {
            if self.vals[id as usize].is_some() {
                stack.pop();
                continue;
            }
            let n = self.t.nodes[id as usize];
            if let Op::Var(k) = n.op {
                self.vals[id as usize] = Some((self.var)(k));
                stack.pop();
                continue;
            }
            let va = if n.a.id == 0 { Some(n.a.v) } else { self.vals[n.a.id as usize] };
            let vb = if n.b.id == 0 { Some(n.b.v) } else { self.vals[n.b.id as usize] };
            match (va, vb) {
                (Some(x), Some(y)) => {
                    let r = match n.op {
                        Op::Add => x + y,
                        Op::Sub => x - y,
                        Op::Mul => x * y,
                        Op::Inv => match x.inverse() {
                            Some(i) => i,
                            None => {
                                self.undefined = true;
                                Fr::zero()
                            }
                        },
                        Op::Var(_) => unreachable!(),
                    };
                    self.vals[id as usize] = Some(r);
                    stack.pop();
                }
                (x, y) => {
                    if x.is_none() {
                        stack.push(n.a.id);
                    }
                    if y.is_none() {
                        stack.push(n.b.id);
                    }
                }
            }
        }
        self.vals[a.id as usize].unwrap()
    }
}

/// variables occurring in a term
pub fn support(t: &Tape, args: &[Arg]) -> Vec<u32> {
    let mut seen = vec![false; t.nodes.len()];
    let mut out = vec![];
    let mut st: Vec<Id> = args.iter().map(|a| a.id).filter(|i| *i != 0).collect();
    while let Some(i) = st.pop() {
        if seen[i as usize] {
            continue;
        }
        seen[i as usize] = true;
        let n = &t.nodes[i as usize];
        if let Op::Var(k) = n.op {
            out.push(k);
        } else {
            if n.a.id != 0 {
                st.push(n.a.id);
            }
            if n.b.id != 0 {
                st.push(n.b.id);
            }
        }
    }
    out.sort();
    out
}

/// reverse-mode derivative of `a` with respect to every variable, at the current point
pub fn gradient(t: &Tape, a: &Arg) -> HashMap<u32, Fr> {
    let mut g = HashMap::new();
    if a.id == 0 {
        return g;
    }
    let mut adj: Vec<Fr> = vec![Fr::zero(); a.id as usize + 1];
    adj[a.id as usize] = Fr::one();
    for i in (1..=a.id as usize).rev() {
        if adj[i].is_zero() {
            continue;
        }
        let w = adj[i];
        let n = &t.nodes[i];
        match n.op {
            Op::Var(k) => {
                *g.entry(k).or_insert_with(Fr::zero) += w;
            }
            Op::Add => {
                if n.a.id != 0 {
                    adj[n.a.id as usize] += w;
                }
                if n.b.id != 0 {
                    adj[n.b.id as usize] += w;
                }
            }
            Op::Sub => {
                if n.a.id != 0 {
                    adj[n.a.id as usize] += w;
                }
                if n.b.id != 0 {
                    adj[n.b.id as usize] -= w;
                }
            }
            Op::Mul => {
                if n.a.id != 0 {
                    adj[n.a.id as usize] += w * val(t, &n.b);
                }
                if n.b.id != 0 {
                    adj[n.b.id as usize] += w * val(t, &n.a);
                }
            }
            Op::Inv => {
                if n.a.id != 0 {
                    adj[n.a.id as usize] -= w * n.val * n.val;
                }
            }
        }
    }
    g
}

pub fn val(t: &Tape, a: &Arg) -> Fr {
    if a.id == 0 {
        a.v
    } else {
        t.nodes[a.id as usize].val
    }
}

/// rank of a dense matrix over Fr
pub fn rank(mut m: Vec<Vec<Fr>>) -> usize {
    let rows = m.len();
    if rows == 0 {
        return 0;
    }
    let cols = m[0].len();
    let mut r = 0;
    for c in 0..cols {
        let p = match (r..rows).find(|&i| !m[i][c].is_zero()) {
            Some(p) => p,
            None => continue,
        };
        m.swap(r, p);
        let inv = m[r][c].inverse().unwrap();
        for i in (r + 1)..rows {
            if m[i][c].is_zero() {
                continue;
            }
            let f = m[i][c] * inv;
            for k in c..cols {
                let t = m[r][k] * f;
                m[i][k] -= t;
            }
        }
        r += 1;
        if r == rows {
            break;
        }
    }
    r
}

pub fn det_rand(seed: u64, name: &str) -> Fr {
    use rand::SeedableRng;
    let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    for b in name.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut s = [0u8; 16];
    s[..8].copy_from_slice(&h.to_le_bytes());
    s[8..].copy_from_slice(&(h.rotate_left(31) ^ seed ^ 0x5bd1e995).to_le_bytes());
    if s.iter().all(|x| *x == 0) {
        s[0] = 1;
    }
    let mut r = XorRng(u64::from_le_bytes([s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]]) | 1, u64::from_le_bytes([s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15]]));
    let _ = XorRng::from_seed([1; 16]);
    Fr::rand(&mut r)
}

/// small deterministic generator
#[derive(Clone)]
pub struct XorRng(pub u64, pub u64);
impl rand::SeedableRng for XorRng {
    type Seed = [u8; 16];
    fn from_seed(s: [u8; 16]) -> Self {
        let mut a = [0u8; 8];
        a.copy_from_slice(&s[..8]);
        let mut b = [0u8; 8];
        b.copy_from_slice(&s[8..]);
        XorRng(u64::from_le_bytes(a) | 1, u64::from_le_bytes(b))
    }
}
impl rand::RngCore for XorRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        // splitmix on a 128 bit state
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0 ^ self.1.rotate_left(17);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        self.1 = self.1.wrapping_add(z | 1);
        z ^ (z >> 31)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        rand_core::impls::fill_bytes_via_next(self, d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl rand::CryptoRng for XorRng {}

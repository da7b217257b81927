//! P05 SHA-256 and BLAKE2s, P09 algebraic hashes, P10 Merkle trees.
use crate::csolve::*;
use crate::ctx::*;
use crate::gadgets::{bvar, determined, f, sat, srng, Kind};
use crate::rec::Rec;
use ark_bls12_381::Fr;
use ark_ff::{BigInteger, Field, One, PrimeField, Zero};
use ark_ff::ToBytes;
use rand::{Rng, RngCore};
use vmodel::*;
use zkp_gadgets::algebra::boolean::*;
use zkp_gadgets::hashes::abstract_hash::{AbstractHash, AbstractHashOutput};
use zkp_gadgets::hashes::{blake2s::blake2s, mimc, poseidon, rescue, sha256};
use zkp_gadgets::merkletree::cbmt::{MerkleProof, Merge, TreeIndex, CBMT};
use zkp_gadgets::merkletree::cbmt_constraints::MerkleProofGadget;
use zkp_r1cs::{ConstraintSystem, SynthesisError, Variable};

type R = Rec<Fr>;

// ---------------------------------------------------------------- P05
fn bits_of(bytes: &[u8], be: bool) -> Vec<bool> {
    bytes.iter().flat_map(|b| (0..8).map(move |i| (b >> if be { 7 - i } else { i }) & 1 == 1)).collect()
}
fn out_bits(r: &R, o: &[Boolean]) -> Vec<bool> {
    o.iter()
        .map(|b| match b {
            Boolean::Constant(c) => *c,
            Boolean::Is(v) => r.val(v.get_variable()).is_one(),
            Boolean::Not(v) => r.val(v.get_variable()).is_zero(),
        })
        .collect()
}
/// FIPS 180-4, one block from the initial state
fn sha_block(block: &[u8]) -> Vec<u8> {
    fn frac(x: u64, root: u32) -> u32 {
        // first 32 bits of the fractional part of the square or cube root of x
        let x = num_bigint::BigUint::from(x) << (32 * root as usize);
        let r = if root == 2 { x.sqrt() } else { x.cbrt() };
        let d = r.to_u32_digits();
        d[0]
    }
    let primes: Vec<u64> = (2u64..).filter(|p| (2..*p).all(|d| p % d != 0)).take(64).collect();
    let mut h: Vec<u32> = primes.iter().take(8).map(|p| frac(*p, 2)).collect();
    let k: Vec<u32> = primes.iter().map(|p| frac(*p, 3)).collect();
    let mut w: Vec<u32> = block.chunks(4).map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect();
    for i in 16..64 {
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
    }
    let iv = h.clone();
    for i in 0..64 {
        let s1 = h[4].rotate_right(6) ^ h[4].rotate_right(11) ^ h[4].rotate_right(25);
        let ch = (h[4] & h[5]) ^ (!h[4] & h[6]);
        let t1 = h[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
        let s0 = h[0].rotate_right(2) ^ h[0].rotate_right(13) ^ h[0].rotate_right(22);
        let maj = (h[0] & h[1]) ^ (h[0] & h[2]) ^ (h[1] & h[2]);
        let t2 = s0.wrapping_add(maj);
        h = vec![t1.wrapping_add(t2), h[0], h[1], h[2], h[3].wrapping_add(t1), h[4], h[5], h[6]];
    }
    h.iter().zip(&iv).flat_map(|(a, b)| a.wrapping_add(*b).to_be_bytes().to_vec()).collect()
}
#[derive(Clone, Copy, PartialEq)]
enum Mix {
    Constant,
    Allocated,
    Mixed,
    Halves,
}
fn message(r: &mut R, bits: &[bool], mix: Mix, g: &mut rand::rngs::StdRng) -> Vec<Boolean> {
    bits.iter()
        .enumerate()
        .map(|(i, b)| {
            let k = match mix {
                Mix::Constant => Kind::C(*b),
                Mix::Allocated => Kind::Is(*b),
                Mix::Mixed => match g.next_u32() % 3 {
                    0 => Kind::C(*b),
                    1 => Kind::Is(*b),
                    _ => Kind::Not(!*b),
                },
                Mix::Halves => if i % 64 < 32 { Kind::C(*b) } else { Kind::Is(*b) },
            };
            k.mk(r)
        })
        .collect()
}
fn content(n: usize, k: usize, g: &mut rand::rngs::StdRng) -> Vec<u8> {
    match k {
        0 => (0..n).map(|_| g.next_u32() as u8).collect(),
        1 => vec![0; n],
        2 => vec![0xff; n],
        _ => (0..n).map(|i| (i as u8).wrapping_mul(37) ^ (g.next_u32() as u8 & 0x80)).collect(),
    }
}
fn digest_case(
    c: &mut Ctx,
    name: &str,
    msg: &[u8],
    be: bool,
    mix: Mix,
    det: bool,
    want: &[u8],
    seed: u64,
    hash: &dyn Fn(&mut R, &[Boolean]) -> Result<Vec<Boolean>, SynthesisError>,
) {
    let what = format!("{} of {} bytes {:02x?}", name, msg.len(), &msg[..msg.len().min(8)]);
    let run = |sh: bool| {
        let mut g = srng(seed);
        let mut r = if sh { R::shape() } else { R::new() };
        let m = message(&mut r, &bits_of(msg, be), mix, &mut g);
        let o = hash(&mut r, &m);
        (r, m, o)
    };
    let x = match guarded(|| run(false)) {
        Ok(x) => x,
        Err(e) => { c.ob(&format!("{}: accepts every whole number of bytes", name), By::Ground, false, || format!("{}: {}", what, e)); return; }
    };
    let (r, m, o) = x;
    let o = match o {
        Ok(o) => o,
        Err(e) => { c.ob(&format!("{}: accepts every whole number of bytes", name), By::Ground, false, || format!("{}: {:?}", what, e)); return; }
    };
    c.ob(&format!("{}: accepts every whole number of bytes", name), By::Ground, true, || String::new());
    let want = bits_of(want, be);
    let got = out_bits(&r, &o);
    c.ob(&format!("{}: output is the standard digest", name), By::Ground, got == want, || format!("{}: first differing bit {:?}", what, got.iter().zip(&want).position(|(a, b)| a != b)));
    let vals: Option<Vec<bool>> = o.iter().map(|b| b.get_value()).collect();
    c.ob(&format!("{}: carried values are the digest", name), By::Ground, vals.as_ref() == Some(&want), || what.clone());
    sat(c, &format!("{}: honest witness satisfies the constraints", name), &r, &what);
    c.ob(&format!("{}: namespaces are balanced", name), By::Ground, r.depth == 0, || what.clone());
    if det {
        let fixed: Vec<Variable> = m.iter().filter_map(bvar).collect();
        let tg: Vec<Variable> = o.iter().filter_map(bvar).collect();
        determined(c, &format!("{}: the constraints determine the digest", name), &r, &fixed, &tg, &what);
        if let Ok((s, _, Ok(_))) = guarded(|| run(true)) {
            c.ob(&format!("{}: the constraints do not depend on the message", name), By::Ground, s.same_shape(&r), || what.clone());
        }
    }
}
pub fn p05(c: &mut Ctx) {
    use sha2::Digest;
    let mut g = srng(c.seed ^ 0x55);
    // every length without variables: all paddings up to three blocks
    let top = if c.thorough { 700 } else { 200 };
    for n in 0..top {
        c.set_shape("constant message, every length");
        let m = content(n, n % 4, &mut g);
        let d = sha2::Sha256::digest(&m);
        digest_case(c, "sha256", &m, true, Mix::Constant, false, &d, c.seed, &|r, b| sha256::sha256(r, b));
        let p = content(8, (n + 1) % 4, &mut g);
        let d = blake2s_simd::Params::new().hash_length(32).personal(&p).hash(&m);
        digest_case(c, "blake2s", &m, false, Mix::Constant, false, d.as_bytes(), c.seed, &|r, b| blake2s(r, b, &p));
    }
    let lens: Vec<usize> = if c.thorough {
        vec![0, 1, 2, 3, 4, 8, 31, 32, 33, 54, 55, 56, 57, 63, 64, 65, 111, 112, 118, 119, 120, 121, 127, 128, 129, 183, 184, 191, 192, 193, 255, 256, 257]
    } else {
        vec![1, 3, 32, 55, 56, 63, 64, 65, 119, 120, 128]
    };
    for (k, n) in lens.iter().enumerate() {
        for (j, mix) in [Mix::Allocated, Mix::Mixed, Mix::Halves].iter().enumerate() {
            c.set_shape(format!("{} bytes, {}", n, ["allocated", "mixed", "alternating words"][j]));
            let reps = if c.thorough { 3 } else { 1 };
            for rep in 0..reps {
                let m = content(*n, (k + j + rep) % 4, &mut g);
                let seed = g.next_u64();
                let det = c.thorough || *n <= 65;
                let d = sha2::Sha256::digest(&m);
                digest_case(c, "sha256", &m, true, *mix, det, &d, seed, &|r, b| sha256::sha256(r, b));
                let p = content(8, rep, &mut g);
                let d = blake2s_simd::Params::new().hash_length(32).personal(&p).hash(&m);
                digest_case(c, "blake2s", &m, false, *mix, det, d.as_bytes(), seed, &|r, b| blake2s(r, b, &p));
            }
        }
    }
    c.set_shape("one block without padding");
    for k in 0..(if c.thorough { 40 } else { 6 }) {
        let m = content(64, k % 4, &mut g);
        let d = sha_block(&m);
        let mix = [Mix::Constant, Mix::Mixed, Mix::Allocated][k % 3];
        digest_case(c, "sha256_block_no_padding", &m, true, mix, k == 1, &d, g.next_u64(), &|r, b| sha256::sha256_block_no_padding(r, b));
    }
    // the oracle itself: a padded short message is one block
    let mut p = b"abc".to_vec();
    p.push(0x80);
    p.resize(63, 0);
    p.push(24);
    c.ob("reference block function agrees with the sha2 crate", By::Ground, sha_block(&p)[..] == sha2::Sha256::digest(b"abc")[..], || String::new());
    // hash_enforce over 256-bit outputs
    c.set_shape("hash_enforce of digests");
    for n in 1..=(if c.thorough { 4 } else { 2 }) {
        let ms: Vec<Vec<u8>> = (0..n).map(|k| content(32, k % 4, &mut g)).collect();
        let want = sha2::Sha256::digest(&ms.concat()).to_vec();
        let what = format!("{} parameters", n);
        let x = guarded(|| {
            let mut r = R::new();
            let ps: Vec<_> = ms.iter().enumerate().map(|(i, m)| {
                if i % 2 == 0 { sha256::AbstractHashSha256Output::alloc(&mut r, m.clone()).unwrap() } else { sha256::AbstractHashSha256Output::alloc_input(&mut r, m.clone()).unwrap() }
            }).collect();
            let o = sha256::AbstractHashSha256::<Fr>::hash_enforce(&mut r, &ps.iter().collect::<Vec<_>>()).map_err(|e| format!("{:?}", e))?;
            Ok::<_, String>((r, ps, o))
        });
        match x {
            Ok(Ok((r, ps, o))) => {
                let pv: Vec<Variable> = ps.iter().flat_map(|p| AbstractHashOutput::<Fr>::get_variables(p)).collect();
                let vars = AbstractHashOutput::<Fr>::get_variables(&o);
                let vals: Vec<Option<Fr>> = o.get_variable_values();
                let want: Vec<Fr> = bits_of(&want, true).iter().map(|b| f(*b as u64)).collect();
                let inp: Vec<Fr> = bits_of(&ms.concat(), true).iter().map(|b| f(*b as u64)).collect();
                c.ob("hash_enforce: parameters carry their bits", By::Ground, pv.iter().map(|v| r.val(*v)).collect::<Vec<_>>() == inp, || what.clone());
                c.ob("hash_enforce: output variables hold the digest", By::Ground, vars.iter().map(|v| r.val(*v)).collect::<Vec<_>>() == want, || what.clone());
                c.ob("hash_enforce: output values are the digest", By::Ground, vals.iter().cloned().collect::<Option<Vec<Fr>>>() == Some(want), || what.clone());
                sat(c, "hash_enforce: honest witness satisfies the constraints", &r, &what);
                determined(c, "hash_enforce: the constraints determine the output", &r, &pv, &vars, &what);
                let b = Sys::of(&r).booleans();
                c.ob("hash_enforce: every parameter bit is boolean", By::Det, pv.iter().all(|v| b[r.num(*v)]), || what.clone());
            }
            Ok(Err(e)) | Err(e) => { c.ob("hash_enforce: accepts digests", By::Ground, false, || format!("{}: {}", what, e)); }
        }
    }
}

// ---------------------------------------------------------------- P09
fn ser(x: &Fr) -> Vec<u8> {
    let mut v = vec![];
    x.into_repr().write(&mut v).unwrap();
    v
}
fn sers(x: &[Fr]) -> Vec<u8> {
    x.iter().flat_map(ser).collect()
}
trait Alg {
    const NAME: &'static str;
    type O: AbstractHashOutput<Fr>;
    type H: AbstractHash<Fr, Output = Self::O>;
    fn native(b: &[u8]) -> Fr;
    /// one compression, by the published constants
    fn block(xl: Fr, xr: Fr) -> Fr;
    /// the preimage circuit: value it returns
    fn circuit(cs: &mut R, b: &[u8]) -> Result<Option<Fr>, SynthesisError>;
    fn param(cs: &mut R, f: Option<Fr>) -> Result<Self::O, SynthesisError>;
}
struct Mi;
impl Alg for Mi {
    const NAME: &'static str = "mimc";
    type O = mimc::AbstractHashMimcOutput<Fr>;
    type H = mimc::AbstractHashMimc<Fr>;
    fn native(b: &[u8]) -> Fr {
        mimc::hash(b)
    }
    fn block(mut xl: Fr, mut xr: Fr) -> Fr {
        for k in mimc::constants::<Fr>().iter() {
            let t = xl + *k;
            let n = xr + t * t * t;
            xr = xl;
            xl = n;
        }
        xl
    }
    fn circuit(cs: &mut R, b: &[u8]) -> Result<Option<Fr>, SynthesisError> {
        mimc::mimc(cs, Some(b))
    }
    fn param(cs: &mut R, f: Option<Fr>) -> Result<Self::O, SynthesisError> {
        mimc::AbstractHashMimcOutput::alloc(cs, f)
    }
}
struct Po;
impl Alg for Po {
    const NAME: &'static str = "poseidon";
    type O = poseidon::AbstractHashPoseidonOutput<Fr>;
    type H = poseidon::AbstractHashPoseidon<Fr>;
    fn native(b: &[u8]) -> Fr {
        poseidon::hash(b)
    }
    fn block(xl: Fr, xr: Fr) -> Fr {
        poseidon::poseidon_block(xl, xr, &poseidon::constants())
    }
    fn circuit(cs: &mut R, b: &[u8]) -> Result<Option<Fr>, SynthesisError> {
        poseidon::poseidon(cs, b).map(Some)
    }
    fn param(cs: &mut R, f: Option<Fr>) -> Result<Self::O, SynthesisError> {
        poseidon::AbstractHashPoseidonOutput::alloc(cs, f)
    }
}
struct Re;
impl Alg for Re {
    const NAME: &'static str = "rescue";
    type O = rescue::AbstractHashRescueOutput<Fr>;
    type H = rescue::AbstractHashRescue<Fr>;
    fn native(b: &[u8]) -> Fr {
        rescue::hash(b)
    }
    fn block(xl: Fr, xr: Fr) -> Fr {
        rescue::rescue_block(xl, xr, &rescue::constants())
    }
    fn circuit(cs: &mut R, b: &[u8]) -> Result<Option<Fr>, SynthesisError> {
        rescue::rescue(cs, b).map(Some)
    }
    fn param(cs: &mut R, f: Option<Fr>) -> Result<Self::O, SynthesisError> {
        rescue::AbstractHashRescueOutput::alloc(cs, f)
    }
}
fn fld(g: &mut rand::rngs::StdRng) -> Fr {
    match g.next_u32() % 6 {
        0 => Fr::zero(),
        1 => Fr::one(),
        2 => -Fr::one(),
        3 => f(g.next_u64()),
        _ => {
            let b: Vec<u8> = (0..64).map(|_| g.next_u32() as u8).collect();
            Fr::from_le_bytes_mod_order(&b)
        }
    }
}
fn alg<A: Alg>(c: &mut Ctx) {
    let mut g = srng(c.seed ^ 0x99);
    let nm = |s: &str| format!("{}: {}", A::NAME, s);
    for round in 0..(if c.thorough { 60 } else { 8 }) {
        if c.late() {
            c.note(format!("{}: stopped after {} rounds", A::NAME, round));
            break;
        }
        let n = 1 + round % 6;
        c.set_shape(format!("{} elements", n));
        let xs: Vec<Fr> = (0..n).map(|i| if round == 1 { Fr::zero() } else if round == 2 { f(3) } else { let _ = i; fld(&mut g) }).collect();
        let b = sers(&xs);
        let what = format!("{} of {} elements", A::NAME, n);
        let native = match guarded(|| A::native(&b)) {
            Ok(x) => x,
            Err(e) => {
                c.ob(&nm("native hash is defined on every non-empty input"), By::Ground, false, || format!("{}: {}", what, e));
                continue;
            }
        };
        c.ob(&nm("native hash is defined on every non-empty input"), By::Ground, true, || String::new());
        // chaining of the native hash
        let mut h = Fr::zero();
        let mut xl = Fr::zero();
        for x in &xs {
            xl = h;
            h = A::block(h, *x);
        }
        c.ob(&nm("native hash chains the block function"), By::Ground, native == h, || what.clone());
        // bytes that are not a whole number of elements, or not canonical
        let mut odd = b.clone();
        for _ in 0..(round % 3) {
            odd.push(g.next_u32() as u8);
        }
        if round % 4 == 3 {
            let l = odd.len().min(32);
            for x in odd[l - 8..l].iter_mut() {
                *x = 0xff;
            }
        }
        for bytes in [b.clone(), odd].iter() {
            let what = format!("{} of {} bytes", A::NAME, bytes.len());
            let x = guarded(|| {
                let want = A::native(bytes);
                let mut r = R::new();
                let v = A::circuit(&mut r, bytes).map_err(|e| format!("{:?}", e))?;
                Ok::<_, String>((want, r, v))
            });
            let (want, r, v) = match x {
                Ok(Ok(x)) => x,
                Ok(Err(e)) | Err(e) => {
                    c.ob(&nm("circuit is defined on every non-empty input"), By::Ground, false, || format!("{}: {}", what, e));
                    continue;
                }
            };
            c.ob(&nm("circuit is defined on every non-empty input"), By::Ground, true, || String::new());
            c.ob(&nm("circuit value equals the native hash"), By::Ground, v == Some(want), || what.clone());
            sat(c, &nm("honest witness satisfies the constraints"), &r, &what);
            let held = r.ins.iter().chain(r.aux.iter()).any(|x| *x == want);
            c.ob(&nm("a variable of the circuit holds the image"), By::Ground, held, || what.clone());
            for i in 1..r.ins.len() {
                c.ob(&nm("public inputs are the image"), By::Ground, r.ins[i] == want, || what.clone());
            }
            if *bytes == b {
                // with the preimage (chaining value and last element) fixed, everything is determined
                let find = |x: Fr| (0..r.aux.len()).find(|i| r.aux[*i] == x);
                let (a, d) = match (find(xl), xs.last().and_then(|x| if *x == xl { (0..r.aux.len()).filter(|i| r.aux[*i] == *x).nth(1) } else { find(*x) })) {
                    (Some(a), Some(d)) => (a, d),
                    _ => {
                        c.note(format!("{}: preimage variables not identified", what));
                        continue;
                    }
                };
                let var = |i: usize| Variable::new_unchecked(zkp_r1cs::Index::Aux(i));
                let all: Vec<Variable> = (0..r.aux.len()).map(var).chain((1..r.ins.len()).map(|i| Variable::new_unchecked(zkp_r1cs::Index::Input(i)))).collect();
                determined(c, &nm("the constraints determine every value from the preimage"), &r, &[var(a), var(d)], &all, &what);
            }
        }
        // the shape does not depend on the values
        // hash_enforce
        let x = guarded(|| {
            let mut r = R::new();
            let ps: Vec<A::O> = xs.iter().map(|x| A::param(&mut r, Some(*x)).unwrap()).collect();
            let o = A::H::hash_enforce(&mut r, &ps.iter().collect::<Vec<_>>()).map_err(|e| format!("{:?}", e))?;
            Ok::<_, String>((r, ps, o))
        });
        match x {
            Ok(Ok((r, ps, o))) => {
                let pv: Vec<Variable> = ps.iter().flat_map(|p| p.get_variables()).collect();
                let ov = o.get_variables();
                c.ob(&nm("hash_enforce: parameters carry their values"), By::Ground, pv.iter().map(|v| r.val(*v)).collect::<Vec<_>>() == xs, || what.clone());
                c.ob(&nm("hash_enforce: output variable holds the native hash"), By::Ground, ov.len() == 1 && r.val(ov[0]) == native, || what.clone());
                c.ob(&nm("hash_enforce: output value is the native hash"), By::Ground, o.get_variable_values() == vec![Some(native)], || what.clone());
                sat(c, &nm("hash_enforce: honest witness satisfies the constraints"), &r, &what);
                determined(c, &nm("hash_enforce: the constraints determine the output"), &r, &pv, &ov, &what);
            }
            Ok(Err(e)) | Err(e) => { c.ob(&nm("hash_enforce: accepts values"), By::Ground, false, || format!("{}: {}", what, e)); }
        }
    }
}
pub fn p09(c: &mut Ctx) {
    alg::<Mi>(c);
    alg::<Po>(c);
    alg::<Re>(c);
    // mimc without an assignment has the same shape
    c.set_shape("mimc without assignment");
    let mut r = R::new();
    let _ = mimc::mimc(&mut r, Some(&sers(&[f(1), f(2)])));
    let mut s = R::shape();
    let x = guarded(|| mimc::mimc(&mut s, None).map(|v| v.is_none()).unwrap_or(false));
    c.ob("mimc: the constraints do not depend on the preimage", By::Ground, x == Ok(true) && s.same_shape(&r), || format!("{:?}", x));
}

// ---------------------------------------------------------------- P10
struct Free;
impl Merge for Free {
    type Item = String;
    fn merge(l: &String, r: &String) -> String {
        format!("({} {})", l, r)
    }
}
struct Mul;
fn mix(l: Fr, r: Fr) -> Fr {
    (l + f(3)) * (l + r + f(11)) + r
}
impl Merge for Mul {
    type Item = Fr;
    fn merge(l: &Fr, r: &Fr) -> Fr {
        mix(*l, *r)
    }
}
/// a hash gadget with `W` variables per value
#[derive(Clone)]
struct Out {
    v: Vec<Fr>,
    x: Vec<Variable>,
}
impl AbstractHashOutput<Fr> for Out {
    fn get_variables(&self) -> Vec<Variable> {
        self.x.clone()
    }
    fn get_variable_values(&self) -> Vec<Option<Fr>> {
        self.v.iter().map(|x| Some(*x)).collect()
    }
}
struct Mock;
impl AbstractHash<Fr> for Mock {
    type Output = Out;
    fn hash_enforce<CS: ConstraintSystem<Fr>>(mut cs: CS, p: &[&Out]) -> Result<Out, SynthesisError> {
        if p.len() != 2 || p[0].x.len() != p[1].x.len() {
            return Err(SynthesisError::Unsatisfiable);
        }
        let mut o = Out { v: vec![], x: vec![] };
        for i in 0..p[0].x.len() {
            let (l, r) = (p[0].v[i], p[1].v[i]);
            let y = mix(l, r);
            let v = cs.alloc(|| "h", || Ok(y))?;
            let (lv, rv) = (p[0].x[i], p[1].x[i]);
            cs.enforce(|| "h", |z| z + lv + (f(3), CS::one()), |z| z + lv + rv + (f(11), CS::one()), |z| z + v - rv);
            o.v.push(y);
            o.x.push(v);
        }
        Ok(o)
    }
}
fn mk(r: &mut R, v: &[Fr], input: bool) -> Out {
    let x = v.iter().map(|y| if input { r.alloc_input(|| "i", || Ok(*y)).unwrap() } else { r.alloc(|| "a", || Ok(*y)).unwrap() }).collect();
    Out { v: v.to_vec(), x }
}
/// siblings and merges on the way from node `i` up, in the documented tree shape
fn path(nodes: &[String], mut i: usize) -> Vec<String> {
    let mut l = vec![];
    while i > 0 {
        l.push(nodes[if i % 2 == 1 { i + 1 } else { i - 1 }].clone());
        i = (i - 1) / 2;
    }
    l
}
fn fold<T: Clone>(index: u32, leaf: &T, lemmas: &[T], m: &dyn Fn(&T, &T) -> T) -> Option<T> {
    let (mut i, mut p) = (index, leaf.clone());
    for l in lemmas {
        if i == 0 {
            return None;
        }
        p = if i % 2 == 1 { m(&p, l) } else { m(l, &p) };
        i = (i - 1) / 2;
    }
    if i == 0 {
        Some(p)
    } else {
        None
    }
}
pub fn p10(c: &mut Ctx) {
    let mut g = srng(c.seed ^ 0x10);
    // tree index laws
    c.set_shape("tree indices");
    for k in 0..5000u64 {
        let i = if k < 3000 { k as u32 } else if k < 4000 { u32::max_value() - 1 - (k as u32 - 3000) } else { g.next_u32().min(u32::max_value() - 1) };
        let want = (
            if i == 0 { 0 } else if i % 2 == 1 { i + 1 } else { i - 1 },
            if i == 0 { 0 } else { (i - 1) / 2 },
            i % 2 == 1,
            i == 0,
        );
        let got = guarded(|| (i.sibling(), i.parent(), i.is_left(), i.is_root()));
        c.ob("TreeIndex u32: sibling, parent, side and root", By::Ground, got == Ok(want), || format!("{}: {:?}", i, got));
        let j = i as usize;
        let got = guarded(|| (j.sibling(), j.parent(), j.is_left(), j.is_root()));
        c.ob("TreeIndex usize: sibling, parent, side and root", By::Ground, got == Ok((want.0 as usize, want.1 as usize, want.2, want.3)), || format!("{}: {:?}", i, got));
    }
    // every number of leaves, every index, every alteration, over the free merge
    let top = if c.thorough { 130 } else { 34 };
    for n in 0..=top {
        c.set_shape(format!("{} leaves", n));
        let dup = n % 5 == 4;
        let leaves: Vec<String> = (0..n).map(|i| if dup && i % 2 == 1 { format!("x{}", i / 2) } else { format!("x{}", i) }).collect();
        let mut nodes = vec![String::new(); (n as usize).saturating_sub(1)];
        nodes.extend(leaves.iter().cloned());
        for i in (0..(n as usize).saturating_sub(1)).rev() {
            nodes[i] = Free::merge(&nodes[2 * i + 1], &nodes[2 * i + 2]);
        }
        let root = nodes.get(0).cloned().unwrap_or_default();
        let what = format!("{} leaves", n);
        let gr = guarded(|| (CBMT::<String, Free>::build_merkle_root(&leaves), CBMT::<String, Free>::build_merkle_tree(leaves.clone())));
        let (r1, tree) = match gr {
            Ok(x) => x,
            Err(e) => {
                c.ob("root: defined for every number of leaves", By::Ground, false, || format!("{}: {}", what, e));
                continue;
            }
        };
        c.ob("root: build_merkle_root is the documented tree root", By::Ground, r1 == root, || what.clone());
        c.ob("root: of the built tree", By::Ground, tree.root() == root, || what.clone());
        c.ob("nodes: of the built tree", By::Ground, *tree.nodes() == nodes, || what.clone());
        for j in [n as u32, n as u32 + 1, 2 * n as u32 + 1, 1 << 31, u32::max_value() - n as u32, u32::max_value() - 1, u32::max_value()].iter() {
            if *j >= n as u32 {
                let a = guarded(|| tree.build_proof(j).is_none() && CBMT::<String, Free>::build_merkle_proof(&leaves, j).is_none());
                c.ob("no proof for an index outside the leaves", By::Ground, a == Ok(true), || format!("{} index {}: {:?}", what, j, a));
            }
        }
        for i in 0..n {
            let p = match guarded(|| tree.build_proof(&(i as u32))) {
                Ok(Some(p)) => p,
                x => {
                    c.ob("a proof exists for every leaf", By::Ground, false, || format!("{} index {}: {:?}", what, i, x.err()));
                    continue;
                }
            };
            c.ob("a proof exists for every leaf", By::Ground, true, || String::new());
            let leaf = &leaves[i];
            let what = format!("{} leaves, leaf {}", n, i);
            let want = path(&nodes, n - 1 + i);
            c.ob("a built proof lists the siblings up to the root", By::Ground, p.lemmas() == &want[..] && *p.index() == (n - 1 + i) as u32, || format!("{}: index {} {:?}", what, p.index(), p.lemmas()));
            c.ob("a built proof verifies", By::Ground, p.verify(&root, leaf) && p.root(leaf) == Some(root.clone()), || what.clone());
            let mut alt: Vec<(String, u32, Vec<String>, String, String)> = vec![];
            let (ix, lm) = (*p.index(), p.lemmas().to_vec());
            for other in leaves.iter().chain(nodes.iter().take(3)).chain(std::iter::once(&"new".to_string())) {
                if other != leaf {
                    alt.push((format!("leaf {}", other), ix, lm.clone(), root.clone(), other.clone()));
                }
            }
            for (k, l) in lm.iter().enumerate() {
                for x in [leaf.clone(), "new".to_string(), format!("({} {})", l, l), root.clone()].iter() {
                    if x != l {
                        let mut m = lm.clone();
                        m[k] = x.clone();
                        alt.push((format!("lemma {}", k), ix, m, root.clone(), leaf.clone()));
                    }
                }
                let mut m = lm.clone();
                m.remove(k);
                alt.push((format!("lemma {} dropped", k), ix, m, root.clone(), leaf.clone()));
                let mut m = lm.clone();
                m.insert(k, l.clone());
                alt.push((format!("lemma {} repeated", k), ix, m, root.clone(), leaf.clone()));
                if k > 0 && lm[k] != lm[k - 1] {
                    let mut m = lm.clone();
                    m.swap(k, k - 1);
                    alt.push((format!("lemmas {} swapped", k), ix, m, root.clone(), leaf.clone()));
                }
            }
            let mut m = lm.clone();
            m.push("new".into());
            alt.push(("lemma appended".into(), ix, m, root.clone(), leaf.clone()));
            for x in nodes.iter().chain(std::iter::once(&String::new())) {
                if *x != root {
                    alt.push(("root".into(), ix, lm.clone(), x.clone(), leaf.clone()));
                }
            }
            for j in (0..(2 * n as u32 + 3)).chain([u32::max_value(), u32::max_value() - 1, ix.wrapping_add(1 << 31), ix | (1 << 20)].iter().cloned()) {
                if j != ix {
                    alt.push((format!("index {}", j), j, lm.clone(), root.clone(), leaf.clone()));
                }
            }
            for (w, ix, lm, rt, lf) in alt {
                let a = guarded(|| MerkleProof::<String, Free>::new(ix, lm.clone()).verify(&rt, &lf));
                // with repeated leaves an altered statement can be another true one
                let truth = fold(ix, &lf, &lm, &Free::merge) == Some(rt.clone());
                if truth && !dup {
                    c.ob("the reference rejects alterations", By::Ground, false, || format!("{}: {}", what, w));
                }
                c.ob("an altered leaf, lemma, root, index or length is rejected", By::Ground, a == Ok(truth), || format!("{}: {}: {:?}", what, w, a));
            }
        }
    }
    // arbitrary indices and lemma lists
    c.set_shape("arbitrary proofs");
    for _ in 0..(if c.thorough { 20000 } else { 2000 }) {
        let k = (g.next_u32() % 34) as usize;
        let ix = match g.next_u32() % 3 {
            0 => g.next_u32() % 64,
            1 => g.next_u32() >> (g.next_u32() % 32),
            _ => g.next_u32(),
        };
        let lm: Vec<String> = (0..k).map(|i| format!("{}", i)).collect();
        let want = fold(ix, &"x".to_string(), &lm, &Free::merge);
        let got = guarded(|| MerkleProof::<String, Free>::new(ix, lm.clone()).root(&"x".to_string()));
        c.ob("MerkleProof::root: the merge along the path, if it ends at the root", By::Ground, got == Ok(want.clone()), || format!("index {} {} lemmas: {:?}", ix, k, got));
    }
    // the circuit agrees with the native verification
    for n in 1..=(if c.thorough { 24usize } else { 11 }) {
        c.set_shape(format!("circuit, {} leaves", n));
        let w = 1 + n % 2;
        let leaves: Vec<Vec<Fr>> = (0..n).map(|_| (0..w).map(|_| fld(&mut g)).collect()).collect();
        for i in 0..n {
            let col = |k: usize| leaves.iter().map(|l| l[k]).collect::<Vec<Fr>>();
            let trees: Vec<_> = (0..w).map(|k| CBMT::<Fr, Mul>::build_merkle_tree(col(k))).collect();
            let proofs: Vec<_> = trees.iter().map(|t| t.build_proof(&(i as u32)).unwrap()).collect();
            let root: Vec<Fr> = trees.iter().map(|t| t.root()).collect();
            let ix = *proofs[0].index();
            let lem: Vec<Vec<Fr>> = (0..proofs[0].lemmas().len()).map(|j| (0..w).map(|k| proofs[k].lemmas()[j]).collect()).collect();
            let one = f(1);
            let bump = |v: &Vec<Fr>, k: usize| { let mut v = v.clone(); let l = v.len(); v[k % l] += one; v };
            let mut cases: Vec<(String, u32, Vec<Vec<Fr>>, Vec<Fr>, Vec<Fr>)> = vec![("honest".into(), ix, lem.clone(), root.clone(), leaves[i].clone())];
            for k in 0..w {
                cases.push(("leaf".into(), ix, lem.clone(), root.clone(), bump(&leaves[i], k)));
                cases.push(("root".into(), ix, lem.clone(), bump(&root, k), leaves[i].clone()));
                for j in 0..lem.len() {
                    let mut m = lem.clone();
                    m[j] = bump(&m[j], k);
                    cases.push((format!("lemma {}", j), ix, m, root.clone(), leaves[i].clone()));
                }
            }
            for j in 0..lem.len() {
                let mut m = lem.clone();
                m.remove(j);
                cases.push((format!("lemma {} dropped", j), ix, m, root.clone(), leaves[i].clone()));
            }
            let mut m = lem.clone();
            m.push(root.clone());
            cases.push(("lemma appended".into(), ix, m, root.clone(), leaves[i].clone()));
            for j in [ix + 1, ix.wrapping_sub(1), 0, 2 * ix + 1, ix / 2].iter() {
                if *j != ix {
                    cases.push((format!("index {}", j), *j, lem.clone(), root.clone(), leaves[i].clone()));
                }
            }
            if w == 2 {
                cases.push(("root of another length".into(), ix, lem.clone(), vec![root[0]], leaves[i].clone()));
                cases.push(("no root".into(), ix, lem.clone(), vec![], leaves[i].clone()));
            }
            for (wh, ix, lm, rt, lf) in cases {
                let what = format!("{} leaves, leaf {}: {}", n, i, wh);
                let native = rt.len() == w && (0..w).all(|k| MerkleProof::<Fr, Mul>::new(ix, lm.iter().map(|l| l[k]).collect()).verify(&rt[k], &lf[k]));
                let x = guarded(|| {
                    let mut r = R::new();
                    let ro = mk(&mut r, &rt, true);
                    let le = mk(&mut r, &lf, false);
                    let ls: Vec<Out> = lm.iter().map(|l| mk(&mut r, l, false)).collect();
                    let ok = MerkleProofGadget::<u32, Fr, Mock>::new(ix, ls.clone()).set_membership(&mut r, ro.clone(), le.clone()).is_ok();
                    (r, ok, ro, le, ls)
                });
                let (r, ok, ro, le, ls) = match x {
                    Ok(x) => x,
                    Err(e) => {
                        c.ob("circuit: satisfied exactly when the native verification accepts", By::Ground, !native, || format!("{}: {}", what, e));
                        continue;
                    }
                };
                let sat = ok && r.violated().is_none();
                c.ob("circuit: satisfied exactly when the native verification accepts", By::Ground, sat == native, || format!("{}: circuit {}, native {}", what, sat, native));
                let mut fixed = le.x.clone();
                for l in &ls {
                    fixed.extend(l.x.iter().cloned());
                }
                if sat {
                    determined(c, "circuit: leaf and lemmas determine the root", &r, &fixed, &ro.x, &what);
                } else if ok {
                    // no choice of the other variables helps
                    let s = Sys::of(&r);
                    let mut all: Vec<usize> = fixed.iter().map(|v| r.num(*v)).collect();
                    all.extend(ro.x.iter().map(|v| r.num(*v)));
                    let fx: Vec<(usize, Fr)> = all.iter().map(|v| (*v, s.vals[*v])).collect();
                    let t = s.satisfiable(&fx);
                    c.ob("circuit: no witness for a false statement", By::Det, t != Some(true), || what.clone());
                }
            }
        }
    }
    // with the real hash gadgets
    c.set_shape("circuit with MiMC and SHA-256");
    struct MM;
    impl Merge for MM {
        type Item = Fr;
        fn merge(l: &Fr, r: &Fr) -> Fr {
            mimc::hash(&sers(&[*l, *r]))
        }
    }
    for n in [2usize, 3, 5].iter() {
        let leaves: Vec<Fr> = (0..*n).map(|_| fld(&mut g)).collect();
        let t = CBMT::<Fr, MM>::build_merkle_tree(leaves.clone());
        let i = (g.next_u32() as usize) % n;
        let p = t.build_proof(&(i as u32)).unwrap();
        for bad in 0..3 {
            let what = format!("MiMC, {} leaves, leaf {}, alteration {}", n, i, bad);
            let lf = leaves[i] + f((bad == 1) as u64);
            let rt = t.root() + f((bad == 2) as u64);
            let x = guarded(|| {
                let mut r = R::new();
                let al = |r: &mut R, x: Fr| mimc::AbstractHashMimcOutput::alloc(r, Some(x)).unwrap();
                let ro = mimc::AbstractHashMimcOutput::alloc_input(&mut r, Some(rt)).unwrap();
                let le = al(&mut r, lf);
                let ls: Vec<_> = p.lemmas().iter().map(|l| al(&mut r, *l)).collect();
                let mut fixed = le.get_variables();
                for l in &ls {
                    fixed.extend(l.get_variables());
                }
                let e = MerkleProofGadget::<u32, Fr, mimc::AbstractHashMimc<Fr>>::new(*p.index(), ls).set_membership(&mut r, ro.clone(), le).is_ok();
                (r, e, ro.get_variables(), fixed)
            });
            match x {
                Ok((r, ok, ro, fixed)) => {
                    let sat = ok && r.violated().is_none();
                    c.ob("circuit with MiMC: satisfied exactly when the statement is true", By::Ground, sat == (bad == 0), || what.clone());
                    if sat {
                        determined(c, "circuit with MiMC: leaf and lemmas determine the root", &r, &fixed, &ro, &what);
                    }
                }
                Err(e) => { c.ob("circuit with MiMC: satisfied exactly when the statement is true", By::Ground, false, || format!("{}: {}", what, e)); }
            }
        }
    }
    struct SM;
    impl Merge for SM {
        type Item = Vec<u8>;
        fn merge(l: &Vec<u8>, r: &Vec<u8>) -> Vec<u8> {
            use sha2::Digest;
            sha2::Sha256::digest(&[&l[..], &r[..]].concat()).to_vec()
        }
    }
    // leaves shorter than the digests: one level merges a digest and a leaf
    for (n, len, i) in [(2usize, 32usize, g.next_u32() as usize % 2), (3, 32, g.next_u32() as usize % 3), (3, 4, 0), (3, 4, 1), (3, 4, 2)].iter() {
        let i = *i;
        let leaves: Vec<Vec<u8>> = (0..*n).map(|k| content(*len, if k == 0 { 0 } else { 3 }, &mut g)).collect();
        let t = CBMT::<Vec<u8>, SM>::build_merkle_tree(leaves.clone());
        let p = t.build_proof(&(i as u32)).unwrap();
        for bad in 0..3 {
            let what = format!("SHA-256, {} leaves, leaf {}, alteration {}", n, i, bad);
            let (mut lf, mut rt) = (leaves[i].clone(), t.root());
            if bad == 1 {
                lf[3] ^= 4;
            }
            if bad == 2 {
                rt[31] ^= 1;
            }
            type O = sha256::AbstractHashSha256Output;
            let gv = |o: &O| AbstractHashOutput::<Fr>::get_variables(o);
            let x = guarded(|| {
                let mut r = R::new();
                let ro = O::alloc_input(&mut r, rt.clone()).unwrap();
                let le = O::alloc(&mut r, lf.clone()).unwrap();
                let ls: Vec<_> = p.lemmas().iter().map(|l| O::alloc(&mut r, l.clone()).unwrap()).collect();
                let mut fixed = gv(&le);
                for l in &ls {
                    fixed.extend(gv(l));
                }
                let e = MerkleProofGadget::<u32, Fr, sha256::AbstractHashSha256<Fr>>::new(*p.index(), ls).set_membership(&mut r, ro.clone(), le).is_ok();
                (r, e, gv(&ro), fixed)
            });
            match x {
                Ok((r, ok, ro, fixed)) => {
                    let sat = ok && r.violated().is_none();
                    c.ob("circuit with SHA-256: satisfied exactly when the statement is true", By::Ground, sat == (bad == 0), || what.clone());
                    if sat {
                        determined(c, "circuit with SHA-256: leaf and lemmas determine the root", &r, &fixed, &ro, &what);
                    }
                }
                Err(e) => { c.ob("circuit with SHA-256: satisfied exactly when the statement is true", By::Ground, false, || format!("{}: {}", what, e)); }
            }
        }
    }
}

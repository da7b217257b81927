//! P29: the curve25519 wrapper against integer arithmetic modulo the group order and against the
//! wrapped library.
use crate::ctx::*;
use ark_ff::{BigInteger256, Field, FpParameters, FromBytes, One, PrimeField, SquareRootField, ToBytes, UniformRand, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT as B;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use num_bigint::BigUint;
use num_traits::{One as _, Zero as _};
use serde_json::json;
use vmodel::guarded;
use zkp_curve::{AffineCurve, Curve, ProjectiveCurve};
use zkp_curve25519::{Curve25519, Curve25519Point as P, Fr, FrParameters};

fn order() -> BigUint {
    (BigUint::from(1u32) << 252) + BigUint::parse_bytes(b"27742317777372353535851937790883648493", 10).unwrap()
}
fn big(a: &BigInteger256) -> BigUint {
    let mut b = vec![];
    for l in a.0.iter() {
        b.extend(l.to_le_bytes());
    }
    BigUint::from_bytes_le(&b)
}
fn unbig(a: &BigUint) -> BigInteger256 {
    let mut b = a.to_bytes_le();
    b.resize(32, 0);
    let mut l = [0u64; 4];
    for i in 0..4 {
        let mut x = [0u8; 8];
        x.copy_from_slice(&b[8 * i..8 * i + 8]);
        l[i] = u64::from_le_bytes(x);
    }
    BigInteger256(l)
}
fn int(f: &Fr) -> BigUint {
    big(&f.into_repr())
}
fn fe(a: &BigUint) -> Option<Fr> {
    Fr::from_repr(unbig(a))
}
fn scalar(a: &BigUint) -> Scalar {
    let mut b = (a % order()).to_bytes_le();
    b.resize(32, 0);
    let mut x = [0u8; 32];
    x.copy_from_slice(&b);
    Scalar::from_canonical_bytes(x).unwrap()
}
fn edge() -> Vec<BigUint> {
    let r = order();
    let mut v: Vec<BigUint> = vec![];
    for k in 0u32..6 {
        v.push(k.into());
        v.push(&r - 1u32 - k);
        v.push((&r >> 1) + k);
        v.push(((&r) >> 2) - k);
    }
    for s in [8u32, 31, 32, 63, 64, 65, 127, 128, 129, 191, 192, 193, 250, 251, 252].iter() {
        let p = BigUint::from(1u32) << *s;
        v.push(&p - 1u32);
        v.push(p.clone());
        v.push(&p + 1u32);
    }
    v.push((BigUint::from(1u32) << 256) % &r);
    v.push((BigUint::from(1u32) << 512usize) % &r);
    v.retain(|x| x < &r);
    v
}

pub fn p29(c: &mut Ctx) {
    let n = c.viol.len();
    constants(c);
    // Tonelli-Shanks with wrong constants need not end
    let roots = c.viol.len() == n;
    field(c, roots);
    group(c);
    systems(c);
}
fn constants(c: &mut Ctx) {
    c.set_shape("scalar field constants");
    let r = order();
    let one = BigUint::one();
    let two256 = BigUint::from(1u32) << 256usize;
    let ri = two256.clone() % &r;
    let ok = |c: &mut Ctx, n: &str, b: bool| {
        c.ob("FrParameters: every constant has its defining value", By::Ground, b, || n.to_string());
    };
    ok(c, "MODULUS", big(&FrParameters::MODULUS) == r);
    ok(c, "MODULUS_BITS", FrParameters::MODULUS_BITS as u64 == r.bits());
    ok(c, "CAPACITY", FrParameters::CAPACITY as u64 == r.bits() - 1);
    ok(c, "REPR_SHAVE_BITS", FrParameters::REPR_SHAVE_BITS as u64 == 256 - r.bits());
    ok(c, "R", big(&FrParameters::R) == ri);
    ok(c, "R2", big(&FrParameters::R2) == (&ri * &ri) % &r);
    let m64 = BigUint::from(1u32) << 64usize;
    ok(c, "INV", ((BigUint::from(FrParameters::INV) * &r) + 1u32) % &m64 == BigUint::zero());
    ok(c, "MODULUS_MINUS_ONE_DIV_TWO", big(&FrParameters::MODULUS_MINUS_ONE_DIV_TWO) == (&r - 1u32) >> 1);
    let mut t = &r - 1u32;
    let mut s = 0;
    while (&t % 2u32).is_zero() {
        t = t >> 1;
        s += 1;
    }
    ok(c, "TWO_ADICITY", <FrParameters as ark_ff::FftParameters>::TWO_ADICITY == s);
    ok(c, "T", big(&FrParameters::T) == t);
    ok(c, "T_MINUS_ONE_DIV_TWO", big(&FrParameters::T_MINUS_ONE_DIV_TWO) == (&t - 1u32) >> 1);
    // the generator generates the multiplicative group: all prime factors of r - 1 are known
    let primes = ["2", "3", "11", "198211423230930754013084525763697", "276602624281642239937218680557139826668747"];
    let mut m = &r - 1u32;
    for p in &primes {
        let p = BigUint::parse_bytes(p.as_bytes(), 10).unwrap();
        while (&m % &p).is_zero() {
            m = m / &p;
        }
    }
    assert!(m.is_one());
    let inv_r = ri.modpow(&(&r - 2u32), &r);
    let g = big(&FrParameters::GENERATOR) * &inv_r % &r;
    ok(c, "GENERATOR", primes.iter().all(|p| {
        let p = BigUint::parse_bytes(p.as_bytes(), 10).unwrap();
        g.modpow(&((&r - 1u32) / p), &r) != one
    }));
    let root = big(&<FrParameters as ark_ff::FftParameters>::TWO_ADIC_ROOT_OF_UNITY) * &inv_r % &r;
    ok(c, "TWO_ADIC_ROOT_OF_UNITY", root.modpow(&((BigUint::from(1u32) << (s as usize - 1))), &r) == &r - 1u32);
}

fn field(c: &mut Ctx, roots: bool) {
    let r = order();
    let mut rg = crate::circ::rng(c.seed);
    let mut xs = edge();
    c.set_shape(format!("{} edge values and random scalars", xs.len()));
    for _ in 0..if c.thorough { 200 } else { 40 } {
        xs.push(int(&Fr::rand(&mut rg)));
    }
    for x in &xs {
        let f = fe(x);
        c.ob("Fr: an integer below the order converts to the element and back", By::Ground, f.map(|f| int(&f)) == Some(x.clone()), || x.to_string());
        let f = match f {
            Some(f) => f,
            None => continue,
        };
        let chk = |c: &mut Ctx, n: &str, a: BigUint, b: BigUint| {
            c.ob("Fr: every operation is the integer operation modulo the order", By::Ground, a == b, || format!("{} of {}: {} not {}", n, x, a, b));
        };
        chk(c, "neg", int(&-f), (&r - x) % &r);
        chk(c, "double", int(&f.double()), (x * 2u32) % &r);
        chk(c, "square", int(&f.square()), (x * x) % &r);
        let inv = f.inverse();
        c.ob("Fr: every operation is the integer operation modulo the order", By::Ground, match inv {
            None => x.is_zero(),
            Some(i) => (int(&i) * x) % &r == BigUint::one(),
        }, || format!("inverse of {}", x));
        let want = if x.is_zero() { 0 } else if x.modpow(&((&r - 1u32) >> 1), &r).is_one() { 1 } else { -1 };
        let leg = guarded(|| f.legendre());
        let got = match &leg {
            Ok(l) if l.is_zero() => 0,
            Ok(l) if l.is_qr() => 1,
            Ok(_) => -1,
            Err(_) => 9,
        };
        c.ob("Fr: legendre symbol", By::Ground, got == want, || format!("of {}: {} not {}", x, got, want));
        let sq = guarded(|| if roots { f.sqrt() } else { None });
        let ok = !roots || match &sq {
            Ok(Some(s)) => want >= 0 && (int(s) * int(s)) % &r == *x,
            Ok(None) => want < 0,
            Err(_) => false,
        };
        c.ob("Fr: square root exactly of the squares", By::Ground, ok, || format!("of {}: {:?}", x, sq.map(|s| s.map(|s| int(&s).to_string()))));
        for b in 0..256usize {
            let bit = (x >> b) & BigUint::one() == BigUint::one();
            use ark_ff::BigInteger;
            if f.into_repr().get_bit(b) != bit {
                c.ob("Fr: bit access", By::Ground, false, || format!("bit {} of {}", b, x));
            }
        }
        c.ob("Fr: bit access", By::Ground, true, String::new);
        let mut by = vec![];
        let _ = f.write(&mut by);
        let mut le = x.to_bytes_le();
        le.resize(32, 0);
        c.ob("Fr: bytes are the little-endian integer, and decode to it", By::Ground, by == le && Fr::read(&by[..]).ok() == Some(f), || x.to_string());
        for unc in 0..2 {
            let mut by = vec![];
            let e = if unc == 0 { f.serialize(&mut by) } else { f.serialize_uncompressed(&mut by) };
            let size = if unc == 0 { f.serialized_size() } else { f.uncompressed_size() };
            let mut rd = &by[..];
            let back = if unc == 0 { Fr::deserialize(&mut rd) } else { Fr::deserialize_uncompressed(&mut rd) };
            c.ob("Fr: encoding then decoding returns the scalar", By::Ground, e.is_ok() && by.len() == size && rd.is_empty() && back.ok() == Some(f), || x.to_string());
        }
        for e in [0u64, 1, 2, 3, 65537, u64::MAX].iter() {
            chk(c, &format!("pow {}", e), int(&f.pow(&[*e])), x.modpow(&(*e).into(), &r));
        }
    }
    for x in [&r - 0u32, &r + 1u32, (&r << 1) - 1u32, (BigUint::from(1u32) << 256usize) - 1u32, BigUint::from(1u32) << 253usize].iter() {
        c.ob("Fr: integers at or above the order are not elements", By::Ground, fe(x).is_none(), || x.to_string());
    }
    for (i, x) in xs.iter().enumerate() {
        for (j, y) in xs.iter().enumerate() {
            if (i + 3 * j) % 5 != 0 && !c.thorough {
                continue;
            }
            let (f, g) = (fe(x).unwrap(), fe(y).unwrap());
            let all = int(&(f + g)) == (x + y) % &r
                && int(&(f - g)) == (x + &r - y) % &r
                && int(&(f * g)) == (x * y) % &r
                && (y.is_zero() || int(&((f / g) * g)) == *x)
                && (f == g) == (x == y)
                && (f.cmp(&g)) == (x.cmp(y));
            c.ob("Fr: every operation is the integer operation modulo the order", By::Ground, all, || format!("{} and {}", x, y));
        }
    }
}

fn group(c: &mut Ctx) {
    let r = order();
    let mut rg = crate::circ::rng(c.seed ^ 77);
    let mut ks: Vec<BigUint> = edge();
    ks.truncate(40);
    for _ in 0..if c.thorough { 40 } else { 12 } {
        ks.push(int(&Fr::rand(&mut rg)));
    }
    c.set_shape(format!("{} points", ks.len()));
    let base = <P as AffineCurve>::prime_subgroup_generator();
    c.ob("Curve25519Point: the generator is the wrapped library's base point", By::Ground, base.0 == B, String::new);
    let g2 = guarded(|| <P as ProjectiveCurve>::prime_subgroup_generator());
    c.ob("Curve25519Point: the generator is the wrapped library's base point", By::Ground, matches!(g2, Ok(p) if p.0 == B), || "ProjectiveCurve".into());
    let pts: Vec<RistrettoPoint> = ks.iter().map(|k| B * scalar(k)).collect();
    for (i, k) in ks.iter().enumerate() {
        let p = P(pts[i]);
        let same = |c: &mut Ctx, n: &str, got: Result<P, String>, want: RistrettoPoint| {
            let ok = matches!(&got, Ok(q) if q.0 == want);
            c.ob("Curve25519Point: every operation is the wrapped library's", By::Ground, ok, || format!("{} of {} * B: {:?}", n, k, got.map(|_| "another point")));
        };
        same(c, "neg", guarded(|| -p), -pts[i]);
        same(c, "double", guarded(|| ProjectiveCurve::double(&p)), pts[i] + pts[i]);
        same(c, "double_in_place", guarded(|| {
            let mut q = p;
            q.double_in_place();
            q
        }), pts[i] + pts[i]);
        same(c, "into_affine", guarded(|| p.into_affine()), pts[i]);
        same(c, "into_projective", guarded(|| p.into_projective()), pts[i]);
        c.ob("Curve25519Point: zero test", By::Ground, p.is_zero() == k.is_zero() && (p == P::zero()) == k.is_zero(), || k.to_string());
        c.ob("Curve25519Point: normalization keeps the points", By::Ground, {
            let v = vec![p, P::zero(), base];
            let mut w = v.clone();
            let a = guarded(|| P::batch_normalization_into_affine(&v));
            let b = guarded(|| {
                P::batch_normalization(&mut w);
                w.clone()
            });
            let z = guarded(|| p.is_normalized());
            a.ok() == Some(v.clone()) && b.ok() == Some(v) && z.ok() == Some(true)
        }, || format!("{} * B", k));
        for (j, m) in ks.iter().enumerate() {
            if (2 * i + j) % 3 != 0 {
                continue;
            }
            let q = P(pts[j]);
            same(c, "add", guarded(|| p + q), pts[i] + pts[j]);
            same(c, "add ref", guarded(|| p + &q), pts[i] + pts[j]);
            same(c, "sub", guarded(|| p - q), pts[i] - pts[j]);
            same(c, "sub ref", guarded(|| p - &q), pts[i] - pts[j]);
            same(c, "add mixed", guarded(|| p.add_mixed(&q)), pts[i] + pts[j]);
            same(c, "assign", guarded(|| {
                let mut a = p;
                a += q;
                a -= p;
                a += &p;
                a -= &p;
                a.add_assign_mixed(&p);
                a
            }), pts[i] + pts[j]);
            let f = fe(m).unwrap();
            same(c, "mul scalar", guarded(|| {
                let mut a = p;
                a *= f;
                a
            }), pts[i] * scalar(m));
            same(c, "AffineCurve::mul", guarded(|| AffineCurve::mul(&p, f)), pts[i] * scalar(m));
            same(c, "AffineCurve::mul integer", guarded(|| AffineCurve::mul(&p, f.into_repr())), pts[i] * scalar(m));
            same(c, "ProjectiveCurve::mul", guarded(|| ProjectiveCurve::mul(p, f.into_repr())), pts[i] * scalar(m));
            c.ob("Curve25519Point: group laws", By::Ground, p + q == q + p && (p + q) + base == p + (q + base) && p - p == P::zero() && (p + q) - q == p, || format!("{} {}", k, m));
        }
        // encodings
        for style in 0..4 {
            let mut by = vec![];
            let (e, size) = match style {
                0 => (p.serialize(&mut by).is_ok(), p.serialized_size()),
                1 => (p.serialize_uncompressed(&mut by).is_ok(), p.uncompressed_size()),
                2 => (p.serialize_unchecked(&mut by).is_ok(), p.uncompressed_size()),
                _ => (p.write(&mut by).is_ok(), 32),
            };
            let mut rd = &by[..];
            let back = match style {
                0 => P::deserialize(&mut rd).ok(),
                1 => P::deserialize_uncompressed(&mut rd).ok(),
                2 => P::deserialize_unchecked(&mut rd).ok(),
                _ => P::read(&mut rd).ok(),
            };
            c.ob("Curve25519Point: encoding then decoding returns the point", By::Ground, e && by.len() == size && rd.is_empty() && back == Some(p), || format!("form {} of {} * B: {} bytes, size {}", style, k, by.len(), size));
            let cut = match style {
                0 => P::deserialize(&by[..by.len() - 1]).is_ok(),
                1 => P::deserialize_uncompressed(&by[..by.len() - 1]).is_ok(),
                2 => P::deserialize_unchecked(&by[..by.len() - 1]).is_ok(),
                _ => P::read(&by[..by.len() - 1]).is_ok(),
            };
            c.ob("Curve25519Point: truncated encodings are rejected", By::Ground, !cut, || format!("form {}", style));
        }
    }
    // non-points
    for k in 1u8..40 {
        let mut b = [k; 32];
        b[31] |= 0x80;
        c.ob("Curve25519Point: encodings of no point are rejected", By::Ground, P::deserialize(&b[..]).is_err() && P::read(&b[..]).is_err(), || format!("{:?}", b));
    }
    // multi-scalar multiplication
    for n in [0usize, 1, 2, 3, 7, 16, 33, 52].iter() {
        let n = (*n).min(ks.len());
        for rot in 0..3 {
            let ss: Vec<Fr> = (0..n).map(|i| fe(&ks[(i * 7 + rot) % ks.len()]).unwrap()).collect();
            let ps: Vec<P> = (0..n).map(|i| P(pts[(i * 3 + rot) % pts.len()])).collect();
            let want: RistrettoPoint = (0..n).map(|i| ps[i].0 * scalar(&int(&ss[i]))).sum();
            let got = guarded(|| Curve25519::vartime_multiscalar_mul(&ss, &ps));
            c.ob("Curve25519: multi-scalar multiplication is the sum of the products", By::Ground, matches!(got, Ok(p) if p.0 == want), || format!("{} terms", n));
            let got = guarded(|| ps.iter().sum::<P>());
            let want: RistrettoPoint = ps.iter().map(|p| p.0).sum();
            c.ob("Curve25519Point: iterated sums", By::Ground, matches!(got, Ok(p) if p.0 == want), || format!("{} terms", n));
        }
    }
    c.sample(json!({"order": r.to_string(), "points": ks.len()}));
}

/// a whole proof system over the wrapped curve
fn systems(c: &mut Ctx) {
    c.set_shape("bulletproofs over curve25519");
    use zkp_r1cs::*;
    #[derive(Clone)]
    struct C(Option<(Fr, Fr)>);
    impl ConstraintSynthesizer<Fr> for C {
        fn generate_constraints<S: ConstraintSystem<Fr>>(self, cs: &mut S) -> Result<(), SynthesisError> {
            let v = self.0;
            let a = cs.alloc(|| "a", || v.map(|x| x.0).ok_or(SynthesisError::AssignmentMissing))?;
            let b = cs.alloc(|| "b", || v.map(|x| x.1).ok_or(SynthesisError::AssignmentMissing))?;
            let o = cs.alloc_input(|| "o", || v.map(|x| x.0 * x.1).ok_or(SynthesisError::AssignmentMissing))?;
            cs.enforce(|| "m", |l| l + a, |l| l + b, |l| l + o);
            cs.enforce(|| "m2", |l| l + a + b, |l| l + CS_ONE::<S, Fr>(), |l| l + a + b);
            Ok(())
        }
    }
    #[allow(non_snake_case)]
    fn CS_ONE<S: ConstraintSystem<F>, F: Field>() -> Variable {
        S::one()
    }
    use zkp_bulletproofs::arithmetic_circuit::{create_random_proof, verify_proof};
    let mut rg = crate::circ::rng(c.seed + 5);
    for k in 0..3 {
        let (a, b) = (Fr::from(3u32 + k), if k == 2 { Fr::rand(&mut rg) } else { Fr::one() });
        let got = guarded(|| {
            let (g, m, p) = create_random_proof::<Curve25519, _, _>(C(Some((a, b))), &mut rg)?;
            let ok = verify_proof(&g, &p, &m, &[a * b])?;
            let bad = verify_proof(&g, &p, &m, &[a * b + Fr::one()])?;
            Ok::<_, SynthesisError>((ok, bad))
        });
        c.ob("a proof system over the wrapped curve is complete and binds its input", By::Ground, matches!(got, Ok(Ok((true, false)))), || format!("{:?}", got));
    }
}

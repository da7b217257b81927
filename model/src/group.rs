//! Model groups: an element of a prime-order group is its discrete logarithm (a model field
//! element) with respect to a fixed base; the pairing multiplies logarithms.  This is a genuine
//! instance of the ProjectiveCurve / AffineCurve / PairingEngine contracts the code is generic
//! over, and the generic one up to isomorphism, so an equation between group elements holds for
//! every bilinear group iff the corresponding identity of logarithms holds.
use crate::fr::*;
use crate::tape::*;
use ark_bls12_381::{Fq, Fr};
use ark_ec::{AffineCurve, PairingEngine, ProjectiveCurve};
use ark_ff::{
    BigInteger256, Field, FromBytes, One, PrimeField, SquareRootField, ToBytes, Zero,
};
use ark_serialize::*;
use ark_std::io::{Read, Result as IoResult, Write};
use rand::distributions::{Distribution, Standard};
use rand::Rng;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::ops::*;
use zeroize::Zeroize;

pub trait Kind: 'static + Copy + Send + Sync + fmt::Debug {
    const GEN: &'static str;
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct K1;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct K2;
impl Kind for K1 {
    const GEN: &'static str = "gen1";
}
impl Kind for K2 {
    const GEN: &'static str = "gen2";
}

#[derive(Clone, Copy)]
pub struct Gp<K: Kind> {
    pub x: TFr,
    _k: PhantomData<K>,
}
pub type G1 = Gp<K1>;
pub type G2 = Gp<K2>;

impl<K: Kind> Gp<K> {
    pub fn new(x: TFr) -> Self {
        Gp { x, _k: PhantomData }
    }
}
impl<K: Kind> fmt::Debug for Gp<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "[{:?}]", self.x)
    }
}
impl<K: Kind> fmt::Display for Gp<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "[{}]", self.x)
    }
}
impl<K: Kind> PartialEq for Gp<K> {
    fn eq(&self, o: &Self) -> bool {
        log_eq(&self.x, &o.x)
    }
}
impl<K: Kind> Eq for Gp<K> {}
impl<K: Kind> Hash for Gp<K> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.x.hash(h)
    }
}
impl<K: Kind> Default for Gp<K> {
    fn default() -> Self {
        Self::new(TFr::default())
    }
}
impl<K: Kind> Zeroize for Gp<K> {
    fn zeroize(&mut self) {
        *self = Self::default()
    }
}
impl<K: Kind> Zero for Gp<K> {
    fn zero() -> Self {
        Self::default()
    }
    fn is_zero(&self) -> bool {
        self.x.is_zero()
    }
}
impl<K: Kind> Neg for Gp<K> {
    type Output = Self;
    fn neg(self) -> Self {
        Self::new(-self.x)
    }
}
macro_rules! gop {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident) => {
        impl<K: Kind> $tr<Gp<K>> for Gp<K> {
            type Output = Self;
            fn $f(self, b: Self) -> Self {
                Self::new($tr::$f(self.x, b.x))
            }
        }
        impl<'a, K: Kind> $tr<&'a Gp<K>> for Gp<K> {
            type Output = Self;
            fn $f(self, b: &'a Self) -> Self {
                Self::new($tr::$f(self.x, b.x))
            }
        }
        impl<K: Kind> $tra<Gp<K>> for Gp<K> {
            fn $fa(&mut self, b: Self) {
                self.x = $tr::$f(self.x, b.x)
            }
        }
        impl<'a, K: Kind> $tra<&'a Gp<K>> for Gp<K> {
            fn $fa(&mut self, b: &'a Self) {
                self.x = $tr::$f(self.x, b.x)
            }
        }
    };
}
gop!(Add, add, AddAssign, add_assign);
gop!(Sub, sub, SubAssign, sub_assign);
impl<K: Kind> MulAssign<TFr> for Gp<K> {
    fn mul_assign(&mut self, s: TFr) {
        self.x = self.x * s
    }
}
impl<K: Kind> core::iter::Sum<Gp<K>> for Gp<K> {
    fn sum<I: Iterator<Item = Gp<K>>>(i: I) -> Self {
        i.fold(Self::zero(), |a, b| a + b)
    }
}
impl<'a, K: Kind> core::iter::Sum<&'a Gp<K>> for Gp<K> {
    fn sum<I: Iterator<Item = &'a Gp<K>>>(i: I) -> Self {
        i.fold(Self::zero(), |a, b| a + b)
    }
}
impl<K: Kind> ToBytes for Gp<K> {
    fn write<W: Write>(&self, w: W) -> IoResult<()> {
        self.x.write(w)
    }
}
impl<K: Kind> FromBytes for Gp<K> {
    fn read<R: Read>(r: R) -> IoResult<Self> {
        TFr::read(r).map(Self::new)
    }
}
/// the uncompressed form has a second half that repeats the first (as with a point's coordinates,
/// it differs from the compressed form in length)
impl<K: Kind> CanonicalSerialize for Gp<K> {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> {
        self.x.serialize(w)
    }
    fn serialized_size(&self) -> usize {
        self.x.serialized_size()
    }
    fn serialize_uncompressed<W: Write>(&self, mut w: W) -> Result<(), SerializationError> {
        self.x.serialize(&mut w)?;
        self.x.serialize(&mut w)
    }
    fn serialize_unchecked<W: Write>(&self, w: W) -> Result<(), SerializationError> {
        self.serialize_uncompressed(w)
    }
    fn uncompressed_size(&self) -> usize {
        2 * self.x.serialized_size()
    }
}
impl<K: Kind> CanonicalDeserialize for Gp<K> {
    fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> {
        TFr::deserialize(r).map(Self::new)
    }
    fn deserialize_uncompressed<R: Read>(mut r: R) -> Result<Self, SerializationError> {
        let a = TFr::deserialize(&mut r)?;
        let b = TFr::deserialize(&mut r)?;
        if a.v != b.v {
            return Err(SerializationError::InvalidData);
        }
        Ok(Self::new(a))
    }
    fn deserialize_unchecked<R: Read>(mut r: R) -> Result<Self, SerializationError> {
        let a = TFr::deserialize(&mut r)?;
        TFr::deserialize(&mut r)?;
        Ok(Self::new(a))
    }
}
impl<K: Kind> Distribution<Gp<K>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> Gp<K> {
        let v: Fr = Distribution::<Fr>::sample(&Standard, r);
        let mut t = tape();
        let id = t.lookup(&v.into_repr().0);
        if id != 0 {
            return Gp::new(TFr { v, id });
        }
        let n = t.coin;
        t.coin += 1;
        Gp::new(TFr::from_arg(t.new_var(
            format!("gcoin{}", n),
            VarKind::Gen,
            v,
        )))
    }
}
fn generator<K: Kind>() -> TFr {
    let mut t = tape();
    if let Some(v) = t.vars.iter().find(|v| v.name == K::GEN) {
        let id = v.id;
        let v = t.nodes[id as usize].val;
        return TFr { v, id };
    }
    let d = det_rand(t.seed, K::GEN);
    TFr::from_arg(t.new_var(K::GEN.to_string(), VarKind::Gen, d))
}
/// scalar given as integer limbs; its term is recovered from the registered value
fn scalar(l: &[u64]) -> TFr {
    let mut k = [0u64; 4];
    if l.len() > 4 && l[4..].iter().any(|x| *x != 0) {
        panic!("scalar longer than the model field");
    }
    for (i, x) in l.iter().take(4).enumerate() {
        k[i] = *x;
    }
    let b = BigInteger256(k);
    match Fr::from_repr(b) {
        Some(v) => TFr {
            v,
            id: tape().lookup(&k),
        },
        None => {
            // not reduced: reduce through arithmetic
            let mut r = Fr::zero();
            for x in k.iter().rev() {
                for j in (0..64).rev() {
                    r = r + r;
                    if (x >> j) & 1 == 1 {
                        r += Fr::one();
                    }
                }
            }
            TFr::cst(r)
        }
    }
}

impl<K: Kind> ProjectiveCurve for Gp<K> {
    const COFACTOR: &'static [u64] = &[1];
    type ScalarField = TFr;
    type BaseField = Fq;
    type Affine = Gp<K>;
    fn prime_subgroup_generator() -> Self {
        Self::new(generator::<K>())
    }
    fn batch_normalization(_: &mut [Self]) {}
    fn is_normalized(&self) -> bool {
        true
    }
    fn double_in_place(&mut self) -> &mut Self {
        self.x = self.x + self.x;
        self
    }
    fn add_assign_mixed(&mut self, o: &Self) {
        self.x = self.x + o.x
    }
    fn mul<S: AsRef<[u64]>>(self, s: S) -> Self {
        Self::new(self.x * scalar(s.as_ref()))
    }
    fn verif_scale(b: &Self, s: &TFr) -> Option<Self> {
        Some(Self::new(b.x * s))
    }
}
impl<K: Kind> AffineCurve for Gp<K> {
    const COFACTOR: &'static [u64] = &[1];
    type ScalarField = TFr;
    type BaseField = Fq;
    type Projective = Gp<K>;
    fn prime_subgroup_generator() -> Self {
        Self::new(generator::<K>())
    }
    fn from_random_bytes(b: &[u8]) -> Option<Self> {
        TFr::from_random_bytes(b).map(Self::new)
    }
    fn mul<S: Into<BigInteger256>>(&self, s: S) -> Self {
        let b: BigInteger256 = s.into();
        Self::new(self.x * scalar(&b.0))
    }
    fn mul_by_cofactor_to_projective(&self) -> Self {
        *self
    }
    fn mul_by_cofactor_inv(&self) -> Self {
        *self
    }
    fn verif_msm(b: &[Self], s: &[BigInteger256]) -> Option<Self> {
        let short = s.len() > b.len() && s[b.len()..].iter().any(|x| x.0 != [0; 4]);
        let mut ids: Vec<_> = b.iter().zip(s).filter(|(b, s)| b.x.id != 0 && s.0 != [0; 4]).map(|(b, _)| b.x.id).collect();
        let n = ids.len();
        ids.sort();
        ids.dedup();
        {
            let mut t = tape();
            t.msm_short += short as u32;
            t.msm_twice += (ids.len() < n) as u32;
        }
        let mut r = TFr::zero();
        for (b, s) in b.iter().zip(s) {
            r += b.x * scalar(&s.0);
        }
        Some(Self::new(r))
    }
}

/// Target group, written multiplicatively: logarithm of the element.
#[derive(Clone, Copy)]
pub struct GT {
    pub x: TFr,
    /// the additive zero of the extension field (not a group element)
    pub z: bool,
}
impl fmt::Debug for GT {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "T[{:?}]", self.x)
    }
}
impl fmt::Display for GT {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "T[{}]", self.x)
    }
}
impl GT {
    pub fn g(x: TFr) -> Self {
        GT { x, z: false }
    }
}
impl PartialEq for GT {
    fn eq(&self, o: &Self) -> bool {
        if self.z || o.z {
            return self.z == o.z;
        }
        log_eq(&self.x, &o.x)
    }
}
impl Eq for GT {}
impl PartialOrd for GT {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for GT {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.z, self.x).cmp(&(o.z, o.x))
    }
}
impl Hash for GT {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.x.hash(h)
    }
}
impl Default for GT {
    fn default() -> Self {
        GT {
            x: TFr::zero(),
            z: true,
        }
    }
}
impl Zeroize for GT {
    fn zeroize(&mut self) {
        *self = Self::default()
    }
}
fn no_add(a: &GT, b: &GT) -> GT {
    if a.z {
        *b
    } else if b.z {
        *a
    } else {
        panic!("addition in the target field is outside the pairing contract")
    }
}
fn gmul(a: &GT, b: &GT) -> GT {
    if a.z || b.z {
        GT::default()
    } else {
        GT::g(a.x + b.x)
    }
}
fn gdiv(a: &GT, b: &GT) -> GT {
    if a.z || b.z {
        GT::default()
    } else {
        GT::g(a.x - b.x)
    }
}
macro_rules! top {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $e:expr) => {
        impl $tr<GT> for GT {
            type Output = GT;
            fn $f(self, b: GT) -> GT {
                $e(&self, &b)
            }
        }
        impl<'a> $tr<&'a GT> for GT {
            type Output = GT;
            fn $f(self, b: &'a GT) -> GT {
                $e(&self, b)
            }
        }
        impl $tra<GT> for GT {
            fn $fa(&mut self, b: GT) {
                *self = $e(self, &b)
            }
        }
        impl<'a> $tra<&'a GT> for GT {
            fn $fa(&mut self, b: &'a GT) {
                *self = $e(self, b)
            }
        }
    };
}
top!(Add, add, AddAssign, add_assign, no_add);
top!(Sub, sub, SubAssign, sub_assign, no_add);
top!(Mul, mul, MulAssign, mul_assign, gmul);
top!(Div, div, DivAssign, div_assign, gdiv);
impl Neg for GT {
    type Output = GT;
    fn neg(self) -> GT {
        panic!("negation in the target field is outside the pairing contract")
    }
}
impl Zero for GT {
    fn zero() -> Self {
        GT::default()
    }
    fn is_zero(&self) -> bool {
        self.z
    }
}
impl One for GT {
    fn one() -> Self {
        GT::g(TFr::zero())
    }
    fn is_one(&self) -> bool {
        !self.z && self.x.is_zero()
    }
}
impl core::iter::Sum<GT> for GT {
    fn sum<I: Iterator<Item = GT>>(i: I) -> Self {
        i.fold(GT::zero(), |a, b| a + b)
    }
}
impl<'a> core::iter::Sum<&'a GT> for GT {
    fn sum<I: Iterator<Item = &'a GT>>(i: I) -> Self {
        i.fold(GT::zero(), |a, b| a + b)
    }
}
impl core::iter::Product<GT> for GT {
    fn product<I: Iterator<Item = GT>>(i: I) -> Self {
        i.fold(GT::one(), |a, b| a * b)
    }
}
impl<'a> core::iter::Product<&'a GT> for GT {
    fn product<I: Iterator<Item = &'a GT>>(i: I) -> Self {
        i.fold(GT::one(), |a, b| a * b)
    }
}
macro_rules! gt_from {
    ($($t:ty),*) => {$(impl From<$t> for GT { fn from(x: $t) -> Self { if x == (0 as u8).into() { GT::zero() } else { GT::one() } } })*};
}
gt_from!(u128, u64, u32, u16, u8);
impl From<bool> for GT {
    fn from(x: bool) -> Self {
        if x {
            GT::one()
        } else {
            GT::zero()
        }
    }
}
impl ToBytes for GT {
    fn write<W: Write>(&self, w: W) -> IoResult<()> {
        self.x.write(w)
    }
}
impl FromBytes for GT {
    fn read<R: Read>(r: R) -> IoResult<Self> {
        TFr::read(r).map(GT::g)
    }
}
impl CanonicalSerialize for GT {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> {
        self.x.serialize(w)
    }
    fn serialized_size(&self) -> usize {
        self.x.serialized_size()
    }
}
impl CanonicalSerializeWithFlags for GT {
    fn serialize_with_flags<W: Write, F: Flags>(
        &self,
        w: W,
        f: F,
    ) -> Result<(), SerializationError> {
        self.x.serialize_with_flags(w, f)
    }
    fn serialized_size_with_flags<F: Flags>(&self) -> usize {
        self.x.serialized_size_with_flags::<F>()
    }
}
impl CanonicalDeserialize for GT {
    fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> {
        TFr::deserialize(r).map(GT::g)
    }
}
impl CanonicalDeserializeWithFlags for GT {
    fn deserialize_with_flags<R: Read, F: Flags>(r: R) -> Result<(Self, F), SerializationError> {
        TFr::deserialize_with_flags(r).map(|(x, f)| (GT::g(x), f))
    }
}
impl Distribution<GT> for Standard {
    fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> GT {
        GT::g(Distribution::<TFr>::sample(&Standard, r))
    }
}
impl Field for GT {
    type BasePrimeField = Fq;
    fn extension_degree() -> u64 {
        12
    }
    fn from_base_prime_field_elems(_: &[Fq]) -> Option<Self> {
        None
    }
    fn double(&self) -> Self {
        no_add(self, self)
    }
    fn double_in_place(&mut self) -> &mut Self {
        *self = self.double();
        self
    }
    fn from_random_bytes_with_flags<F: Flags>(b: &[u8]) -> Option<(Self, F)> {
        TFr::from_random_bytes_with_flags(b).map(|(x, f)| (GT::g(x), f))
    }
    fn square(&self) -> Self {
        gmul(self, self)
    }
    fn square_in_place(&mut self) -> &mut Self {
        *self = self.square();
        self
    }
    fn inverse(&self) -> Option<Self> {
        if self.z {
            None
        } else {
            Some(GT::g(-self.x))
        }
    }
    fn inverse_in_place(&mut self) -> Option<&mut Self> {
        match self.inverse() {
            Some(i) => {
                *self = i;
                Some(self)
            }
            None => None,
        }
    }
    fn frobenius_map(&mut self, _: usize) {}
    fn pow<S: AsRef<[u64]>>(&self, e: S) -> Self {
        GT {
            x: self.x * scalar(e.as_ref()),
            z: self.z,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Prep<K: Kind>(pub Gp<K>);
impl<K: Kind> Default for Prep<K> {
    fn default() -> Self {
        Prep(Gp::default())
    }
}
impl<K: Kind> From<Gp<K>> for Prep<K> {
    fn from(g: Gp<K>) -> Self {
        Prep(g)
    }
}
impl<K: Kind> ToBytes for Prep<K> {
    fn write<W: Write>(&self, w: W) -> IoResult<()> {
        self.0.write(w)
    }
}

/// The model pairing engine.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct MP;
impl PairingEngine for MP {
    type Fr = TFr;
    type G1Projective = G1;
    type G1Affine = G1;
    type G1Prepared = Prep<K1>;
    type G2Projective = G2;
    type G2Affine = G2;
    type G2Prepared = Prep<K2>;
    type Fq = Fq;
    type Fqe = Fq;
    type Fqk = GT;
    fn miller_loop<'a, I>(i: I) -> GT
    where
        I: IntoIterator<Item = &'a (Prep<K1>, Prep<K2>)>,
    {
        let mut r = TFr::zero();
        for (a, b) in i {
            r += (a.0).x * (b.0).x;
        }
        GT::g(r)
    }
    fn final_exponentiation(f: &GT) -> Option<GT> {
        if f.z {
            None
        } else {
            Some(*f)
        }
    }
}

//! The model scalar field: a prime field element carrying its tape node.  It implements the
//! same ark-ff traits the code under verification is generic over.
use crate::tape::*;
use ark_bls12_381::{Fr, FrParameters};
use ark_ff::fields::LegendreSymbol;
use ark_ff::{
    BigInteger256, Field, FromBytes, FftField, One, PrimeField, SquareRootField, ToBytes, Zero,
};
use ark_serialize::*;
use ark_std::io::{Read, Result as IoResult, Write};
use rand::distributions::{Distribution, Standard};
use rand::Rng;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::ops::*;
use std::str::FromStr;
use zeroize::Zeroize;

#[derive(Clone, Copy)]
pub struct TFr {
    pub v: Fr,
    pub id: Id,
}

impl TFr {
    pub const fn cst(v: Fr) -> Self {
        TFr { v, id: 0 }
    }
    pub fn arg(&self) -> Arg {
        Arg {
            id: self.id,
            v: self.v,
        }
    }
    pub fn from_arg(a: Arg) -> Self {
        TFr { v: a.v, id: a.id }
    }
    /// an input variable of the obligation; random unless the explorer assigned a value
    pub fn input(name: &str) -> Self {
        let mut t = tape();
        let d = det_rand(t.seed, name);
        Self::from_arg(t.new_var(name.to_string(), VarKind::Input, d))
    }
    pub fn input_val(name: &str, v: Fr) -> Self {
        let mut t = tape();
        Self::from_arg(t.new_var(name.to_string(), VarKind::Input, v))
    }
    pub fn var(name: &str, kind: VarKind) -> Self {
        let mut t = tape();
        let d = det_rand(t.seed, name);
        Self::from_arg(t.new_var(name.to_string(), kind, d))
    }
    /// comparison that is not a branch of the code under verification
    pub fn same(&self, o: &Self) -> bool {
        self.v == o.v
    }
}

fn op(o: Op, a: &TFr, b: &TFr, v: Fr) -> TFr {
    if a.id == 0 && b.id == 0 {
        return TFr { v, id: 0 };
    }
    // neutral elements of untraced constants
    match o {
        Op::Add => {
            if a.id == 0 && a.v.is_zero() {
                return *b;
            }
            if b.id == 0 && b.v.is_zero() {
                return *a;
            }
        }
        Op::Sub => {
            if b.id == 0 && b.v.is_zero() {
                return *a;
            }
            if a.id == b.id {
                return TFr::cst(Fr::zero());
            }
        }
        Op::Mul => {
            if (a.id == 0 && a.v.is_zero()) || (b.id == 0 && b.v.is_zero()) {
                return TFr::cst(Fr::zero());
            }
            if a.id == 0 && a.v.is_one() {
                return *b;
            }
            if b.id == 0 && b.v.is_one() {
                return *a;
            }
        }
        _ => {}
    }
    let id = tape().push(o, a.arg(), b.arg(), v);
    TFr { v, id }
}

pub fn log_eq(a: &TFr, b: &TFr) -> bool {
    let eq = a.v == b.v;
    if (a.id != 0 || b.id != 0) && a.id != b.id {
        let mut t = tape();
        if !t.off {
            t.conds.push(Cond {
                a: a.arg(),
                b: b.arg(),
                eq,
            });
        }
    }
    eq
}

impl PartialEq for TFr {
    fn eq(&self, o: &Self) -> bool {
        log_eq(self, o)
    }
}
impl Eq for TFr {}
impl PartialOrd for TFr {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for TFr {
    fn cmp(&self, o: &Self) -> Ordering {
        self.v.cmp(&o.v)
    }
}
impl Hash for TFr {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.v.hash(h)
    }
}
impl fmt::Debug for TFr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.v.into_repr())
    }
}
impl fmt::Display for TFr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.v)
    }
}
impl Default for TFr {
    fn default() -> Self {
        TFr::cst(Fr::zero())
    }
}
impl Zeroize for TFr {
    fn zeroize(&mut self) {
        *self = TFr::default()
    }
}

macro_rules! binop {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $o:expr, $e:expr) => {
        impl $tr<TFr> for TFr {
            type Output = TFr;
            fn $f(self, b: TFr) -> TFr {
                let g: fn(&Fr, &Fr) -> Fr = $e;
                op($o, &self, &b, g(&self.v, &b.v))
            }
        }
        impl<'a> $tr<&'a TFr> for TFr {
            type Output = TFr;
            fn $f(self, b: &'a TFr) -> TFr {
                $tr::$f(self, *b)
            }
        }
        impl<'a> $tr<&'a mut TFr> for TFr {
            type Output = TFr;
            fn $f(self, b: &'a mut TFr) -> TFr {
                $tr::$f(self, *b)
            }
        }
        impl $tra<TFr> for TFr {
            fn $fa(&mut self, b: TFr) {
                *self = $tr::$f(*self, b)
            }
        }
        impl<'a> $tra<&'a TFr> for TFr {
            fn $fa(&mut self, b: &'a TFr) {
                *self = $tr::$f(*self, *b)
            }
        }
        impl<'a> $tra<&'a mut TFr> for TFr {
            fn $fa(&mut self, b: &'a mut TFr) {
                *self = $tr::$f(*self, *b)
            }
        }
    };
}
binop!(Add, add, AddAssign, add_assign, Op::Add, |a, b| *a + b);
binop!(Sub, sub, SubAssign, sub_assign, Op::Sub, |a, b| *a - b);
binop!(Mul, mul, MulAssign, mul_assign, Op::Mul, |a, b| *a * b);

fn inv(a: &TFr) -> TFr {
    let v = a.v.inverse().expect("division by zero");
    if a.id == 0 {
        return TFr::cst(v);
    }
    TFr {
        v,
        id: tape().push(Op::Inv, a.arg(), zero_arg(), v),
    }
}
impl Div<TFr> for TFr {
    type Output = TFr;
    fn div(self, b: TFr) -> TFr {
        self * inv(&b)
    }
}
impl<'a> Div<&'a TFr> for TFr {
    type Output = TFr;
    fn div(self, b: &'a TFr) -> TFr {
        self * inv(b)
    }
}
impl<'a> Div<&'a mut TFr> for TFr {
    type Output = TFr;
    fn div(self, b: &'a mut TFr) -> TFr {
        self * inv(b)
    }
}
impl DivAssign<TFr> for TFr {
    fn div_assign(&mut self, b: TFr) {
        *self = *self / b
    }
}
impl<'a> DivAssign<&'a TFr> for TFr {
    fn div_assign(&mut self, b: &'a TFr) {
        *self = *self / *b
    }
}
impl<'a> DivAssign<&'a mut TFr> for TFr {
    fn div_assign(&mut self, b: &'a mut TFr) {
        *self = *self / *b
    }
}
impl Neg for TFr {
    type Output = TFr;
    fn neg(self) -> TFr {
        TFr::cst(Fr::zero()) - self
    }
}
impl Zero for TFr {
    fn zero() -> Self {
        TFr::cst(Fr::zero())
    }
    fn is_zero(&self) -> bool {
        log_eq(self, &TFr::cst(Fr::zero()))
    }
}
impl One for TFr {
    fn one() -> Self {
        TFr::cst(Fr::one())
    }
    fn is_one(&self) -> bool {
        log_eq(self, &TFr::cst(Fr::one()))
    }
}
impl core::iter::Sum<TFr> for TFr {
    fn sum<I: Iterator<Item = TFr>>(i: I) -> Self {
        i.fold(TFr::zero(), |a, b| a + b)
    }
}
impl<'a> core::iter::Sum<&'a TFr> for TFr {
    fn sum<I: Iterator<Item = &'a TFr>>(i: I) -> Self {
        i.fold(TFr::zero(), |a, b| a + b)
    }
}
impl core::iter::Product<TFr> for TFr {
    fn product<I: Iterator<Item = TFr>>(i: I) -> Self {
        i.fold(TFr::one(), |a, b| a * b)
    }
}
impl<'a> core::iter::Product<&'a TFr> for TFr {
    fn product<I: Iterator<Item = &'a TFr>>(i: I) -> Self {
        i.fold(TFr::one(), |a, b| a * b)
    }
}
macro_rules! from_int {
    ($($t:ty),*) => {$(impl From<$t> for TFr { fn from(x: $t) -> Self { TFr::cst(Fr::from(x)) } })*};
}
from_int!(u64, u32, u16, u8, bool);
impl From<u128> for TFr {
    fn from(x: u128) -> Self {
        let v = Fr::from(x);
        if x >> 64 != 0 {
            if let Some(c) = seeded(|m| <u128 as ark_ff::UniformRand>::rand(m), |w| *w == x, v) {
                return c;
            }
        }
        TFr::cst(v)
    }
}

impl From<BigInteger256> for TFr {
    fn from(b: BigInteger256) -> Self {
        let id = tape().lookup(&b.0);
        TFr {
            v: Fr::from(b),
            id,
        }
    }
}
impl From<TFr> for BigInteger256 {
    fn from(x: TFr) -> BigInteger256 {
        x.into_repr()
    }
}
impl FromStr for TFr {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        Ok(TFr::cst(Fr::from_str(s).map_err(|_| ())?))
    }
}
impl ToBytes for TFr {
    fn write<W: Write>(&self, w: W) -> IoResult<()> {
        tape().register(self.arg());
        self.v.write(w)
    }
}
fn lookup(v: Fr) -> TFr {
    let id = tape().lookup(&v.into_repr().0);
    TFr { v, id }
}
impl FromBytes for TFr {
    fn read<R: Read>(r: R) -> IoResult<Self> {
        Fr::read(r).map(lookup)
    }
}
impl CanonicalSerialize for TFr {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> {
        tape().register(self.arg());
        self.v.serialize(w)
    }
    fn serialized_size(&self) -> usize {
        self.v.serialized_size()
    }
}
impl CanonicalSerializeWithFlags for TFr {
    fn serialize_with_flags<W: Write, F: Flags>(
        &self,
        w: W,
        f: F,
    ) -> Result<(), SerializationError> {
        tape().register(self.arg());
        self.v.serialize_with_flags(w, f)
    }
    fn serialized_size_with_flags<F: Flags>(&self) -> usize {
        self.v.serialized_size_with_flags::<F>()
    }
}
impl CanonicalDeserialize for TFr {
    fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> {
        Fr::deserialize(r).map(lookup)
    }
}
impl CanonicalDeserializeWithFlags for TFr {
    fn deserialize_with_flags<R: Read, F: Flags>(r: R) -> Result<(Self, F), SerializationError> {
        Fr::deserialize_with_flags(r).map(|(v, f)| (lookup(v), f))
    }
}
thread_local! { static MIRROR: std::cell::RefCell<(usize, Vec<u8>, Option<rand_chacha::ChaChaRng>, usize)> = std::cell::RefCell::new((0, vec![], None, 0)); }
/// Is the value the next one drawn from a ChaCha generator seeded with the last hash output?
/// Then it is a Fiat-Shamir challenge.
fn seeded<T>(draw: impl FnOnce(&mut rand_chacha::ChaChaRng) -> T, is: impl FnOnce(&T) -> bool, v: Fr) -> Option<TFr> {
    use rand::SeedableRng;
    let (k, b) = merlin::verif_last();
    if b.len() != 32 {
        return None;
    }
    MIRROR.with(|m| {
        let mut m = m.borrow_mut();
        if m.0 != k || m.1 != b || m.2.is_none() {
            let mut s = [0u8; 32];
            s.copy_from_slice(&b);
            *m = (k, b, Some(rand_chacha::ChaChaRng::from_seed(s)), 0);
        }
        let mut g = m.2.clone().unwrap();
        if !is(&draw(&mut g)) {
            return None;
        }
        m.2 = Some(g);
        m.3 += 1;
        let mut t = tape();
        let id = t.lookup(&v.into_repr().0);
        if id != 0 {
            return Some(TFr { v, id });
        }
        Some(TFr::from_arg(t.new_var(format!("fs{}.{}", k - 1, m.3), VarKind::Challenge, v)))
    })
}
impl Distribution<TFr> for Standard {
    fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> TFr {
        let v: Fr = Distribution::<Fr>::sample(&Standard, r);
        if let Some(c) = seeded(|m| Distribution::<Fr>::sample(&Standard, m), |w| *w == v, v) {
            return c;
        }
        let mut t = tape();
        // the same random value is the same coin (a replayed generator)
        let id = t.lookup(&v.into_repr().0);
        if id != 0 {
            return TFr { v, id };
        }
        let n = t.coin;
        t.coin += 1;
        TFr::from_arg(t.new_var(format!("coin{}", n), VarKind::Coin, v))
    }
}

impl Field for TFr {
    type BasePrimeField = TFr;
    fn extension_degree() -> u64 {
        1
    }
    fn from_base_prime_field_elems(e: &[TFr]) -> Option<Self> {
        if e.len() == 1 {
            Some(e[0])
        } else {
            None
        }
    }
    fn characteristic<'a>() -> &'a [u64] {
        Fr::characteristic()
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn double_in_place(&mut self) -> &mut Self {
        *self = self.double();
        self
    }
    fn from_random_bytes_with_flags<F: Flags>(bytes: &[u8]) -> Option<(Self, F)> {
        Fr::from_random_bytes_with_flags::<F>(bytes).map(|(v, f)| {
            let mut t = tape();
            let k = v.into_repr().0;
            let id = t.lookup(&k);
            if id != 0 || small(&k) {
                (TFr { v, id }, f)
            } else {
                // named after the transcript operation it comes from
                let (k, b) = merlin::verif_last();
                let n = t.chal;
                t.chal += 1;
                let name = if b.len() >= 31 && bytes.len() >= 31 && b[..31] == bytes[..31] { format!("fs{}.0", k - 1) } else { format!("chal{}", n) };
                (
                    TFr::from_arg(t.new_var(name, VarKind::Challenge, v)),
                    f,
                )
            }
        })
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn square_in_place(&mut self) -> &mut Self {
        *self = self.square();
        self
    }
    fn inverse(&self) -> Option<Self> {
        if self.is_zero() {
            None
        } else {
            Some(inv(self))
        }
    }
    fn inverse_in_place(&mut self) -> Option<&mut Self> {
        match self.inverse() {
            Some(i) => {
                *self = i;
                Some(self)
            }
            None => None,
        }
    }
    fn frobenius_map(&mut self, _: usize) {}
}
impl FftField for TFr {
    type FftParams = FrParameters;
    fn two_adic_root_of_unity() -> Self {
        TFr::cst(Fr::two_adic_root_of_unity())
    }
    fn large_subgroup_root_of_unity() -> Option<Self> {
        Fr::large_subgroup_root_of_unity().map(TFr::cst)
    }
    fn multiplicative_generator() -> Self {
        TFr::cst(Fr::multiplicative_generator())
    }
}
impl PrimeField for TFr {
    type Params = FrParameters;
    type BigInt = BigInteger256;
    fn from_repr(r: BigInteger256) -> Option<Self> {
        Fr::from_repr(r).map(lookup)
    }
    fn into_repr(&self) -> BigInteger256 {
        let r = self.v.into_repr();
        if self.id != 0 {
            tape().register(self.arg());
        }
        r
    }
}
impl SquareRootField for TFr {
    fn legendre(&self) -> LegendreSymbol {
        self.v.legendre()
    }
    fn sqrt(&self) -> Option<Self> {
        self.v.sqrt().map(TFr::cst)
    }
    fn sqrt_in_place(&mut self) -> Option<&mut Self> {
        match self.sqrt() {
            Some(s) => {
                *self = s;
                Some(self)
            }
            None => None,
        }
    }
}

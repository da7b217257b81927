global size_of usize == 8;

pub open spec fn is_pow2(n: int) -> bool { exists|k: nat| n == #[trigger] pow(2, k) }

// ---- assumed contracts of the standard library (trusted) ----
pub assume_specification [usize::pow] (b: usize, e: u32) -> (r: usize)
    requires pow(b as int, e as nat) <= usize::MAX,
    ensures r == pow(b as int, e as nat);
pub assume_specification [usize::is_power_of_two] (x: usize) -> (r: bool)
    ensures r == is_pow2(x as int);

// ---- assert! and panic! do not return: partial correctness ----
#[verifier::external_body]
pub fn vassert(c: bool)
    ensures c,
{ assert!(c) }
#[verifier::external_body]
pub fn vpanic<T>() -> (r: T)
    ensures false,
{ panic!() }

// ---- verified helpers the unfolding uses ----
pub fn vmin(a: usize, b: usize) -> (r: usize)
    ensures r == if a <= b { a } else { b },
{ if a <= b { a } else { b } }
pub fn vslice<T>(s: &[T], lo: usize, hi: usize) -> (r: &[T])
    requires lo <= hi <= s.len(),
    ensures r@ == s@.subrange(lo as int, hi as int),
{ vstd::slice::slice_subrange(s, lo, hi) }
pub fn vsub0(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a - b } else { 0 } { if a >= b { a - b } else { 0 } }

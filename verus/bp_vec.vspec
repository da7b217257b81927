@unit bp_vec
@prelude base field vec
@types G::Fr=F
@include sums.rs
@include ring.rs
@include mats0.rs
@include mats.rs
@include vecpoly.rs
@item r1cs/src/lib.rs Index
@item bulletproofs/src/lib.rs VecPoly5
@item bulletproofs/src/lib.rs Poly10
@ring horner10(x, a2, a3, a4, a5, a6, a7, a8, a9, a10): x*(x*(a2 + x*(a3 + x*(a4 + x*(a5 + x*(a6 + x*(a7 + x*(a8 + x*(a9 + x*a10))))))))) == x*x*(a2 + a3*x + a4*(x*x) + a5*(x*x*x) + a6*(x*x*x*x) + a7*(x*x*x*x*x) + a8*(x*x*x*x*x*x) + a9*(x*x*x*x*x*x*x) + a10*(x*x*x*x*x*x*x*x))
@ring cross(x, l2, l3, l4, l5, r0, r1, r2, r5): (0 + 0*x + l2*(x*x) + l3*(x*x*x) + l4*(x*x*x*x) + l5*(x*x*x*x*x)) * (r0 + r1*x + r2*(x*x) + 0*(x*x*x) + 0*(x*x*x*x) + r5*(x*x*x*x*x)) == x*x*(l2*r0 + (l2*r1 + l3*r0)*x + ((l2*r2 + l3*r1) + l4*r0)*(x*x) + ((l3*r2 + l4*r1) + l5*r0)*(x*x*x) + (l4*r2 + l5*r1)*(x*x*x*x) + (l2*r5 + l5*r2)*(x*x*x*x*x) + l3*r5*(x*x*x*x*x*x) + l4*r5*(x*x*x*x*x*x*x) + l5*r5*(x*x*x*x*x*x*x*x))
@fn vector_matrix_product
@file bulletproofs/src/lib.rs
@header
pub fn vector_matrix_product(v: &Vec<F>, m: &Vec<Vec<F>>) -> (ret: Vec<F>)
    requires m.len() > 0,
    ensures v.len() == m.len(), ret.len() == m[0].len(),
        forall|c: int| 0 <= c < ret.len() ==> ret[c] == vsum(colterm(v@, m@, c), v.len() as int),
@inv 0
        forall|r: int| 0 <= r < k0 ==> m[r].len() == n,
@inv 1
        out.len() == n, m.len() == v.len(), forall|r: int| 0 <= r < m.len() ==> m[r].len() == n,
        forall|c: int| 0 <= c < k1 ==> out[c] == vsum(colterm(v@, m@, c), v.len() as int),
        forall|c: int| k1 <= c < n ==> out[c] == f0(),
@inv 2
        out.len() == n, m.len() == v.len(), forall|r: int| 0 <= r < m.len() ==> m[r].len() == n,
        forall|c: int| 0 <= c < k1 ==> out[c] == vsum(colterm(v@, m@, c), v.len() as int),
        forall|c: int| k1 < c < n ==> out[c] == f0(),
        out[k1 as int] == vsum(colterm(v@, m@, k1 as int), k2 as int),
@fn vector_map_product
@file bulletproofs/src/lib.rs
@header
pub fn vector_map_product(v: &Vec<F>, ms: &VMap, n: usize) -> (ret: Vec<F>)
    requires n <= 0x1_0000_0000, v.len() <= 0x1_0000_0000,
    ensures ret.len() == n, forall|c: int| 0 <= c < n ==> ret[c] == vsum(|r: int| fmul(v[r], ms.at(r, c)), v.len() as int),
@inv 0
        out.len() == n, n <= 0x1_0000_0000, v.len() <= 0x1_0000_0000,
        forall|c: int| 0 <= c < k0 ==> out[c] == vsum(|r: int| fmul(v[r], ms.at(r, c)), v.len() as int),
        forall|c: int| k0 <= c < n ==> out[c] == f0(), zero == f0(),
@inv 1
        out.len() == n, n <= 0x1_0000_0000, v.len() <= 0x1_0000_0000,
        forall|c: int| 0 <= c < k0 ==> out[c] == vsum(|r: int| fmul(v[r], ms.at(r, c)), v.len() as int),
        forall|c: int| k0 < c < n ==> out[c] == f0(), zero == f0(),
        out[k0 as int] == vsum(|r: int| fmul(v[r], ms.at(r, k0 as int)), k1 as int),
@fn vector_product
@file bulletproofs/src/lib.rs
@header
pub fn vector_product(v: &Vec<F>, ms: &Vec<F>, m: usize, n: usize) -> (ret: Vec<F>)
    requires ms.len() >= m,
    ensures v.len() == n, ret.len() == m, forall|c: int| 0 <= c < m ==> ret[c] == (if c < n { fmul(v[c], ms[c]) } else { f0() }),
@inv 0
        out.len() == m, v.len() == n, ms.len() >= m, zero == f0(),
        forall|c: int| 0 <= c < k0 ==> out[c] == (if c < n { fmul(v[c], ms[c]) } else { f0() }),
        forall|c: int| k0 <= c < m ==> out[c] == f0(),
@inv 1
        out.len() == m, v.len() == n, ms.len() >= m, zero == f0(),
        forall|c: int| 0 <= c < k0 ==> out[c] == (if c < n { fmul(v[c], ms[c]) } else { f0() }),
        forall|c: int| k0 < c < m ==> out[c] == f0(),
        out[k0 as int] == (if k0 < k1 { fmul(v[k0 as int], ms[k0 as int]) } else { f0() }),
@fn vector_matrix_product_t
@file bulletproofs/src/lib.rs
@header
pub fn vector_matrix_product_t(v: &Vec<F>, m: &Vec<Vec<F>>) -> (ret: Vec<F>)
    ensures ret.len() == m.len(), forall|r: int| 0 <= r < m.len() ==> (#[trigger] m[r]).len() == v.len(), forall|r: int| 0 <= r < m.len() ==> #[trigger] ret[r] == vsum(term(m[r]@, v@), v.len() as int),
@inv 0
        out.len() == m.len(), forall|r: int| 0 <= r < k0 ==> (#[trigger] m[r]).len() == v.len(), forall|r: int| 0 <= r < k0 ==> #[trigger] out[r] == vsum(term(m[r]@, v@), v.len() as int),
        forall|r: int| k0 <= r < m.len() ==> out[r] == f0(),
@inv 1
        out.len() == m.len(), forall|r: int| 0 <= r < k0 ==> (#[trigger] m[r]).len() == v.len(), forall|r: int| 0 <= r < k0 ==> #[trigger] out[r] == vsum(term(m[r]@, v@), v.len() as int),
        forall|r: int| k0 < r < m.len() ==> out[r] == f0(), m[k0 as int].len() == v.len(),
        out[k0 as int] == vsum(term(m[k0 as int]@, v@), k1 as int),
@fn hadamard_product
@file bulletproofs/src/lib.rs
@header
pub fn hadamard_product(a: &[F], b: &[F]) -> (ret: Vec<F>)
    ensures a.len() == b.len(), ret.len() == a.len(), forall|i: int| 0 <= i < a.len() ==> ret[i] == fmul(a[i], b[i]),
@inv 0
        a.len() == b.len(), out.len() == a.len(), forall|i: int| 0 <= i < k0 ==> out[i] == fmul(a[i], b[i]),
@fn inner_product
@file bulletproofs/src/lib.rs
@header
pub fn inner_product(a: &[F], b: &[F]) -> (ret: F)
    ensures a.len() == b.len(), ret == dot(a@, b@),
@inv 0
        a.len() == b.len(), out == vsum(term(a@, b@), k0 as int),
@ring horner5(x, a0, a1, a2, a3, a4, a5): a0 + x*(a1 + x*(a2 + x*(a3 + x*(a4 + x*a5)))) == a0 + a1*x + a2*(x*x) + a3*(x*x*x) + a4*(x*x*x*x) + a5*(x*x*x*x*x)
@fn vp5_zero
@file bulletproofs/src/lib.rs
@impl VecPoly5<F>
@name zero
@wrap impl VecPoly5 {
@header
pub fn zero(n: usize) -> (ret: VecPoly5)
    ensures vp_ok(ret, n as int), forall|k: int, i: int| 0 <= k < 6 && 0 <= i < n ==> #[trigger] vp(ret, k)[i] == f0(),
@fn vp5_eval
@file bulletproofs/src/lib.rs
@impl VecPoly5<F>
@name eval
@wrap impl VecPoly5 {
@header
pub fn eval(&self, x: F) -> (ret: Vec<F>)
    requires vp_ok(*self, self.0.len() as int),
    ensures ret@ == vp_at(*self, x),
@inv 0
        out.len() == n, n == self.0.len(), vp_ok(*self, n as int), forall|i: int| 0 <= i < k0 ==> out[i] == vp_at(*self, x)[i],
@at ls0
proof { let i = k0 as int; let p = *self; horner5(x, p.0[i], p.1[i], p.2[i], p.3[i], p.4[i], p.5[i]); }
@at fe
proof { assert(ret_@ =~= vp_at(*self, x)); }
@fn vp5_sip
@file bulletproofs/src/lib.rs
@impl VecPoly5<F>
@name special_inner_product
@wrap impl VecPoly5 {
@header
pub fn special_inner_product(lhs: &Self, rhs: &Self) -> (ret: Poly10)
    requires vp_ok(*lhs, lhs.0.len() as int), vp_ok(*rhs, lhs.0.len() as int),
    ensures forall|x: F| vp_low(*lhs) && vp_gap(*rhs) ==> #[trigger] p10(ret, x) == dot(vp_at(*lhs, x), vp_at(*rhs, x)),
@at fe
proof { assert forall|x: F| vp_low(*lhs) && vp_gap(*rhs) implies #[trigger] p10(ret_, x) == dot(vp_at(*lhs, x), vp_at(*rhs, x)) by { lemma_sip(*lhs, *rhs, x); } }
@fn p10_eval
@file bulletproofs/src/lib.rs
@impl Poly10<F>
@name eval
@wrap impl Poly10 {
@header
pub fn eval(&self, x: F) -> (ret: F)
    ensures ret == p10(*self, x),
@at fs
proof { let p = *self; horner10(x, p.t2, p.t3, p.t4, p.t5, p.t6, p.t7, p.t8, p.t9, p.t10); }

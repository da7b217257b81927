@unit spartan_poly
@prelude base field vec
@types G::Fr=F
@include sums.rs
@include mle.rs
@include sparse.rs
@item r1cs/src/lib.rs Index
@fn eval_eq
@file spartan/src/polynomial.rs
@header
pub fn eval_eq(rx: &Vec<F>) -> (ret: Vec<F>)
    requires rx.len() < 32,
    ensures ret.len() == two(rx.len() as int), forall|j: int| 0 <= j < ret.len() ==> ret[j] == eqs(rx@, j),
@at fs
proof { lemma_two(rx.len() as nat); }
@at lb0
proof { lemma_two(0); assert(rx@.subrange(rx.len() as int, rx.len() as int).len() == 0); }
@inv 0
        size == two(k0 as int), evals.len() == two(rx.len() as int),
        forall|j: int| 0 <= j < size ==> evals[j] == eqs(rx@.subrange(rx.len() - k0, rx.len() as int), j),
@at ls0
let ghost before = evals@;
proof {
    lemma_two(k0 as nat);
    lemma_two(rx.len() as nat);
    vstd::arithmetic::power::lemma_pow_increases(2, k0 as nat + 1, rx.len() as nat);
}
@inv 1
        evals.len() == two(rx.len() as int),
        forall|m: int| 0 <= m < k1 ==> evals[m] == fmul(fsub(f1(), scalar), before[m]),
        forall|m: int| k1 <= m < size ==> evals[m] == before[m],
        forall|m: int| 0 <= m < k1 ==> evals[size + m] == fmul(scalar, before[m]),
@at le0
proof {
    let old_s = rx@.subrange(rx.len() - k0, rx.len() as int);
    let new_s = rx@.subrange(rx.len() - k0 - 1, rx.len() as int);
    assert(new_s.subrange(1, new_s.len() as int) =~= old_s);
    assert(new_s[0] == scalar);
    assert forall|j: int| 0 <= j < 2 * two(k0 as int) implies evals[j] == eqs(new_s, j) by {
        if j >= two(k0 as int) { assert(evals[two(k0 as int) + (j - two(k0 as int))] == fmul(scalar, before[j - two(k0 as int)])); }
    }
}
@at fe
proof { assert(rx@.subrange(0, rx.len() as int) =~= rx@); }
@fn eval_eq_x_y
@file spartan/src/polynomial.rs
@header
pub fn eval_eq_x_y(rx: &Vec<F>, ry: &Vec<F>) -> (ret: F)
    ensures rx.len() == ry.len(), ret == vprod(eqxy_term(rx@, ry@), rx.len() as int),
@inv 0
        rx.len() == ry.len(), acc0 == vprod(eqxy_term(rx@, ry@), k0 as int),
@fn sparse_evaluate_value
@file spartan/src/polynomial.rs
@header
pub fn sparse_evaluate_value(value: &Vec<F>, r: &Vec<F>) -> (ret: F)
    requires r.len() < 64, value.len() <= two(r.len() as int),
    ensures ret == mle(value@, r@),
@inv 0
        acc0 == vsum(|i: int| fmul(value[i], eqs(r@, i)), k0 as int),
@inv 1
        acc1.len() == k1, forall|m: int| 0 <= m < k1 ==> acc1[m] == bit(i as int, r.len() - 1 - m),
@at le1
proof { lemma_bit_test(i, (r.len() - k1 - 1) as usize); }
@inv 2
        acc2 == vprod(bitprod(r@, i as int), k2 as int),
@at let:eq
proof { lemma_bitprod(r@, i as int); }
@at le0
proof { let f = |i: int| fmul(value[i], eqs(r@, i)); assert(vsum(f, k0 + 1) == fadd(vsum(f, k0 as int), f(k0 as int))); }
@fn evaluate_mle
@file spartan/src/polynomial.rs
@refs m_vec
@header
pub fn evaluate_mle(m_matrix: &Vec<Vec<(F, Index)>>, rx: &Vec<F>, ry: &Vec<F>) -> (ret: F)
    requires rx.len() < 32, ry.len() < 32, m_matrix.len() <= two(rx.len() as int), cols_ok(m_matrix@, two(ry.len() as int)),
    ensures ret == mat_sum(m_matrix@, rx@, ry@, m_matrix.len() as int),
@inv 0
        sum == mat_sum(m_matrix@, rx@, ry@, k0 as int),
@inv 1
        sum == row_sum(mat_sum(m_matrix@, rx@, ry@, k0 as int), m_matrix[k0 as int]@, rx@, ry@, k0 as int, k1 as int),
@at ls1
proof { lemma_two(ry.len() as nat); lemma_two(rx.len() as nat); assert(col_ok(m_matrix[k0 as int][k1 as int].1, two(ry.len() as int))); }
@fn evaluate_matrix_vec
@file spartan/src/polynomial.rs
@refs poly
@header
pub fn evaluate_matrix_vec(polys: &Vec<Vec<(F, Index)>>, z: &Vec<F>) -> (ret: Vec<F>)
    requires z.len() < 0x1000_0000_0000_0000, cols_ok(polys@, z.len() as int),
    ensures ret.len() == polys.len(), forall|i: int| 0 <= i < polys.len() ==> ret[i] == row_dot(polys[i]@, z@, polys[i].len() as int),
@inv 0
        ms.len() == polys.len(), forall|i: int| 0 <= i < k0 ==> ms[i] == row_dot(polys[i]@, z@, polys[i].len() as int),
        forall|i: int| k0 <= i < polys.len() ==> ms[i] == f0(),
@inv 1
        ms.len() == polys.len(), forall|i: int| 0 <= i < k0 ==> ms[i] == row_dot(polys[i]@, z@, polys[i].len() as int),
        forall|i: int| k0 < i < polys.len() ==> ms[i] == f0(),
        ms[k0 as int] == row_dot(polys[k0 as int]@, z@, k1 as int),
@at ls1
proof { assert(col_ok(polys[k0 as int][k1 as int].1, z.len() as int)); }
@fn evaluate_matrix_vec_col
@file spartan/src/polynomial.rs
@refs m_vec
@header
pub fn evaluate_matrix_vec_col(m_matrix: &Vec<Vec<(F, Index)>>, coeffs: &Vec<F>, num_rows: usize) -> (ret: Vec<F>)
    requires num_rows < 0x1000_0000_0000_0000, cols_ok(m_matrix@, num_rows as int), m_matrix.len() <= coeffs.len(),
    ensures ret.len() == num_rows, forall|c: int| 0 <= c < num_rows ==> ret[c] == col_sum(m_matrix@, coeffs@, num_rows as int, c, m_matrix.len() as int),
@inv 0
        ms.len() == num_rows, forall|c: int| 0 <= c < num_rows ==> ms[c] == col_sum(m_matrix@, coeffs@, num_rows as int, c, k0 as int),
@inv 1
        ms.len() == num_rows, forall|c: int| 0 <= c < num_rows ==> ms[c] == col_row(col_sum(m_matrix@, coeffs@, num_rows as int, c, k0 as int), m_matrix[k0 as int]@, coeffs[k0 as int], num_rows as int, c, k1 as int),
@at ls1
proof { assert(col_ok(m_matrix[k0 as int][k1 as int].1, num_rows as int)); }
@fn combine_with_n
@file spartan/src/polynomial.rs
@header
pub fn combine_with_n(values: &Vec<F>, r: F) -> (ret: Vec<F>)
    requires values.len() < 0x1000_0000_0000_0000,
    ensures ret@ == fix_top(values@, r),
@inv 0
        new_values.len() == len, forall|i: int| 0 <= i < k0 ==> new_values[i] == fix_top(values@, r)[i],
@at fe
proof { assert(new_values@ =~= fix_top(values@, r)); }
@fn combine_with_r
@file spartan/src/polynomial.rs
@header
pub fn combine_with_r(values: &mut Vec<F>, r: F)
    requires old(values).len() < 0x1000_0000_0000_0000,
    ensures final(values)@ == fix_top(old(values)@, r),
@inv 0
        values.len() == old(values).len(), forall|i: int| 0 <= i < k0 ==> values[i] == fix_top(old(values)@, r)[i],
        forall|i: int| k0 <= i < values.len() ==> values[i] == old(values)[i],
@at fe
proof { assert(values@ =~= fix_top(old(values)@, r)); }
@fn bound_poly_var_bot
@file spartan/src/polynomial.rs
@header
pub fn bound_poly_var_bot(values: &mut Vec<F>, r: F)
    requires old(values).len() < 0x1000_0000_0000_0000,
    ensures final(values)@ == fix_bot(old(values)@, r),
@inv 0
        values.len() == old(values).len(), forall|i: int| 0 <= i < k0 ==> values[i] == fix_bot(old(values)@, r)[i],
        forall|i: int| k0 <= i < values.len() ==> values[i] == old(values)[i],
@at fe
proof { assert(values@ =~= fix_bot(old(values)@, r)); }

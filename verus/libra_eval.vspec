@unit libra_eval
@prelude base field vec
@types G::Fr=F
@include sums.rs
@include mle.rs
@include gates.rs
@item libra/src/circuit.rs Gate
@fn eval_eq_x_y
@from spartan_poly.eval_eq_x_y
@file libra/src/evaluate.rs
@fn combine_with_r
@from spartan_poly.combine_with_n
@file libra/src/evaluate.rs
@name combine_with_r
@header
pub fn combine_with_r(values: &Vec<F>, r: F) -> (ret: Vec<F>)
    requires values.len() < 0x1000_0000_0000_0000,
    ensures ret@ == fix_top(values@, r),
@fn eval_eq
@from spartan_poly.eval_eq
@file libra/src/evaluate.rs
@fn eval_value
@file libra/src/evaluate.rs
@header
pub fn eval_value(value: &Vec<F>, r: &Vec<F>) -> (ret: F)
    requires r.len() < 32, value.len() <= two(r.len() as int),
    ensures ret == mle(value@, r@),
@inv 0
        acc0 == vsum(|i: int| fmul(value[i], eqs(r@, i)), k0 as int),
@at le0
proof { let f = |i: int| fmul(value[i], eqs(r@, i)); assert(vsum(f, k0 + 1) == fadd(vsum(f, k0 as int), f(k0 as int))); }
@fn eval_hg
@file libra/src/evaluate.rs
@header
pub fn eval_hg(evals_g_vec: &Vec<F>, v_vec: &Vec<F>, gates: &Vec<Gate>, bit_size: usize) -> (ret: (Vec<F>, Vec<F>, Vec<F>))
    requires bit_size < 32, gates_ok(gates@, evals_g_vec.len() as int, two(bit_size as int)), v_vec.len() >= two(bit_size as int),
    ensures ret.0.len() == two(bit_size as int), ret.1.len() == two(bit_size as int), ret.2.len() == two(bit_size as int),
        forall|x: int| 0 <= x < two(bit_size as int) ==> ret.0[x] == gsum(gates@, 1, true, x, evals_g_vec@, v_vec@, gates.len() as int),
        forall|x: int| 0 <= x < two(bit_size as int) ==> ret.1[x] == gsum1(gates@, 0, x, evals_g_vec@, gates.len() as int),
        forall|x: int| 0 <= x < two(bit_size as int) ==> ret.2[x] == gsum(gates@, 0, true, x, evals_g_vec@, v_vec@, gates.len() as int),
@at fs
proof { lemma_two(bit_size as nat); }
@inv 0
        mul_hg_vec.len() == two(bit_size as int), add_hg_vec1.len() == two(bit_size as int), add_hg_vec2.len() == two(bit_size as int),
        forall|x: int| 0 <= x < two(bit_size as int) ==> mul_hg_vec[x] == gsum(gates@, 1, true, x, evals_g_vec@, v_vec@, k0 as int),
        forall|x: int| 0 <= x < two(bit_size as int) ==> add_hg_vec1[x] == gsum1(gates@, 0, x, evals_g_vec@, k0 as int),
        forall|x: int| 0 <= x < two(bit_size as int) ==> add_hg_vec2[x] == gsum(gates@, 0, true, x, evals_g_vec@, v_vec@, k0 as int),
@at ls0
proof { assert(gate_ok(gates[k0 as int], evals_g_vec.len() as int, two(bit_size as int))); }
@fn eval_fgu
@file libra/src/evaluate.rs
@header
pub fn eval_fgu(evals_g_vec: &Vec<F>, ru_vec: &Vec<F>, gates: &Vec<Gate>, bit_size: usize) -> (ret: (Vec<F>, Vec<F>))
    requires bit_size < 32, gates_ok(gates@, evals_g_vec.len() as int, two(bit_size as int)), ru_vec.len() >= two(bit_size as int),
    ensures ret.0.len() == two(bit_size as int), ret.1.len() == two(bit_size as int),
        forall|x: int| 0 <= x < two(bit_size as int) ==> ret.0[x] == gsum(gates@, 1, false, x, evals_g_vec@, ru_vec@, gates.len() as int),
        forall|x: int| 0 <= x < two(bit_size as int) ==> ret.1[x] == gsum(gates@, 0, false, x, evals_g_vec@, ru_vec@, gates.len() as int),
@at fs
proof { lemma_two(bit_size as nat); }
@inv 0
        mul_hg_vec.len() == two(bit_size as int), add_hg_vec.len() == two(bit_size as int),
        forall|x: int| 0 <= x < two(bit_size as int) ==> mul_hg_vec[x] == gsum(gates@, 1, false, x, evals_g_vec@, ru_vec@, k0 as int),
        forall|x: int| 0 <= x < two(bit_size as int) ==> add_hg_vec[x] == gsum(gates@, 0, false, x, evals_g_vec@, ru_vec@, k0 as int),
@at ls0
proof { assert(gate_ok(gates[k0 as int], evals_g_vec.len() as int, two(bit_size as int))); }

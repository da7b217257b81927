@unit hyrax_eval
@prelude base field vec
@types G::Fr=F
@include sums.rs
@include mle.rs
@include gates.rs
@item hyrax/src/circuit.rs Gate
@method extend { let t_ = $1; vextend(&mut $0, t_) }
@method reverse vreverse(&mut $0)
@include hyrax.rs
@fn eval_eq_x_y
@from spartan_poly.eval_eq_x_y
@file hyrax/src/evaluate.rs
@fn combine_with_r
@from libra_eval.combine_with_r
@file hyrax/src/evaluate.rs
@fn eval_eq
@from spartan_poly.eval_eq
@file hyrax/src/evaluate.rs
@fn eval_value
@from libra_eval.eval_value
@file hyrax/src/evaluate.rs
@fn convert_to_bit
@file hyrax/src/evaluate.rs
@header
pub fn convert_to_bit(n: usize, log_g: usize) -> (ret: Vec<F>)
    requires n < two(log_g as int), log_g < 64,
    ensures ret.len() == log_g, forall|m: int| 0 <= m < log_g ==> ret[m] == (if bit(n as int, log_g - 1 - m) { f1() } else { f0() }),
@at fs
let ghost n0 = n as int;
proof { lemma_two(0); assert(n0 / 1 == n0) by (nonlinear_arith); }
@at winv0
    invariant n == n0 / two(n_vec.len() as int), n_vec.len() == 0 || n0 >= two(n_vec.len() - 1), n_vec.len() <= log_g,
        forall|m: int| 0 <= m < n_vec.len() ==> n_vec[m] == (if bit(n0, m) { f1() } else { f0() }),
    decreases n,
@at ls0
let ghost l0 = n_vec.len();
let ghost nn = n as int;
proof {
    lemma_two(l0 as nat);
    if l0 >= log_g {
        vstd::arithmetic::power::lemma_pow_increases(2, log_g as nat, l0 as nat);
        vstd::arithmetic::div_mod::lemma_basic_div(n0, two(l0 as int));
    }
}
@at le0
proof {
    vstd::arithmetic::div_mod::lemma_div_denominator(n0, two(l0 as int), 2);
    assert(n0 >= two(l0 as int)) by { if n0 < two(l0 as int) { vstd::arithmetic::div_mod::lemma_basic_div(n0, two(l0 as int)); } }
}
@at la0
let ghost nl = n_vec.len() as int;
proof {
    lemma_two(nl as nat);
    assert(n0 < two(nl)) by { if n0 >= two(nl) { vstd::arithmetic::div_mod::lemma_div_is_ordered(two(nl), n0, two(nl)); vstd::arithmetic::div_mod::lemma_div_by_self(two(nl)); } }
    assert forall|m: int| nl <= m < log_g implies !bit(n0, m) by {
        lemma_two(m as nat);
        vstd::arithmetic::power::lemma_pow_increases(2, nl as nat, m as nat);
        vstd::arithmetic::div_mod::lemma_basic_div(n0, two(m));
    }
}

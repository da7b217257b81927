@unit hyrax_circuit
@prelude base field vec
@types G::Fr=F
@include sums.rs
@include mle.rs
@include circuit.rs
@item hyrax/src/circuit.rs Gate
@item hyrax/src/circuit.rs Layer
@item hyrax/src/circuit.rs Circuit
@item hyrax/src/circuit.rs Error
@call cmp::max vmax($1, $2)
@method extend ($1).vext(&mut $0)
@method unwrap vunwrap($0)
@fn gate_new
@from libra_circuit.gate_new
@file hyrax/src/circuit.rs
@fn input_new
@file hyrax/src/circuit.rs
@impl Layer
@wrap impl Layer {
@header
pub fn input_new(num_inputs: usize, num_aux: usize) -> (ret: Self)
    requires num_inputs <= 0x1000_0000_0000_0000, num_aux <= 0x1000_0000_0000_0000,
    ensures input_layer(ret, num_inputs as int, num_aux as int),
@at let:gates_num
proof { lemma_double_pow2(gates_num as int / 2); }
@at let:bit_size
proof { lemma_npow2_log(gates_num as int / 2, if num_inputs >= num_aux { num_inputs as int } else { num_aux as int }, bit_size as nat); }
@at ty:gates
: Vec<Gate>
@reset inv0
@inv 0
        gates.len() == k0, gates_count == k0, forall|i: int| 0 <= i < k0 ==> (#[trigger] gates[i]).g == i && gates[i].op == 3,
@fn mid_layer_new
@from libra_circuit.mid_layer_new
@file hyrax/src/circuit.rs
@reset inv0
@inv 0
        gates.len() == k0, gates_count == k0, forall|i: int| 0 <= i < k0 ==> raw_ok(#[trigger] gates_raw[i], next_layer_gates_count as int),
        forall|i: int| 0 <= i < k0 ==> #[trigger] gates[i] == (Gate { g: i as usize, op: gates_raw[i].0, left_node: gates_raw[i].1, right_node: gates_raw[i].2 }),
@fn circuit_new
@from libra_circuit.circuit_new
@file hyrax/src/circuit.rs
@fn evaluate
@from libra_circuit.evaluate
@file hyrax/src/circuit.rs
@header
pub fn evaluate(&self, inputs: &Vec<F>, aux: &Vec<F>) -> (ret: Result<Vec<Vec<F>>, Error>)
    requires self.layers.len() > 0, 1 <= self.layers[0].bit_size < 60, self.depth == self.layers.len(),
    ensures ret is Ok <==> (forall|d: int| 1 <= d < self.layers.len() ==> layer_fine(self.layers@, inputs@, aux@, d)),
        ret is Ok ==> ret->Ok_0.len() == self.layers.len(),
        ret is Ok ==> inputs.len() <= half(self.layers[0]) && aux.len() <= half(self.layers[0]),
        ret is Ok ==> forall|d: int| 0 <= d < self.layers.len() ==> #[trigger] ret->Ok_0[d]@ == vals(self.layers@, inputs@, aux@, self.layers.len() - 1 - d),
@reset inv0
@inv 0
        n == self.layers.len(), evals.len() == n, k0 > 0 ==> inputs.len() <= half(self.layers[0]) && aux.len() <= half(self.layers[0]),
        forall|d: int| 1 <= d < k0 ==> layer_fine(self.layers@, inputs@, aux@, d),
        forall|d: int| n - k0 <= d < n ==> #[trigger] evals[d]@ == vals(self.layers@, inputs@, aux@, n - 1 - d),
        k0 > 0 ==> next_layer_values@ == vals(self.layers@, inputs@, aux@, k0 - 1),
@reset le0
@at le0
proof {
    let w = vals(self.layers@, inputs@, aux@, k0 as int);
    if k0 > 0 { assert(layer_fine(self.layers@, inputs@, aux@, k0 as int)); }
    assert(next_layer_values@ =~= w);
    assert(evals[n - 1 - k0]@ =~= w);
}

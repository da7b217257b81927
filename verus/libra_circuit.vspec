@unit libra_circuit
@prelude base field vec
@types G::Fr=F
@include sums.rs
@include mle.rs
@include circuit.rs
@item libra/src/circuit.rs Gate
@item libra/src/circuit.rs Layer
@item libra/src/circuit.rs Circuit
@item libra/src/circuit.rs Error
@call cmp::max vmax($1, $2)
@method extend ($1).vext(&mut $0)
@method unwrap vunwrap($0)
@fn gate_new
@file libra/src/circuit.rs
@impl Gate
@name new
@wrap impl Gate {
@header
pub fn new(g: usize, op: u8, left_node: usize, right_node: usize) -> (ret: Self)
    ensures ret == (Gate { g, op, left_node, right_node }),
@fn input_new
@file libra/src/circuit.rs
@impl Layer
@wrap impl Layer {
@header
pub fn input_new(num_input: usize, num_aux: usize) -> (ret: Self)
    requires num_input <= 0x1000_0000_0000_0000, num_aux <= 0x1000_0000_0000_0000,
    ensures input_layer(ret, num_input as int, num_aux as int),
@at let:gates_num
proof { lemma_double_pow2(gates_num as int / 2); }
@at let:bit_size
proof { lemma_npow2_log(gates_num as int / 2, if num_input >= num_aux { num_input as int } else { num_aux as int }, bit_size as nat); }
@at ty:acc0
: Vec<Gate>
@inv 0
        acc0.len() == k0, forall|i: int| 0 <= i < k0 ==> (#[trigger] acc0[i]).g == i && acc0[i].op == 3,
@fn mid_layer_new
@file libra/src/circuit.rs
@impl Layer
@wrap impl Layer {
@header
pub fn mid_layer_new(gates_raw: &Vec<(u8, usize, usize)>, next_layer_gates_count: usize) -> (ret: Result<Self, Error>)
    requires gates_raw.len() <= 0x1000_0000_0000_0000,
    ensures ret is Ok <==> (forall|i: int| 0 <= i < gates_raw.len() ==> raw_ok(#[trigger] gates_raw[i], next_layer_gates_count as int)),
        ret is Ok ==> mid_layer(ret->Ok_0, gates_raw@, next_layer_gates_count as int),
@inv 0
        gates.len() == k0, forall|i: int| 0 <= i < k0 ==> raw_ok(#[trigger] gates_raw[i], next_layer_gates_count as int),
        forall|i: int| 0 <= i < k0 ==> #[trigger] gates[i] == (Gate { g: i as usize, op: gates_raw[i].0, left_node: gates_raw[i].1, right_node: gates_raw[i].2 }),
@at ls0
proof { let x_ = gates_raw[k0 as int]; }
@fn circuit_new
@file libra/src/circuit.rs
@impl Circuit
@name new
@wrap impl Circuit {
@header
pub fn new(num_inputs: usize, num_aux: usize, layers_raw: &Vec<Vec<(u8, usize, usize)>>) -> (ret: Circuit)
    requires num_inputs <= 0x1000_0000_0000_0000, num_aux <= 0x1000_0000_0000_0000, layers_raw.len() < 0x1000_0000,
        forall|i: int| 0 <= i < layers_raw.len() ==> #[trigger] layers_raw[i].len() <= 0x1000_0000_0000_0000,
    ensures ret.depth == ret.layers.len(), ret.layers.len() == layers_raw.len() + 1,
        input_layer(ret.layers[0], num_inputs as int, num_aux as int),
        forall|i: int| 1 <= i < ret.layers.len() ==> mid_layer(#[trigger] ret.layers[i], layers_raw[i - 1]@, ret.layers[i - 1].gates_count as int),
@inv 0
        layers.len() == k0 + 1, depth == k0 + 1, next_layer_gates_count == layers[k0 as int].gates_count,
        input_layer(layers[0], num_inputs as int, num_aux as int),
        forall|i: int| 1 <= i < layers.len() ==> mid_layer(#[trigger] layers[i], layers_raw[i - 1]@, layers[i - 1].gates_count as int),
@fn evaluate
@file libra/src/circuit.rs
@impl Circuit
@method clone $0.vclone()
@wrap impl Circuit {
@refs layer
@header
pub fn evaluate(&self, inputs: &Vec<F>, aux: &Vec<F>) -> (ret: Result<Vec<Vec<F>>, Error>)
    requires self.layers.len() > 0, 1 <= self.layers[0].bit_size < 60, self.depth == self.layers.len(),
    ensures ret is Ok <==> (forall|d: int| 1 <= d < self.layers.len() ==> layer_fine(self.layers@, inputs@, aux@, d)),
        ret is Ok ==> ret->Ok_0.len() == self.layers.len(),
        ret is Ok ==> inputs.len() <= half(self.layers[0]) && aux.len() <= half(self.layers[0]),
        ret is Ok ==> forall|d: int| 0 <= d < self.layers.len() ==> #[trigger] ret->Ok_0[d]@ == vals(self.layers@, inputs@, aux@, d),
@at fs
proof { lemma_two((self.layers[0].bit_size - 1) as nat); }
@at ty:evals
: Vec<Vec<F>>
@at ty:next_layer_values
: Vec<F>
@at ty:values
: Vec<F>
@inv 0
        evals.len() == k0, k0 > 0 ==> inputs.len() <= half(self.layers[0]) && aux.len() <= half(self.layers[0]),
        forall|d: int| 1 <= d < k0 ==> layer_fine(self.layers@, inputs@, aux@, d),
        forall|d: int| 0 <= d < k0 ==> #[trigger] evals[d]@ == vals(self.layers@, inputs@, aux@, d),
        k0 > 0 ==> next_layer_values@ == vals(self.layers@, inputs@, aux@, k0 - 1),
@inv 1
            values.len() == k1, forall|i: int| 0 <= i < k1 ==> gate_fine(#[trigger] layer.gates[i], next_layer_values.len() as int),
            forall|i: int| 0 <= i < k1 ==> #[trigger] values[i] == gate_val(layer.gates[i], next_layer_values@),
@at ls1
proof { if !gate_fine(layer.gates[k1 as int], next_layer_values.len() as int) { assert(!layer_fine(self.layers@, inputs@, aux@, k0 as int)); } }
@at le0
proof {
    let w = vals(self.layers@, inputs@, aux@, k0 as int);
    if k0 > 0 { assert(layer_fine(self.layers@, inputs@, aux@, k0 as int)); }
    assert(next_layer_values@ =~= w);
    assert(evals[k0 as int]@ =~= w);
}
@fn eval_eq
@from spartan_poly.eval_eq
@file libra/src/evaluate.rs
@fn eval_operators
@file libra/src/circuit.rs
@impl Layer
@wrap impl Layer {
@header
pub fn eval_operators(&self, gu_vec: &Vec<F>, gv_vec: &Vec<F>, ru_vec: &Vec<F>, rv_vec: &Vec<F>, alpha: F, beta: F) -> (ret: (F, F))
    requires gu_vec.len() < 32, gv_vec.len() == gu_vec.len(), ru_vec.len() < 32, rv_vec.len() < 32,
        forall|i: int| 0 <= i < self.gates.len() ==> (#[trigger] self.gates[i]).g < two(gu_vec.len() as int) && self.gates[i].left_node < two(ru_vec.len() as int) && self.gates[i].right_node < two(rv_vec.len() as int),
    ensures ret.0 == opsum(self.gates@, 0, gu_vec@, gv_vec@, ru_vec@, rv_vec@, alpha, beta, self.gates.len() as int),
        ret.1 == opsum(self.gates@, 1, gu_vec@, gv_vec@, ru_vec@, rv_vec@, alpha, beta, self.gates.len() as int),
@inv 0
        add_gate_eval == opsum(self.gates@, 0, gu_vec@, gv_vec@, ru_vec@, rv_vec@, alpha, beta, k0 as int),
        mult_gate_eval == opsum(self.gates@, 1, gu_vec@, gv_vec@, ru_vec@, rv_vec@, alpha, beta, k0 as int),
@at ls0
proof { let g_ = self.gates[k0 as int]; }

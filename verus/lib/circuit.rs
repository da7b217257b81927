// layered circuits: what a gate, a layer and a whole circuit compute
#[derive(Clone, Copy)]
pub struct Gate { pub g: usize, pub op: u8, pub left_node: usize, pub right_node: usize }
pub struct Layer { pub gates_count: usize, pub bit_size: usize, pub gates: Vec<Gate> }
pub struct Circuit { pub depth: usize, pub layers: Vec<Layer> }
pub enum Error { IllegalOperator, IllegalNode }

pub open spec fn is_npow2(r: int, n: int) -> bool { is_pow2(r) && r >= n && r >= 1 && (r == 1 || r < 2 * n) }
// ---- assumed contracts of the standard library and ark_std (trusted) ----
pub assume_specification [usize::next_power_of_two] (x: usize) -> (r: usize)
    requires x <= 0x8000_0000_0000_0000,
    ensures is_npow2(r as int, x as int);
#[verifier::external_body]
pub fn log2(x: usize) -> (r: u32)
    ensures r < 64, is_pow2(x as int) ==> x == two(r as int),
{ unimplemented!() }
pub fn vmax(a: usize, b: usize) -> (r: usize)
    ensures r == if a >= b { a } else { b },
{ if a >= b { a } else { b } }
#[verifier::external_body]
pub fn vunwrap<T, E>(x: core::result::Result<T, E>) -> (r: T)
    ensures x == core::result::Result::<T, E>::Ok(r),
{ unimplemented!() }
// Vec::extend by a vector or by a reference to one
pub trait VExt<T>: Sized {
    spec fn seq(self) -> Seq<T>;
    fn vext(self, a: &mut Vec<T>)
        ensures final(a)@ == old(a)@ + self.seq();
}
impl VExt<F> for Vec<F> {
    open spec fn seq(self) -> Seq<F> { self@ }
    fn vext(self, a: &mut Vec<F>) { vextend(a, self) }
}
impl VExt<F> for &Vec<F> {
    open spec fn seq(self) -> Seq<F> { self@ }
    fn vext(self, a: &mut Vec<F>) { vextend_slice(a, self.as_slice()) }
}
pub trait VClone: Sized { spec fn cl(&self) -> Seq<F>; fn vclone(&self) -> (r: Vec<F>) ensures r@ == self.cl(); }
impl VClone for Vec<F> {
open spec fn cl(&self) -> Seq<F> { self@ }
fn vclone(&self) -> (r: Vec<F>)
{
    let v = self;
    let mut r = Vec::new();
    vextend_slice(&mut r, v.as_slice());
    proof { assert(r@ =~= v@); }
    r
}
}

// ---- specification ----
pub open spec fn raw_ok(g: (u8, usize, usize), prev: int) -> bool { (g.0 == 0 || g.0 == 1) && g.1 < prev && g.2 < prev }
pub open spec fn input_layer(l: Layer, ni: int, na: int) -> bool {
    let m = if ni >= na { ni } else { na };
    &&& l.gates_count == l.gates.len() && l.bit_size >= 1 && l.gates.len() == two(l.bit_size as int)
    &&& is_npow2(two(l.bit_size - 1), m)
    &&& forall|i: int| 0 <= i < l.gates.len() ==> (#[trigger] l.gates[i]).g == i && l.gates[i].op == 3
}
pub open spec fn mid_layer(l: Layer, raw: Seq<(u8, usize, usize)>, prev: int) -> bool {
    &&& l.gates_count == l.gates.len() && l.gates.len() == raw.len()
    &&& is_npow2(two(l.bit_size as int), raw.len() as int)
    &&& forall|i: int| 0 <= i < raw.len() ==> raw_ok(#[trigger] raw[i], prev)
    &&& forall|i: int| 0 <= i < raw.len() ==> #[trigger] l.gates[i] == (Gate { g: i as usize, op: raw[i].0, left_node: raw[i].1, right_node: raw[i].2 })
}
pub open spec fn fzeros(n: int) -> Seq<F> { Seq::new(n as nat, |i: int| f0()) }
pub open spec fn half(l: Layer) -> int { two(l.bit_size - 1) }
pub open spec fn input_vals(l: Layer, ins: Seq<F>, aux: Seq<F>) -> Seq<F> {
    aux + fzeros(half(l) - aux.len()) + ins + fzeros(half(l) - ins.len())
}
pub open spec fn gate_val(g: Gate, v: Seq<F>) -> F {
    if g.op == 0 { fadd(v[g.left_node as int], v[g.right_node as int]) } else { fmul(v[g.left_node as int], v[g.right_node as int]) }
}
pub open spec fn gate_fine(g: Gate, prev: int) -> bool { (g.op == 0 || g.op == 1) && g.left_node < prev && g.right_node < prev }
pub open spec fn vals(c: Seq<Layer>, ins: Seq<F>, aux: Seq<F>, d: int) -> Seq<F>
    decreases d
{
    if d <= 0 { input_vals(c[0], ins, aux) }
    else { Seq::new(c[d].gates.len() as nat, |i: int| gate_val(c[d].gates[i], vals(c, ins, aux, d - 1))) }
}
pub open spec fn layer_fine(c: Seq<Layer>, ins: Seq<F>, aux: Seq<F>, d: int) -> bool {
    forall|i: int| 0 <= i < c[d].gates.len() ==> gate_fine(#[trigger] c[d].gates[i], vals(c, ins, aux, d - 1).len() as int)
}
pub proof fn lemma_npow2_log(r: int, m: int, b: nat)
    requires is_npow2(r, m), 2 * r == two(b as int),
    ensures b >= 1, two(b - 1) == r,
{
    if b == 0 { lemma_two(0); } else { lemma_two((b - 1) as nat); }
}
pub proof fn lemma_double_pow2(r: int)
    requires is_pow2(r),
    ensures is_pow2(2 * r), is_pow2(r * 2),
{
    let k = choose|k: nat| r == #[trigger] pow(2, k);
    lemma_two(k);
    assert(2 * r == pow(2, k + 1));
}
// the wiring predicate of kind op at (gu, gv combined by alpha, beta), ru, rv
pub open spec fn opsum(gs: Seq<Gate>, op: int, gu: Seq<F>, gv: Seq<F>, ru: Seq<F>, rv: Seq<F>, al: F, be: F, n: int) -> F
    decreases n
{
    if n <= 0 { f0() } else {
        let s = opsum(gs, op, gu, gv, ru, rv, al, be, n - 1);
        let g = gs[n - 1];
        if g.op == op { fadd(s, fmul(fmul(eqs(ru, g.left_node as int), eqs(rv, g.right_node as int)), fadd(fmul(al, eqs(gu, g.g as int)), fmul(be, eqs(gv, g.g as int))))) } else { s }
    }
}

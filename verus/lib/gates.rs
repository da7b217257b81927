// the sums over gates that define the phase-one and phase-two tables of the linear-time sumcheck
#[derive(Clone, Copy)]
pub struct Gate { pub g: usize, pub op: u8, pub left_node: usize, pub right_node: usize }
pub open spec fn gate_ok(g: Gate, n: int, bound: int) -> bool { g.g < n && g.left_node < bound && g.right_node < bound }
pub open spec fn gates_ok(gs: Seq<Gate>, n: int, bound: int) -> bool {
    forall|i: int| 0 <= i < gs.len() ==> gate_ok(#[trigger] gs[i], n, bound)
}
// sum over gates of kind op whose left (or right) node is x of eq[g] * w[other node]
pub open spec fn gsum(gs: Seq<Gate>, op: int, left: bool, x: int, e: Seq<F>, w: Seq<F>, n: int) -> F
    decreases n
{
    if n <= 0 { f0() } else {
        let s = gsum(gs, op, left, x, e, w, n - 1);
        let g = gs[n - 1];
        let (here, other) = if left { (g.left_node as int, g.right_node as int) } else { (g.right_node as int, g.left_node as int) };
        if g.op == op && here == x { fadd(s, fmul(e[g.g as int], w[other])) } else { s }
    }
}
// the same without the other operand's value
pub open spec fn gsum1(gs: Seq<Gate>, op: int, x: int, e: Seq<F>, n: int) -> F
    decreases n
{
    if n <= 0 { f0() } else {
        let s = gsum1(gs, op, x, e, n - 1);
        let g = gs[n - 1];
        if g.op == op && g.left_node == x { fadd(s, e[g.g as int]) } else { s }
    }
}

// a sparse matrix row: (value, column); columns of witness variables first, inputs from the middle
#[derive(Clone, Copy)]
pub enum Index { Input(usize), Aux(usize) }
pub open spec fn col(x: Index, n: int) -> int {
    match x { Index::Aux(i) => i as int, Index::Input(i) => i + n / 2 }
}
pub open spec fn col_ok(x: Index, n: int) -> bool { 0 <= col(x, n) < n }
pub open spec fn cols_ok(m: Seq<Vec<(F, Index)>>, n: int) -> bool {
    forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m[i].len() ==> col_ok(#[trigger] m[i][j].1, n)
}
pub open spec fn row_sum(start: F, row: Seq<(F, Index)>, rx: Seq<F>, ry: Seq<F>, i: int, n: int) -> F
    decreases n
{
    if n <= 0 { start } else {
        fadd(row_sum(start, row, rx, ry, i, n - 1), fmul(fmul(eqs(ry, col(row[n - 1].1, two(ry.len() as int))), eqs(rx, i)), row[n - 1].0))
    }
}
pub open spec fn mat_sum(m: Seq<Vec<(F, Index)>>, rx: Seq<F>, ry: Seq<F>, n: int) -> F
    decreases n
{
    if n <= 0 { f0() } else { row_sum(mat_sum(m, rx, ry, n - 1), m[n - 1]@, rx, ry, n - 1, m[n - 1].len() as int) }
}
pub open spec fn row_dot(row: Seq<(F, Index)>, z: Seq<F>, n: int) -> F
    decreases n
{
    if n <= 0 { f0() } else { fadd(row_dot(row, z, n - 1), fmul(row[n - 1].0, z[col(row[n - 1].1, z.len() as int)])) }
}
pub open spec fn col_row(start: F, row: Seq<(F, Index)>, x: F, w: int, c: int, n: int) -> F
    decreases n
{
    if n <= 0 { start } else {
        let s = col_row(start, row, x, w, c, n - 1);
        if col(row[n - 1].1, w) == c { fadd(s, fmul(row[n - 1].0, x)) } else { s }
    }
}
pub open spec fn col_sum(m: Seq<Vec<(F, Index)>>, x: Seq<F>, w: int, c: int, n: int) -> F
    decreases n
{
    if n <= 0 { f0() } else { col_row(col_sum(m, x, w, c, n - 1), m[n - 1]@, x[n - 1], w, c, m[n - 1].len() as int) }
}
pub proof fn lemma_bit_test(i: usize, s: usize)
    requires s < 64,
    ensures (i & ((1usize << s) as usize) > 0) == bit(i as int, s as int),
{
    lemma_two(s as nat);
    let w = (1usize << s) as usize;
    assert((i & ((1usize << s) as usize) > 0) == ((i >> s) % 2 == 1)) by (bit_vector) requires s < 64;
    vstd::bits::lemma_usize_shr_is_div(i, s);
    vstd::arithmetic::power2::lemma_pow2(s as nat);
}

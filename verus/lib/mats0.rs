pub open spec fn term(a: Seq<F>, b: Seq<F>) -> spec_fn(int) -> F { |i: int| fmul(a[i], b[i]) }
pub open spec fn dot(a: Seq<F>, b: Seq<F>) -> F { vsum(term(a, b), a.len() as int) }

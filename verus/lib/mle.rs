// eq(rx, j): product over the bits of j (most significant first) of rx_i or 1 - rx_i
pub open spec fn two(n: int) -> int { pow(2, n as nat) }
pub open spec fn eqs(s: Seq<F>, j: int) -> F
    decreases s.len()
{
    if s.len() == 0 { f1() }
    else if j >= two(s.len() - 1) { fmul(s[0], eqs(s.subrange(1, s.len() as int), j - two(s.len() - 1))) }
    else { fmul(fsub(f1(), s[0]), eqs(s.subrange(1, s.len() as int), j)) }
}
pub proof fn lemma_two(n: nat)
    ensures pow(2, n) >= 1, pow(2, n + 1) == 2 * pow(2, n), n < 62 ==> pow(2, n) <= 0x2000000000000000,
        pow(2, 0) == 1,
{
    vstd::arithmetic::power::lemma_pow_positive(2, n);
    vstd::arithmetic::power::lemma_pow1(2);
    vstd::arithmetic::power::lemma_pow_adds(2, n, 1);
    vstd::arithmetic::power::lemma_pow0(2);
    if n < 62 {
        vstd::arithmetic::power::lemma_pow_increases(2, n, 61);
        assert(pow(2, 61) == 0x2000000000000000) by {
            vstd::arithmetic::power2::lemma2_to64_rest();
            vstd::arithmetic::power2::lemma_pow2(61);
        }
    }
}
pub open spec fn eqxy_term(rx: Seq<F>, ry: Seq<F>) -> spec_fn(int) -> F {
    |i: int| fadd(fmul(fsub(f1(), rx[i]), fsub(f1(), ry[i])), fmul(rx[i], ry[i]))
}
// the multilinear extension of v at r
pub open spec fn mle(v: Seq<F>, r: Seq<F>) -> F {
    vsum(|i: int| fmul(v[i], eqs(r, i)), v.len() as int)
}
pub open spec fn bit(i: int, s: int) -> bool { (i / two(s)) % 2 == 1 }
pub open spec fn bitprod(r: Seq<F>, i: int) -> spec_fn(int) -> F {
    |j: int| if bit(i, r.len() - 1 - j) { r[j] } else { fsub(f1(), r[j]) }
}
pub proof fn lemma_bit_high(i: int, n: nat)
    requires 0 <= i < 2 * two(n as int),
    ensures bit(i, n as int) == (i >= two(n as int)),
{
    lemma_two(n);
    let t = two(n as int);
    if i >= t {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i, t, 1, i - t);
    } else {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i, t, 0, i);
    }
}
pub proof fn lemma_bit_low(i: int, n: nat, s: nat)
    requires i >= 0, s < n,
    ensures bit(i + two(n as int), s as int) == bit(i, s as int),
{
    let (t, u) = (two(n as int), two(s as int));
    let w = two(n - s - 1);
    lemma_two(s);
    lemma_two((n - s - 1) as nat);
    vstd::arithmetic::power::lemma_pow_adds(2, s, (n - s) as nat);
    assert(t == u * (2 * w));
    // (i + u*2w)/u == i/u + 2w
    vstd::arithmetic::div_mod::lemma_hoist_over_denominator(i, 2 * w, u as nat);
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(w, i / u, 2);
    assert(2 * w + i / u == i / u + 2 * w);
    assert((i + t) / u == i / u + 2 * w) by { assert(u * (2 * w) == (2 * w) * u) by (nonlinear_arith); }
    assert(2 * w == w * 2);
}
pub proof fn lemma_bitprod(r: Seq<F>, i: int)
    requires 0 <= i < two(r.len() as int),
    ensures vprod(bitprod(r, i), r.len() as int) == eqs(r, i),
    decreases r.len()
{
    if r.len() > 0 {
        let n = (r.len() - 1) as nat;
        lemma_two(n);
        let t = r.subrange(1, r.len() as int);
        let j = if i >= two(n as int) { i - two(n as int) } else { i };
        lemma_bitprod(t, j);
        vprod_front(bitprod(r, i), r.len() as int);
        let g = |k: int| bitprod(r, i)(k + 1);
        assert forall|k: int| 0 <= k < n implies #[trigger] g(k) == bitprod(t, j)(k) by {
            if i >= two(n as int) { lemma_bit_low(j, n, (n - 1 - k) as nat); }
        }
        vprod_cong(g, bitprod(t, j), n as int);
        lemma_bit_high(i, n);
    }
}
// ---- the table operations agree with evaluation of the multilinear extension ----
// fixing the first variable
pub open spec fn fix_top(v: Seq<F>, r: F) -> Seq<F> {
    Seq::new((v.len() / 2) as nat, |i: int| fadd(fmul(r, v[i + v.len() / 2]), fmul(fsub(f1(), r), v[i])))
}
pub open spec fn fix_bot(v: Seq<F>, r: F) -> Seq<F> {
    Seq::new((v.len() / 2) as nat, |i: int| fadd(fmul(r, v[2 * i + 1]), fmul(fsub(f1(), r), v[2 * i])))
}
pub proof fn lemma_fix_top(v: Seq<F>, r: Seq<F>)
    requires r.len() > 0, v.len() == two(r.len() as int),
    ensures mle(v, r) == mle(fix_top(v, r[0]), r.subrange(1, r.len() as int)),
{
    let n = (r.len() - 1) as nat;
    lemma_two(n);
    let h = two(n as int);
    let t = r.subrange(1, r.len() as int);
    let f = |i: int| fmul(v[i], eqs(r, i));
    let w = fix_top(v, r[0]);
    let g = |i: int| fmul(w[i], eqs(t, i));
    vsum_split(f, h, 2 * h);
    let up = |i: int| f(h + i);
    vsum_add(f, up, h);
    let s = |i: int| fadd(f(i), up(i));
    assert forall|i: int| 0 <= i < h implies #[trigger] s(i) == g(i) by {
        let (a, b, x, e) = (v[i], v[h + i], r[0], eqs(t, i));
        let y = fsub(f1(), x);
        ax_mul_assoc(a, y, e);
        ax_mul_assoc(b, x, e);
        ax_distr(e, fmul(x, b), fmul(y, a));
        assert(w[i] == fadd(fmul(x, v[i + h]), fmul(y, a)));
        assert(f(i) == fmul(a, fmul(y, e)));
        assert(up(i) == fmul(b, fmul(x, e)));
    }
    vsum_cong(s, g, h);
}
pub proof fn lemma_eqs_bot(r: Seq<F>, i: int, b: int)
    requires r.len() > 0, 0 <= i < two(r.len() - 1), 0 <= b < 2,
    ensures eqs(r, 2 * i + b) == fmul(eqs(r.subrange(0, r.len() - 1), i), if b == 1 { r[r.len() - 1] } else { fsub(f1(), r[r.len() - 1]) }),
    decreases r.len()
{
    lemma_two(0);
    let l = r[r.len() - 1];
    let z = if b == 1 { l } else { fsub(f1(), l) };
    let p = r.subrange(0, r.len() - 1);
    let t = r.subrange(1, r.len() as int);
    if r.len() == 1 {
        assert(i == 0);
        assert(t.len() == 0);
        assert(eqs(t, 0) == f1());
        assert(eqs(t, b - 1) == f1() || b == 0);
        assert(eqs(p, 0) == f1());
    } else {
        let n = (r.len() - 2) as nat;
        lemma_two(n);
        let h = two(n as int);
        let j = if i >= h { i - h } else { i };
        assert(t[t.len() - 1] == l);
        assert(p.subrange(1, p.len() as int) =~= t.subrange(0, t.len() - 1));
        lemma_eqs_bot(t, j, b);
        let c = if i >= h { r[0] } else { fsub(f1(), r[0]) };
        assert(two(r.len() - 1) == 2 * h);
        assert((2 * i + b >= 2 * h) == (i >= h));
        assert(eqs(r, 2 * i + b) == fmul(c, eqs(t, 2 * j + b)));
        assert(eqs(p, i) == fmul(c, eqs(p.subrange(1, p.len() as int), j)));
        ax_mul_assoc(c, eqs(t.subrange(0, t.len() - 1), j), z);
    }
}
pub proof fn lemma_sum_pairs(f: spec_fn(int) -> F, n: int)
    requires n >= 0,
    ensures vsum(f, 2 * n) == vsum(|i: int| fadd(f(2 * i), f(2 * i + 1)), n),
    decreases n
{
    let g = |i: int| fadd(f(2 * i), f(2 * i + 1));
    if n > 0 {
        lemma_sum_pairs(f, n - 1);
        ax_add_assoc(vsum(f, 2 * n - 2), f(2 * n - 2), f(2 * n - 1));
        assert(vsum(f, 2 * n) == fadd(vsum(f, 2 * n - 1), f(2 * n - 1)));
        assert(vsum(f, 2 * n - 1) == fadd(vsum(f, 2 * n - 2), f(2 * n - 2)));
        assert(g(n - 1) == fadd(f(2 * (n - 1)), f(2 * (n - 1) + 1)));
    }
}
pub proof fn lemma_fix_bot(v: Seq<F>, r: Seq<F>)
    requires r.len() > 0, v.len() == two(r.len() as int),
    ensures mle(v, r) == mle(fix_bot(v, r[r.len() - 1]), r.subrange(0, r.len() - 1)),
{
    let n = (r.len() - 1) as nat;
    lemma_two(n);
    let h = two(n as int);
    let p = r.subrange(0, r.len() - 1);
    let l = r[r.len() - 1];
    let f = |i: int| fmul(v[i], eqs(r, i));
    let w = fix_bot(v, l);
    let g = |i: int| fmul(w[i], eqs(p, i));
    lemma_sum_pairs(f, h);
    let s = |i: int| fadd(f(2 * i), f(2 * i + 1));
    assert forall|i: int| 0 <= i < h implies #[trigger] s(i) == g(i) by {
        lemma_eqs_bot(r, i, 0);
        lemma_eqs_bot(r, i, 1);
        let e = eqs(p, i);
        let y = fsub(f1(), l);
        let (a, b) = (v[2 * i], v[2 * i + 1]);
        ax_mul_assoc(b, l, e);
        ax_mul_assoc(a, y, e);
        ax_distr(e, fmul(l, b), fmul(y, a));
        assert(f(2 * i) == fmul(a, fmul(e, y)));
        assert(f(2 * i + 1) == fmul(b, fmul(e, l)));
        assert(w[i] == fadd(fmul(l, b), fmul(y, a)));
    }
    vsum_cong(s, g, h);
}

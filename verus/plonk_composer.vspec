@unit plonk_composer
@prelude base field vec
@types Composer<F>=Composer ; Permutation<F>=Permutation ; Selectors<F>=Selectors ; Witnesses<F>=Witnesses ; GeneralEvaluationDomain<F>=Dom ; GeneralEvaluationDomain::<F>=Dom ; Map<Variable,Vec<Wire>>=WMap ; Map<Variable,F>=AMap ; Map<Variable, Vec<Wire>>=WMap ; Map<Variable, F>=AMap
@assume the Map of variables is a finite map; the domain's elements are its roots of unity in order
@include ring.rs
@ring fz(x): 0*x == 0
@ring zrow(z): 0*0 + 0*0 + 0*0 + 0*0 + 0*(0*0) + 0 + 0 == 0
@ring gconst(x, v, p): 0 + 1*x + 0*x + 0*x + 0*(x*x) + (-v) + (-p) == x - v - p
@ring gequal(x, y, z): 0 + 1*x + (-1)*y + 0*z + 0*(x*y) + 0 + 0 == x - y
@ring gadd(u, p, x, q, y, o, c, i): u + p*x + q*y + (-1)*o + 0*(x*y) + c + i == p*x + q*y + u + c + i - o
@ring gmul(u, x, y, o, m, c, i): u + 0*x + 0*y + (-1)*o + m*(x*y) + c + i == m*(x*y) + u + c + i - o
@include plonk.rs
@item plonk/src/composer/mod.rs Variable
@item plonk/src/composer/mod.rs Composer
@item plonk/src/composer/permutation.rs Wire
@item plonk/src/composer/permutation.rs Permutation
@item plonk/src/composer/synthesize.rs Error
@item plonk/src/composer/synthesize.rs Selectors
@item plonk/src/composer/synthesize.rs Witnesses
@inline
@method iter $0
@method index@assignment amap_get(&$0, $1)
@method iter@variable_map wmap_entries(&$0)
@method unwrap vunwrap($0)
@method ok_or vok_or($0, $1)
@method clone vclone_f(&$0)
@method extend vext_f(&mut $0, &$1)
@call GeneralEvaluationDomain::new Dom::new($1)
@fn pnew
@file plonk/src/composer/permutation.rs
@impl Permutation<F>
@name new
@wrap impl Permutation {
@call Map::new WMap::new()
@header
pub fn new() -> (ret: Self)
    ensures ret.variable_map@ == Map::<Variable, Vec<Wire>>::empty(),
@fn palloc
@file plonk/src/composer/permutation.rs
@impl Permutation<F>
@name alloc
@wrap impl Permutation {
@header
pub fn alloc(&mut self) -> (ret: Variable)
    requires exists|n: int| 0 <= n < usize::MAX && #[trigger] upto(old(self).variable_map@, n),
    ensures !old(self).variable_map@.contains_key(ret), final(self).variable_map@.dom() == old(self).variable_map@.dom().insert(ret), final(self).variable_map@[ret]@.len() == 0,
        forall|n: int| 0 <= n < usize::MAX && #[trigger] upto(old(self).variable_map@, n) ==> ret.0 == n && upto(final(self).variable_map@, n + 1),
        forall|v: Variable| v != ret ==> #[trigger] final(self).variable_map@[v] == old(self).variable_map@[v],
@at fs
proof { let n = choose|n: int| 0 <= n < usize::MAX && #[trigger] upto(self.variable_map@, n); ax_count(self.variable_map@, n);
  assert forall|k: int| 0 <= k < usize::MAX && #[trigger] upto(self.variable_map@, k) implies k == n by { ax_count(self.variable_map@, k); } }
@fn add_to_map
@file plonk/src/composer/permutation.rs
@impl Permutation<F>
@wrap impl Permutation {
@header
fn add_to_map(&mut self, var: Variable, wire: Wire)
    requires old(self).variable_map@.contains_key(var),
    ensures put(old(self).variable_map@, final(self).variable_map@, var, wire),
@fn insert_gate
@file plonk/src/composer/permutation.rs
@impl Permutation<F>
@wrap impl Permutation {
@header
pub fn insert_gate(&mut self, w_0: Variable, w_1: Variable, w_2: Variable, w_3: Variable, index: usize)
    requires old(self).variable_map@.contains_key(w_0), old(self).variable_map@.contains_key(w_1), old(self).variable_map@.contains_key(w_2), old(self).variable_map@.contains_key(w_3),
    ensures puts(old(self).variable_map@, final(self).variable_map@, w_0, w_1, w_2, w_3, index),
@fn compute_wire_permutation
@file plonk/src/composer/permutation.rs
@impl Permutation<F>
@wrap impl Permutation {
@refs wires
@header
fn compute_wire_permutation(&self, n: usize) -> (ret: [Vec<Wire>; 4])
    requires once(self.variable_map@), below(self.variable_map@, n as int),
    ensures four(n as int, ret[0]@, ret[1]@, ret[2]@, ret[3]@), perm_is(self.variable_map@, n as int, sig(ret)),
@inv 0
end0 == n, acc0.len() == k0, forall|i: int| 0 <= i < k0 ==> #[trigger] acc0[i] == Wire::W0(i as usize),
@inv 1
end1 == n, acc1.len() == k1, forall|i: int| 0 <= i < k1 ==> #[trigger] acc1[i] == Wire::W1(i as usize),
@inv 2
end2 == n, acc2.len() == k2, forall|i: int| 0 <= i < k2 ==> #[trigger] acc2[i] == Wire::W2(i as usize),
@inv 3
end3 == n, acc3.len() == k3, forall|i: int| 0 <= i < k3 ==> #[trigger] acc3[i] == Wire::W3(i as usize),
@at lb4
proof {
    lemma_uniq(base0@, self.variable_map@);
    lemma_pinit(base0@, n as int, perm_0@, perm_1@, perm_2@, perm_3@);
    assert forall|e: int, j: int, w: Wire| #[trigger] at_e(base0@, e, j, w) implies wi(w) < n by { assert(listed(self.variable_map@, base0@[e].0, j, w)); }
}
@inv 4
end4 == base0.len(), ents(base0@, self.variable_map@), uniq(base0@), four(n as int, perm_0@, perm_1@, perm_2@, perm_3@),
forall|e: int, j: int, w: Wire| #[trigger] at_e(base0@, e, j, w) ==> wi(w) < n,
pstate(base0@, k4 as int, 0, n as int, perm_0@, perm_1@, perm_2@, perm_3@),
@at ls4
proof { if base0@[k4 as int].1.len() <= 1 { lemma_pnext(base0@, k4 as int, 0, n as int, perm_0@, perm_1@, perm_2@, perm_3@); } }
@inv 5
end5 == wires.len(), 0 < k4 <= base0.len(), *wires == base0@[k4 - 1].1, uniq(base0@), four(n as int, perm_0@, perm_1@, perm_2@, perm_3@),
forall|e: int, j: int, w: Wire| #[trigger] at_e(base0@, e, j, w) ==> wi(w) < n,
pstate(base0@, k4 - 1, k5 as int, n as int, perm_0@, perm_1@, perm_2@, perm_3@),
@at ls5
let ghost (p0, p1, p2, p3) = (perm_0@, perm_1@, perm_2@, perm_3@);
proof { assert(at_e(base0@, k4 - 1, k5 as int, base0@[k4 - 1].1[k5 as int])); }
@at le5
proof { lemma_pstep(base0@, k4 - 1, k5 as int, n as int, p0, p1, p2, p3, perm_0@, perm_1@, perm_2@, perm_3@); }
@at la5
proof { lemma_pnext(base0@, k4 - 1, k5 as int, n as int, perm_0@, perm_1@, perm_2@, perm_3@); }
@at fe
proof { lemma_pdone(base0@, self.variable_map@, n as int, ret_); }
@fn compute_sigmas
@file plonk/src/composer/permutation.rs
@impl Permutation<F>
@wrap impl Permutation {
@header
pub fn compute_sigmas(&self, domain_n: Dom, ks: &[F; 4]) -> (ret: (Vec<F>, Vec<F>, Vec<F>, Vec<F>))
    requires once(self.variable_map@), below(self.variable_map@, domain_n.m()),
    ensures exists|f: spec_fn(Wire) -> Wire| #[trigger] perm_is(self.variable_map@, domain_n.m(), f) && sigmas(domain_n.m(), ks@, f, ret.0@, ret.1@, ret.2@, ret.3@),
@inv 0
end0 == base0.len(), acc0.len() == k0, forall|i: int| 0 <= i < k0 ==> #[trigger] acc0[i] == root(domain_n.m(), i),
@at let:roots
let ghost m = domain_n.m();
let ghost f = sig(perms);
proof { lemma_perm_below(self.variable_map@, m, f); }
@inv 1
end1 == m, acc1.len() == k1, perms[0].len() == m, forall|i: int| 0 <= i < k1 ==> #[trigger] acc1[i] == tag(m, ks@, f(Wire::W0(i as usize))),
@at ls1
proof { let w = f(Wire::W0(k1)); assert(wi(w) < m); }
@inv 2
end2 == m, acc2.len() == k2, perms[1].len() == m, forall|i: int| 0 <= i < k2 ==> #[trigger] acc2[i] == tag(m, ks@, f(Wire::W1(i as usize))),
@at ls2
proof { let w = f(Wire::W1(k2)); assert(wi(w) < m); }
@inv 3
end3 == m, acc3.len() == k3, perms[2].len() == m, forall|i: int| 0 <= i < k3 ==> #[trigger] acc3[i] == tag(m, ks@, f(Wire::W2(i as usize))),
@at ls3
proof { let w = f(Wire::W2(k3)); assert(wi(w) < m); }
@inv 4
end4 == m, acc4.len() == k4, perms[3].len() == m, forall|i: int| 0 <= i < k4 ==> #[trigger] acc4[i] == tag(m, ks@, f(Wire::W3(i as usize))),
@at ls4
proof { let w = f(Wire::W3(k4)); assert(wi(w) < m); }
@at fe
proof {
    assert(sigmas(m, ks@, f, ret_.0@, ret_.1@, ret_.2@, ret_.3@));
}
@fn calloc
@file plonk/src/composer/mod.rs
@impl Composer<F>
@name alloc_and_assign
@wrap impl Composer {
@header
pub fn alloc_and_assign(&mut self, value: F) -> (ret: Variable)
    requires exists|n: int| 0 <= n < usize::MAX && #[trigger] upto(old(self).permutation.variable_map@, n) && upto(old(self).assignment@, n),
    ensures !known(*old(self), ret), final(self).assignment@ == old(self).assignment@.insert(ret, value),
        final(self).permutation.variable_map@.dom() == old(self).permutation.variable_map@.dom().insert(ret), final(self).permutation.variable_map@[ret]@.len() == 0,
        forall|v: Variable| v != ret ==> #[trigger] final(self).permutation.variable_map@[v] == old(self).permutation.variable_map@[v],
        *final(self) == (Composer { permutation: final(self).permutation, assignment: final(self).assignment, ..*old(self) }),
        forall|n: int| 0 <= n < usize::MAX && #[trigger] upto(old(self).permutation.variable_map@, n) ==> ret.0 == n && upto(final(self).permutation.variable_map@, n + 1) && (upto(old(self).assignment@, n) ==> upto(final(self).assignment@, n + 1)),
        inv(*old(self)) ==> inv(*final(self)),
@at fe
proof {
    let (o, c) = (*old(self), *self);
    let (m, m2) = (o.permutation.variable_map@, c.permutation.variable_map@);
    assert forall|v: Variable| m2.contains_key(v) == (m.contains_key(v) || v == ret_) by { assert(m2.dom().contains(v) == m.dom().insert(ret_).contains(v)); }
    assert forall|v: Variable, j: int, w: Wire| #[trigger] listed(m2, v, j, w) == listed(m, v, j, w) by { if v == ret_ { } else { assert(m2[v] == m[v]); } }
    assert(c.assignment@ == o.assignment@.insert(ret_, value));
    if inv(o) {
        let n = choose|n: int| #[trigger] vars_ok(o, n);
        let n2 = choose|n: int| 0 <= n < usize::MAX && #[trigger] upto(m, n) && upto(o.assignment@, n);
        ax_count(m, n); ax_count(m, n2);
        assert(upto(m, n) && n < usize::MAX);
        assert(vars_ok(c, n + 1));
        assert(once(m2));
        assert forall|w: Wire| wi(w) < c.n implies exists|j: int| #[trigger] listed(m2, wv(c, wk(w))[wi(w)], j, w) by {
            assert(wv(c, wk(w)) == wv(o, wk(w)));
            let j = choose|j: int| #[trigger] listed(m, wv(o, wk(w))[wi(w)], j, w);
            assert(listed(m2, wv(c, wk(w))[wi(w)], j, w));
        }
    }
}
@fn cnew
@file plonk/src/composer/mod.rs
@impl Composer<F>
@name new
@wrap impl Composer {
@call Map::new AMap::new()
@header
pub fn new() -> (ret: Self)
    ensures inv(ret), ret.n == 0,
@at let:cs
proof { assert(upto(cs.permutation.variable_map@, 0)); }
@at fe
proof {
    assert forall|v: Variable, j: int, w: Wire| !#[trigger] listed(ret_.permutation.variable_map@, v, j, w) by { assert(ret_.permutation.variable_map@.dom().contains(v) == (v == ret_.null_var)); }
    assert(vars_ok(ret_, 1));
}
@fn create_poly_gate
@file plonk/src/composer/arithmetic.rs
@impl Composer<F>
@wrap impl Composer {
@header
fn create_poly_gate(&mut self, l: (Variable, F), r: (Variable, F), o: (Variable, F), aux: Option<(Variable, F)>, q_m: F, q_c: F, pi: F)
    requires inv(*old(self)), old(self).n < usize::MAX, known(*old(self), l.0), known(*old(self), r.0), known(*old(self), o.0), aux_known(*old(self), aux),
    ensures inv(*final(self)), grown(*old(self), *final(self)), final(self).pi[old(self).n as int] == pi,
        forall|a: Map<Variable, F>| #[trigger] rowv(*final(self), old(self).n as int, a) == gatev(l, r, o, aux, q_m, q_c, pi, a),
@at fs
let ghost aux0 = aux;
@at fe
proof {
    let (b, c) = (*old(self), *self);
    assert(c.q_0@.drop_last() =~= b.q_0@ && c.q_1@.drop_last() =~= b.q_1@ && c.q_2@.drop_last() =~= b.q_2@ && c.q_3@.drop_last() =~= b.q_3@);
    assert(c.q_m@.drop_last() =~= b.q_m@ && c.q_c@.drop_last() =~= b.q_c@ && c.q_arith@.drop_last() =~= b.q_arith@ && c.pi@.drop_last() =~= b.pi@);
    assert(c.w_0@.drop_last() =~= b.w_0@ && c.w_1@.drop_last() =~= b.w_1@ && c.w_2@.drop_last() =~= b.w_2@ && c.w_3@.drop_last() =~= b.w_3@);
    assert forall|v: Variable| known(b, v) <==> #[trigger] known(c, v) by { }
    lemma_gate(b, c, aux.0, l.0, r.0, o.0);
    let n = choose|n: int| #[trigger] vars_ok(b, n);
    assert(vars_ok(c, n)) by { assert forall|v: Variable| #[trigger] c.permutation.variable_map@.contains_key(v) <==> v.0 < n by { assert(known(c, v) == known(b, v)); } }
    assert forall|a: Map<Variable, F>| #[trigger] rowv(c, b.n as int, a) == gatev(l, r, o, aux0, q_m, q_c, pi, a) by { if aux0 is None { fz(a[b.null_var]); } }
}
@fn compose
@file plonk/src/composer/synthesize.rs
@impl Composer<F>
@wrap impl Composer {
@header
pub fn compose(&self, ks: &[F; 4]) -> (ret: Result<Selectors, Error>)
    requires inv(*self),
    ensures ret is Ok ==> dsize(self.n as int) >= self.n && selectors_of(*self, dsize(self.n as int), ks@, ret->Ok_0),
@at let:zeros
proof {
    let m = n as int;
    assert forall|v: Seq<F>| v.len() == self.n implies v + zeros@ == #[trigger] padded(v, m) by { assert(v + zeros@ =~= padded(v, m)); }
}
@at fe
proof {
    let m = n as int;
    assert(self.q_0@ + zeros@ == padded(self.q_0@, m) && self.q_1@ + zeros@ == padded(self.q_1@, m) && self.q_2@ + zeros@ == padded(self.q_2@, m) && self.q_3@ + zeros@ == padded(self.q_3@, m));
    assert(self.q_m@ + zeros@ == padded(self.q_m@, m) && self.q_c@ + zeros@ == padded(self.q_c@, m) && self.q_arith@ + zeros@ == padded(self.q_arith@, m));
}
@fn synthesize
@file plonk/src/composer/synthesize.rs
@impl Composer<F>
@wrap impl Composer {
@header
pub fn synthesize(&self) -> (ret: Result<Witnesses, Error>)
    requires inv(*self),
    ensures ret is Ok ==> dsize(self.n as int) >= self.n && witness_of(*self, dsize(self.n as int), ret->Ok_0),
@inv 0
end0 == self.w_0.len(), acc0@ =~= wvals(*self, 0).subrange(0, k0 as int),
@at la0
proof { assert(acc0@ =~= wvals(*self, 0)); }
@inv 1
end1 == self.w_1.len(), acc1@ =~= wvals(*self, 1).subrange(0, k1 as int),
@at la1
proof { assert(acc1@ =~= wvals(*self, 1)); }
@inv 2
end2 == self.w_2.len(), acc2@ =~= wvals(*self, 2).subrange(0, k2 as int),
@at la2
proof { assert(acc2@ =~= wvals(*self, 2)); }
@inv 3
end3 == self.w_3.len(), acc3@ =~= wvals(*self, 3).subrange(0, k3 as int),
@at la3
proof { assert(acc3@ =~= wvals(*self, 3)); }
@at fe
proof {
    let m = n as int;
    assert(wvals(*self, 0) + zeros@ =~= padded(wvals(*self, 0), m));
    assert(wvals(*self, 1) + zeros@ =~= padded(wvals(*self, 1), m));
    assert(wvals(*self, 2) + zeros@ =~= padded(wvals(*self, 2), m));
    assert(wvals(*self, 3) + zeros@ =~= padded(wvals(*self, 3), m));
}
@fn constrain_to_constant
@file plonk/src/composer/arithmetic.rs
@impl Composer<F>
@wrap impl Composer {
@header
pub fn constrain_to_constant(&mut self, var: Variable, value: F, pi: F)
    requires inv(*old(self)), old(self).n < usize::MAX, known(*old(self), var),
    ensures inv(*final(self)), grown(*old(self), *final(self)), final(self).pi[old(self).n as int] == fneg(pi),
        forall|a: Map<Variable, F>| #[trigger] rowv(*final(self), old(self).n as int, a) == fsub(fsub(a[var], value), pi),
@at fe
proof {
    let n0 = old(self).n as int;
    assert forall|a: Map<Variable, F>| #[trigger] rowv(*self, n0, a) == fsub(fsub(a[var], value), pi) by { gconst(a[var], value, pi); }
}
@fn assert_equal
@file plonk/src/composer/arithmetic.rs
@impl Composer<F>
@wrap impl Composer {
@header
pub fn assert_equal(&mut self, l: Variable, r: Variable)
    requires inv(*old(self)), old(self).n < usize::MAX, known(*old(self), l), known(*old(self), r),
    ensures inv(*final(self)), grown(*old(self), *final(self)), final(self).pi[old(self).n as int] == f0(),
        forall|a: Map<Variable, F>| #[trigger] rowv(*final(self), old(self).n as int, a) == fsub(a[l], a[r]),
@at fe
proof {
    let n0 = old(self).n as int;
    assert forall|a: Map<Variable, F>| #[trigger] rowv(*self, n0, a) == fsub(a[l], a[r]) by { let n = choose|n: int| #[trigger] vars_ok(*old(self), n); gequal(a[l], a[r], a[old(self).null_var]); }
}
@fn create_add_gate
@file plonk/src/composer/arithmetic.rs
@impl Composer<F>
@wrap impl Composer {
@header
pub fn create_add_gate(&mut self, l: (Variable, F), r: (Variable, F), o: Variable, aux: Option<(Variable, F)>, q_c: F, pi: F)
    requires inv(*old(self)), old(self).n < usize::MAX, known(*old(self), l.0), known(*old(self), r.0), known(*old(self), o), aux_known(*old(self), aux),
    ensures inv(*final(self)), grown(*old(self), *final(self)), final(self).pi[old(self).n as int] == pi,
        forall|a: Map<Variable, F>| #[trigger] rowv(*final(self), old(self).n as int, a) == fsub(fadd(fadd(fadd(fadd(fmul(l.1, a[l.0]), fmul(r.1, a[r.0])), auxv(aux, a)), q_c), pi), a[o]),
@at fe
proof {
    let n0 = old(self).n as int;
    assert forall|a: Map<Variable, F>| #[trigger] rowv(*self, n0, a) == fsub(fadd(fadd(fadd(fadd(fmul(l.1, a[l.0]), fmul(r.1, a[r.0])), auxv(aux, a)), q_c), pi), a[o]) by { gadd(auxv(aux, a), l.1, a[l.0], r.1, a[r.0], a[o], q_c, pi); }
}
@fn create_mul_gate
@file plonk/src/composer/arithmetic.rs
@impl Composer<F>
@wrap impl Composer {
@header
pub fn create_mul_gate(&mut self, l: Variable, r: Variable, o: Variable, aux: Option<(Variable, F)>, q_m: F, q_c: F, pi: F)
    requires inv(*old(self)), old(self).n < usize::MAX, known(*old(self), l), known(*old(self), r), known(*old(self), o), aux_known(*old(self), aux),
    ensures inv(*final(self)), grown(*old(self), *final(self)), final(self).pi[old(self).n as int] == pi,
        forall|a: Map<Variable, F>| #[trigger] rowv(*final(self), old(self).n as int, a) == fsub(fadd(fadd(fadd(fmul(q_m, fmul(a[l], a[r])), auxv(aux, a)), q_c), pi), a[o]),
@at fe
proof {
    let n0 = old(self).n as int;
    assert forall|a: Map<Variable, F>| #[trigger] rowv(*self, n0, a) == fsub(fadd(fadd(fadd(fmul(q_m, fmul(a[l], a[r])), auxv(aux, a)), q_c), pi), a[o]) by { gmul(auxv(aux, a), a[l], a[r], a[o], q_m, q_c, pi); }
}

// ---- Booleans ----
#[derive(Clone, Copy)]
pub struct AllocatedBit { pub variable: Variable, pub value: Option<bool> }
#[derive(Clone, Copy)]
pub enum Boolean { Is(AllocatedBit), Not(AllocatedBit), Constant(bool) }
// what gadgets compute with: a field value under an assignment and, perhaps, a known bit
pub trait Bit: Sized {
    spec fn fv(self, w: Asg) -> F;
    spec fn known(self) -> Option<bool>;
    // the value of a constant
    spec fn cst(self) -> Option<bool>;
}
pub open spec fn okc(k: Option<bool>, x: bool) -> bool { k is Some ==> k->Some_0 == x }
impl Bit for AllocatedBit {
    open spec fn fv(self, w: Asg) -> F { w(self.variable) }
    open spec fn known(self) -> Option<bool> { self.value }
    open spec fn cst(self) -> Option<bool> { None }
}
impl Bit for Boolean {
    open spec fn fv(self, w: Asg) -> F {
        match self { Boolean::Is(v) => w(v.variable), Boolean::Not(v) => fsub(f1(), w(v.variable)), Boolean::Constant(c) => b2f(c) }
    }
    open spec fn known(self) -> Option<bool> {
        match self {
            Boolean::Is(v) => v.value,
            Boolean::Not(v) => match v.value { Some(b) => Some(!b), None => None },
            Boolean::Constant(c) => Some(c),
        }
    }
    open spec fn cst(self) -> Option<bool> { match self { Boolean::Constant(c) => Some(c), _ => None } }
}
pub open spec fn isbit<B: Bit>(b: B, w: Asg) -> bool { b.fv(w) == f0() || b.fv(w) == f1() }
pub open spec fn tv<B: Bit>(b: B, w: Asg) -> bool { b.fv(w) == f1() }
// the known value is there and is the one under w
pub open spec fn right<B: Bit>(b: B, w: Asg) -> bool { b.known() is Some && b.fv(w) == b2f(b.known()->Some_0) }
// a constant result is the value for every operand values that agree with the constant operands
pub open spec fn cst1(a: Option<bool>, r: Option<bool>, f: spec_fn(bool) -> bool) -> bool {
    &&& r is Some && okc(a, false) ==> r->Some_0 == f(false)
    &&& r is Some && okc(a, true) ==> r->Some_0 == f(true)
}
// a constant result is the value for every operand values that agree with the constant operands
pub open spec fn cst2(a: Option<bool>, b: Option<bool>, r: Option<bool>, f: spec_fn(bool, bool) -> bool) -> bool {
    &&& r is Some && okc(a, false) && okc(b, false) ==> r->Some_0 == f(false, false)
    &&& r is Some && okc(a, false) && okc(b, true) ==> r->Some_0 == f(false, true)
    &&& r is Some && okc(a, true) && okc(b, false) ==> r->Some_0 == f(true, false)
    &&& r is Some && okc(a, true) && okc(b, true) ==> r->Some_0 == f(true, true)
}
// a constant result is the value for every operand values that agree with the constant operands
pub open spec fn cst3(a: Option<bool>, b: Option<bool>, c: Option<bool>, r: Option<bool>, f: spec_fn(bool, bool, bool) -> bool) -> bool {
    &&& r is Some && okc(a, false) && okc(b, false) && okc(c, false) ==> r->Some_0 == f(false, false, false)
    &&& r is Some && okc(a, false) && okc(b, false) && okc(c, true) ==> r->Some_0 == f(false, false, true)
    &&& r is Some && okc(a, false) && okc(b, true) && okc(c, false) ==> r->Some_0 == f(false, true, false)
    &&& r is Some && okc(a, false) && okc(b, true) && okc(c, true) ==> r->Some_0 == f(false, true, true)
    &&& r is Some && okc(a, true) && okc(b, false) && okc(c, false) ==> r->Some_0 == f(true, false, false)
    &&& r is Some && okc(a, true) && okc(b, false) && okc(c, true) ==> r->Some_0 == f(true, false, true)
    &&& r is Some && okc(a, true) && okc(b, true) && okc(c, false) ==> r->Some_0 == f(true, true, false)
    &&& r is Some && okc(a, true) && okc(b, true) && okc(c, true) ==> r->Some_0 == f(true, true, true)
}
pub open spec fn gate1<A: Bit, R: Bit>(o: CS, n: CS, a: A, r: R, f: spec_fn(bool) -> bool) -> bool {
    &&& grows(o, n)
    &&& forall|w: Asg| wf(w) && #[trigger] n.sat(w) && isbit(a, w) ==> r.fv(w) == b2f(f(tv(a, w)))
    &&& forall|w: Asg| wf(w) && #[trigger] o.sat(w) && follows(o, n, w) && right(a, w) && o.prv() ==> n.sat(w) && right(r, w)
    &&& o.prv() && a.known() is Some ==> r.known() == Some(f(a.known()->Some_0))
    &&& cst1(a.cst(), r.cst(), f)
}
pub open spec fn gate2<A: Bit, B: Bit, R: Bit>(o: CS, n: CS, a: A, b: B, r: R, f: spec_fn(bool, bool) -> bool) -> bool {
    &&& grows(o, n)
    &&& forall|w: Asg| wf(w) && #[trigger] n.sat(w) && isbit(a, w) && isbit(b, w) ==> r.fv(w) == b2f(f(tv(a, w), tv(b, w)))
    &&& forall|w: Asg| wf(w) && #[trigger] o.sat(w) && follows(o, n, w) && right(a, w) && right(b, w) && o.prv() ==> n.sat(w) && right(r, w)
    &&& o.prv() && a.known() is Some && b.known() is Some ==> r.known() == Some(f(a.known()->Some_0, b.known()->Some_0))
    &&& cst2(a.cst(), b.cst(), r.cst(), f)
}
pub open spec fn gate3<A: Bit, B: Bit, C: Bit, R: Bit>(o: CS, n: CS, a: A, b: B, c: C, r: R, f: spec_fn(bool, bool, bool) -> bool) -> bool {
    &&& grows(o, n)
    &&& forall|w: Asg| wf(w) && #[trigger] n.sat(w) && isbit(a, w) && isbit(b, w) && isbit(c, w) ==> r.fv(w) == b2f(f(tv(a, w), tv(b, w), tv(c, w)))
    &&& forall|w: Asg| wf(w) && #[trigger] o.sat(w) && follows(o, n, w) && right(a, w) && right(b, w) && right(c, w) && o.prv() ==> n.sat(w) && right(r, w)
    &&& o.prv() && a.known() is Some && b.known() is Some && c.known() is Some ==> r.known() == Some(f(a.known()->Some_0, b.known()->Some_0, c.known()->Some_0))
    &&& cst3(a.cst(), b.cst(), c.cst(), r.cst(), f)
}
pub open spec fn new_bit(o: CS, n: CS, value: Option<bool>, r: AllocatedBit) -> bool {
    &&& grows(o, n) && r.value == value && n.has(r.variable) && !o.has(r.variable)
    &&& forall|w: Asg| wf(w) && #[trigger] n.sat(w) ==> isbit(r, w)
    &&& o.prv() ==> value is Some
    &&& forall|w: Asg| wf(w) && #[trigger] o.sat(w) && follows(o, n, w) && o.prv() ==> n.sat(w) && right(r, w)
}
impl Val for AllocatedBit { open spec fn val(self, w: Asg) -> F { self.fv(w) } }
impl Val for Boolean { open spec fn val(self, w: Asg) -> F { self.fv(w) } }
impl Conv<Boolean> for AllocatedBit { fn conv(self) -> (o: Boolean) ensures o == Boolean::Is(self) { from_bit(self) } }
pub open spec fn flip(b: Boolean) -> Boolean {
    match b { Boolean::Is(v) => Boolean::Not(v), Boolean::Not(v) => Boolean::Is(v), Boolean::Constant(c) => Boolean::Constant(!c) }
}
// `^`, `&` and `|` (method form)
pub trait BitOps: Sized { fn bxor(self, r: Self) -> Self; fn band(self, r: Self) -> Self; fn bor(self, r: Self) -> Self; }
impl BitOps for bool {
    fn bxor(self, r: bool) -> (o: bool) ensures o == (self != r) { self != r }
    fn band(self, r: bool) -> (o: bool) ensures o == (self && r) { self && r }
    fn bor(self, r: bool) -> (o: bool) ensures o == (self || r) { self || r }
}
pub open spec fn bit(x: F) -> bool { x == f0() || x == f1() }
pub proof fn ch_law()
    ensures forall|a: F, b: F, c: F, r: F| #![trigger fmul(fadd(b, fmul(m1(), c)), a), fadd(r, fmul(m1(), c))] bit(a) && bit(b) && bit(c) ==>
        (fmul(fadd(b, fmul(m1(), c)), a) == fadd(r, fmul(m1(), c)) <==> r == (if a == f1() { b } else { c })),
{
    field_laws();
    assert forall|a: F, b: F, c: F, r: F| #![trigger fmul(fadd(b, fmul(m1(), c)), a), fadd(r, fmul(m1(), c))] bit(a) && bit(b) && bit(c) implies
        (fmul(fadd(b, fmul(m1(), c)), a) == fadd(r, fmul(m1(), c)) <==> r == (if a == f1() { b } else { c })) by {
        let d = fmul(m1(), c);
        assert(fadd(fadd(r, d), c) == r);
        assert(fadd(fadd(b, d), c) == b);
        assert(d == fneg(c));
        assert(fadd(f0(), c) == c);
        if a == f1() { } else { assert(fadd(c, fneg(c)) == f0()); }
    }
}
pub proof fn maj_law()
    ensures forall|a: F, b: F, c: F, q: F, r: F| #![trigger fmul(fadd(fadd(fadd(q, q), fmul(m1(), b)), fmul(m1(), c)), a), fadd(q, fmul(m1(), r))]
        bit(a) && bit(b) && bit(c) && q == (if b == f1() { c } else { f0() }) ==>
        (fmul(fadd(fadd(fadd(q, q), fmul(m1(), b)), fmul(m1(), c)), a) == fadd(q, fmul(m1(), r)) <==> r == (if b == c { b } else { a })),
{
    field_laws();
    assert forall|a: F, b: F, c: F, q: F, r: F| #![trigger fmul(fadd(fadd(fadd(q, q), fmul(m1(), b)), fmul(m1(), c)), a), fadd(q, fmul(m1(), r))]
        bit(a) && bit(b) && bit(c) && q == (if b == f1() { c } else { f0() }) implies
        (fmul(fadd(fadd(fadd(q, q), fmul(m1(), b)), fmul(m1(), c)), a) == fadd(q, fmul(m1(), r)) <==> r == (if b == c { b } else { a })) by {
        let e = fadd(fadd(fadd(q, q), fmul(m1(), b)), fmul(m1(), c));
        let n = fneg(r);
        assert(fmul(m1(), r) == n && fneg(n) == r);
        assert(fmul(m1(), b) == fneg(b) && fmul(m1(), c) == fneg(c));
        if b == f1() && c == f1() {
            assert(fadd(fadd(f1(), f1()), fneg(f1())) == f1());
            assert(e == f0());
            ax_add_assoc(n, f1(), fneg(f1()));
            assert(fadd(f1(), fneg(f1())) == f0());
            if fadd(f1(), n) == f0() { ax_add_assoc(r, n, f1()); assert(r == f1()); }
        } else if b == f0() && c == f0() {
            assert(e == f0());
            if fadd(f0(), n) == f0() { assert(r == f0()); }
        } else {
            assert(e == fneg(f1()));
            assert(fmul(e, a) == fneg(a));
            if fneg(a) == n { assert(r == fneg(fneg(a))); }
        }
    }
}
impl BitOps for usize {
    fn bxor(self, r: usize) -> (o: usize) ensures o == self ^ r { self ^ r }
    fn band(self, r: usize) -> (o: usize) ensures o == self & r { self & r }
    fn bor(self, r: usize) -> (o: usize) ensures o == self | r { self | r }
}
impl BitOps for u32 {
    fn bxor(self, r: u32) -> (o: u32) ensures o == self ^ r { self ^ r }
    fn band(self, r: u32) -> (o: u32) ensures o == self & r { self & r }
    fn bor(self, r: u32) -> (o: u32) ensures o == self | r { self | r }
}

//! Recording constraint system: the constraints a gadget emits, the honest assignment, and
//! uniqueness propagation over the constraints.
use ark_ff::PrimeField;
use zkp_r1cs::{ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};

pub struct Rec<F: PrimeField> {
    pub ins: Vec<F>,
    pub aux: Vec<F>,
    pub cons: Vec<(LinearCombination<F>, LinearCombination<F>, LinearCombination<F>)>,
    pub missing: usize,
    pub depth: i64,
    /// only the shape: assignments are not asked for
    pub shape_only: bool,
}
impl<F: PrimeField> Rec<F> {
    pub fn new() -> Self {
        Rec { ins: vec![F::one()], aux: vec![], cons: vec![], missing: 0, depth: 0, shape_only: false }
    }
    pub fn shape() -> Self {
        let mut r = Self::new();
        r.shape_only = true;
        r
    }
    /// the same constraints over the same variables
    pub fn same_shape(&self, o: &Self) -> bool {
        let lc = |a: &LinearCombination<F>, b: &LinearCombination<F>| {
            a.as_ref().len() == b.as_ref().len() && a.as_ref().iter().zip(b.as_ref()).all(|(x, y)| x.0 == y.0 && x.1 == y.1)
        };
        self.ins.len() == o.ins.len()
            && self.aux.len() == o.aux.len()
            && self.cons.len() == o.cons.len()
            && self.cons.iter().zip(&o.cons).all(|(x, y)| lc(&x.0, &y.0) && lc(&x.1, &y.1) && lc(&x.2, &y.2))
    }
    /// number of a variable in the numbering of `csolve`
    pub fn num(&self, v: Variable) -> usize {
        match v.get_unchecked() {
            Index::Input(i) => i,
            Index::Aux(i) => self.ins.len() + i,
        }
    }
    pub fn val(&self, v: Variable) -> F {
        match v.get_unchecked() {
            Index::Input(i) => self.ins[i],
            Index::Aux(i) => self.aux[i],
        }
    }
    pub fn ev(&self, l: &LinearCombination<F>) -> F {
        let mut r = F::zero();
        for (v, c) in l.as_ref() {
            r += *c * self.val(*v);
        }
        r
    }
    /// index of the first violated constraint
    pub fn violated(&self) -> Option<usize> {
        self.cons.iter().position(|(a, b, c)| self.ev(a) * self.ev(b) != self.ev(c))
    }
}
impl<F: PrimeField> ConstraintSystem<F> for Rec<F> {
    type Root = Self;
    fn alloc<FN, A, AR>(&mut self, _: A, f: FN) -> Result<Variable, SynthesisError>
    where
        FN: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = if self.shape_only { F::zero() } else { f()? };
        self.aux.push(v);
        Ok(Variable::new_unchecked(Index::Aux(self.aux.len() - 1)))
    }
    fn alloc_input<FN, A, AR>(&mut self, _: A, f: FN) -> Result<Variable, SynthesisError>
    where
        FN: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let v = if self.shape_only { F::zero() } else { f()? };
        self.ins.push(v);
        Ok(Variable::new_unchecked(Index::Input(self.ins.len() - 1)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, _: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LB: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LC: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
    {
        let z = LinearCombination::zero;
        self.cons.push((a(z()), b(z()), c(z())));
    }
    fn push_namespace<NR, N>(&mut self, _: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.depth += 1;
    }
    fn pop_namespace(&mut self) {
        self.depth -= 1;
    }
    fn get_root(&mut self) -> &mut Self::Root {
        self
    }
    fn num_constraints(&self) -> usize {
        self.cons.len()
    }
}

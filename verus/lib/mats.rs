// sum over the rows of v_row * m[row][col]
pub open spec fn colterm(v: Seq<F>, m: Seq<Vec<F>>, c: int) -> spec_fn(int) -> F { |r: int| fmul(v[r], m[r][c]) }
#[verifier::external_body]
pub struct VMap { x: u8 }
impl VMap {
    pub uninterp spec fn at(self, r: int, c: int) -> F;
    #[verifier::external_body]
    pub fn get(&self, k: &(u32, u32)) -> (o: VEntry) ensures forall|z: F| #[trigger] o.or(z) == (if o.some() { self.at(k.0 as int, k.1 as int) } else { z }), !o.some() ==> self.at(k.0 as int, k.1 as int) == f0() { unimplemented!() }
}
#[verifier::external_body]
pub struct VEntry { x: u8 }
impl VEntry {
    pub uninterp spec fn some(self) -> bool;
    pub uninterp spec fn or(self, z: F) -> F;
    #[verifier::external_body]
    pub fn unwrap_or(self, z: &F) -> (r: F) ensures r == self.or(*z) { unimplemented!() }
}

pub trait FNeg: Sized { fn negate(self) -> (r: F); }
impl FNeg for F { #[verifier::external_body] fn negate(self) -> (r: F) ensures r == fneg(self) { unimplemented!() } }

// ---- constraints: a deterministic predicate of the point ----
pub trait Constraints {
    spec fn holds(&self, x: DVector<F>) -> bool;
    spec fn fits(&self, x: DVector<F>) -> bool;
    fn meets_constraints(&self, x: &DVector<F>) -> (r: bool)
        requires self.fits(*x),
        ensures r == self.holds(*x);
}
/// stands for `dyn Constraints` and its `Box`
#[verifier::external_body] pub struct DynC { x: u64 }
#[verifier::external_body] pub struct BoxC { x: u64 }
impl Constraints for DynC {
    uninterp spec fn holds(&self, x: DVector<F>) -> bool;
    open spec fn fits(&self, x: DVector<F>) -> bool { true }
    #[verifier::external_body] fn meets_constraints(&self, x: &DVector<F>) -> (r: bool) { unimplemented!() }
}
impl BoxC {
    pub uninterp spec fn view(&self) -> DynC;
    #[verifier::external_body] pub fn as_ref(&self) -> (r: &DynC) ensures *r == self@ { unimplemented!() }
}

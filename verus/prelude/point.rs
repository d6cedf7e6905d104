// nalgebra's DVector<f64>: contents
#[verifier::external_body]
#[verifier::reject_recursive_types(T)] pub struct DVector<T> { v: Vec<T> }
impl DVector<F> { pub uninterp spec fn view(&self) -> Seq<F>; }
pub broadcast axiom fn axiom_dvector_ext(a: DVector<F>, b: DVector<F>) requires #[trigger] a.view() == #[trigger] b.view() ensures a == b;
impl Clone for DVector<F> { #[verifier::external_body] fn clone(&self) -> (r: DVector<F>) ensures r == *self { unimplemented!() } }
//@item src/sampling.rs struct EvaluatedPoint
impl EvaluatedPoint {
//@fn src/sampling.rs "impl EvaluatedPoint" point
//@| ensures *r == self.point,
//@end
//@fn src/sampling.rs "impl EvaluatedPoint" value
//@| ensures r == self.value,
//@end
//@fn src/sampling.rs "impl EvaluatedPoint" unscaled_step
//@| ensures *r == self.unscaled_step,
//@end
}
//@item src/lib.rs struct Individual
impl Clone for Individual { fn clone(&self) -> (r: Individual) ensures r == *self { Individual { point: self.point.clone(), value: self.value } } }
impl Individual {
//@fn src/lib.rs "impl Individual" new
//@| ensures r.point == point, r.value == value,
//@end
}

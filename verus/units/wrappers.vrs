//@include prelude/head.rs
verus! {
//@include prelude/std.rs
//@include prelude/float.rs
//@include prelude/iter.rs
//@include prelude/point.rs
//@include prelude/linalg.rs
//@include prelude/ops.rs
//@include prelude/mode.rs
//@include prelude/sort.rs
//@include prelude/state.rs
//@include prelude/eigen.rs
//@include prelude/history.rs
//@include prelude/history_get.rs
//@include prelude/time.rs
//@include prelude/params.rs
//@include prelude/constraints.rs
//@include prelude/options.rs
//@include prelude/weights.rs
//@include prelude/update.rs
//@include prelude/generation.rs
//@include prelude/termination.rs
//@include prelude/plot.rs
//@include prelude/cmaes.rs
//@include prelude/defaults.rs
impl CMAESOptions {
//@import options src/options.rs "impl CMAESOptions" new
//@import options src/options.rs "impl CMAESOptions" mode
//@import options src/options.rs "impl CMAESOptions" enable_printing
//@import options src/options.rs "impl CMAESOptions" build
}
impl<F2: ObjectiveFunction> CMAES<F2> {
//@import cmaes src/lib.rs "impl<F: ObjectiveFunction> CMAES<F>" run
//@import cmaes src/lib.rs "impl<F: ParallelObjectiveFunction> CMAES<F>" run_parallel
}
// ---- Scale ----
/// component-wise product
pub uninterp spec fn dv_component_mul(a: DVector<F>, b: DVector<F>) -> DVector<F>;
pub broadcast axiom fn axiom_component_mul(a: DVector<F>, b: DVector<F>) ensures #![trigger dv_component_mul(a, b)] a@.len() == b@.len() ==> dv_component_mul(a, b)@.len() == a@.len() && forall|i: int| 0 <= i < a@.len() ==> #[trigger] dv_component_mul(a, b)@[i] == fmul(a@[i], b@[i]);
pub broadcast axiom fn axiom_component_mul_comm(a: DVector<F>, b: DVector<F>) ensures #[trigger] dv_component_mul(a, b) == dv_component_mul(b, a);
impl DVector<F> { #[verifier::external_body] pub fn component_mul(&self, o: &DVector<F>) -> (r: DVector<F>) ensures r == dv_component_mul(*self, *o) { unimplemented!() } }
//@item src/objective_function.rs struct Scale
//@isub 1 /Scale<F>/Scale<F2>/
//@isub 1 /function: F\b/function: F2/
impl<F2> Scale<F2> {
//@fn src/objective_function.rs "impl<F> Scale<F>" new
//@sub sig * /: Into<DVector<f64>>/: IntoDv/
//@sub sig * /function: F\b/function: F2/
//@sub * /\.into\(\)/.into_dv()/
//@| ensures r.function == function, r.scales == dv_of(scales), /*C21*/
//@end
//@fn src/objective_function.rs "impl<F> Scale<F>" scale
//@| ensures r == dv_component_mul(*vector, self.scales), /*C21*/
//@start| broadcast use axiom_component_mul_comm;
//@end
//@fn src/objective_function.rs "impl<F> Scale<F>" scales
//@| ensures *r == self.scales, /*C21*/
//@end
//@fn src/objective_function.rs "impl<F> Scale<F>" into_wrapped_function
//@sub sig 1 /-> F\b/-> F2/
//@| ensures r == self.function, /*C21*/
//@end
}
impl<F2: ObjectiveFunction> Scale<F2> {
    /// the wrapped function was called once, at the scaled point, and returned `r`
    pub open spec fn evaluated(self, o: Self, x: DVector<F>, r: F) -> bool {
        self.scales == o.scales && self.function.log() == o.function.log().push((dv_component_mul(x, o.scales), r))
    }
//@fn src/objective_function.rs "impl<F: ObjectiveFunction> ObjectiveFunction for Scale<F>" evaluate
//@| ensures final(self).evaluated(*old(self), *x, r), /*C21*/
//@start| broadcast use axiom_component_mul_comm;
//@end
//@fn src/objective_function.rs "impl<F: ParallelObjectiveFunction> ParallelObjectiveFunction for Scale<F>" evaluate_parallel
//@sub sig 1 /&self/&mut self/
//@| ensures final(self).evaluated(*old(self), *x, r), /*C21*/
//@start| broadcast use axiom_component_mul_comm;
//@end
}
// ---- the forwarding implementations ----
pub trait BoxRef<T>: Sized { fn as_mut_(&mut self) -> (r: &mut T); }
impl<T> BoxRef<T> for Box<T> { #[verifier::external_body] fn as_mut_(&mut self) -> (r: &mut T) ensures *r == **old(self), *final(r) == **final(self) { unimplemented!() } }
pub trait ForwardScale<F2: ObjectiveFunction> { fn evaluate(&mut self, x: &DVector<F>) -> (r: F); }
impl<'a, F2: ObjectiveFunction> ForwardScale<F2> for &'a mut Scale<F2> {
//@fn src/objective_function.rs "impl<'a, F: ObjectiveFunction> ObjectiveFunction for &'a mut Scale<F>" evaluate
//@sub * /ObjectiveFunction::evaluate\(/Scale::evaluate(/
//@| ensures (**final(self)).evaluated(**old(self), *x, r), /*C21*/
//@end
}
pub trait ForwardScaleParallel<F2: ObjectiveFunction> { fn evaluate_parallel(&mut self, x: &DVector<F>) -> (r: F); }
impl<'a, F2: ObjectiveFunction> ForwardScaleParallel<F2> for &'a mut Scale<F2> {
//@fn src/objective_function.rs "impl<'a, F: ParallelObjectiveFunction> ParallelObjectiveFunction for &'a Scale<F>" evaluate_parallel
//@sub sig 1 /&self/&mut self/
//@sub * /ParallelObjectiveFunction::evaluate_parallel\(/Scale::evaluate_parallel(/
//@| ensures (**final(self)).evaluated(**old(self), *x, r), /*C21*/
//@end
}
pub trait ForwardBox { fn evaluate(&mut self, x: &DVector<F>) -> (r: F); fn evaluate_parallel(&mut self, x: &DVector<F>) -> (r: F); }
// (a `dyn ObjectiveFunction` is some G)
impl<G: ObjectiveFunction> ForwardBox for Box<G> {
//@fn src/objective_function.rs "impl ObjectiveFunction for Box<dyn ObjectiveFunction>" evaluate
//@sub * /\.as_mut\(\)/.as_mut_()/
//@| ensures final(self).log() == old(self).log().push((*x, r)), /*C21*/
//@end
//@fn src/objective_function.rs "impl ParallelObjectiveFunction for Box<dyn ParallelObjectiveFunction>" evaluate_parallel
//@sub sig 1 /&self/&mut self/
//@sub * /\.as_ref\(\)/.as_mut_()/
//@| ensures final(self).log() == old(self).log().push((*x, r)), /*C21*/
//@end
}
pub trait ForwardFnMut { spec fn callable(&self, x: &DVector<F>) -> bool; fn evaluate(&mut self, x: &DVector<F>) -> (r: F) requires old(self).callable(x); }
impl<G: FnMut(&DVector<F>) -> F> ForwardFnMut for G {
    open spec fn callable(&self, x: &DVector<F>) -> bool { call_requires(*self, (x,)) }
//@fn src/objective_function.rs "impl<F: FnMut(&DVector<f64>) -> f64> ObjectiveFunction for F" evaluate
//@| ensures call_ensures(*old(self), (x,), r), /*C21*/
//@end
}
pub trait ForwardFn { spec fn callable(&self, x: &DVector<F>) -> bool; fn evaluate_parallel(&self, x: &DVector<F>) -> (r: F) requires self.callable(x); }
impl<G: Fn(&DVector<F>) -> F> ForwardFn for G {
    open spec fn callable(&self, x: &DVector<F>) -> bool { call_requires(*self, (x,)) }
//@fn src/objective_function.rs "impl<F: Sync + Fn(&DVector<f64>) -> f64> ParallelObjectiveFunction for F" evaluate_parallel
//@| ensures call_ensures(*self, (x,), r), /*C21*/
//@end
}
//@include prelude/unwrap.rs
//@item src/functions.rs const PRINT_GAP_EVALS
//@item src/functions.rs const INVALID_OPTIONS
//@isub 1 /&str/&'static str/
//@item src/functions.rs const INVALID_VALUE
//@isub 1 /&str/&'static str/
/// the best individual of a run with the default options
pub open spec fn best_of_default_run<F2: ObjectiveFunction>(f: F2, m: DVector<F>, s: F, mode: Mode, r: Individual) -> bool {
    exists|o: CMAESOptions, a: CMAES<F2>, c: CMAES<F2>, d: TerminationData, t: Seq<CMAES<F2>>| (CMAESOptions { mode: Mode::Minimize, print_gap_evals: None, ..o }).defaults(m, s) && o.mode == mode && #[trigger] a.built(o, f) && #[trigger] c.ran(a, d, t) && d.overall_best == Some(r)
}
//@fn src/functions.rs - fmin
//@rename fmin_fn
//@sub sig 1 /<F, V>/<F2, V>/
//@sub sig 1 /f: F\b/f: F2/
//@sub sig 1 /\bF: \w+/F2: ObjectiveFunction/
//@sub sig 1 /V: Into<DVector<f64>>/V: IntoDv/
//@sub * /\.expect\(/.expect_(/
//@| requires forall|o: CMAESOptions| o.initial_mean == dv_of(initial_mean) && (default_lambda(dv_of(initial_mean)@.len() as int) <= usize::MAX ==> o.population_size == default_lambda(dv_of(initial_mean)@.len() as int)) ==> #[trigger] o.sizes_in_range(),
//@| ensures best_of_default_run(f, dv_of(initial_mean), initial_step_size, Mode::Minimize, r), /*C21*/
//@end
//@fn src/functions.rs - fmin_parallel
//@rename fmin_parallel_fn
//@sub sig 1 /<F, V>/<F2, V>/
//@sub sig 1 /f: F\b/f: F2/
//@sub sig 1 /\bF: \w+/F2: ObjectiveFunction/
//@sub sig 1 /V: Into<DVector<f64>>/V: IntoDv/
//@sub * /\.expect\(/.expect_(/
//@| requires forall|o: CMAESOptions| o.initial_mean == dv_of(initial_mean) && (default_lambda(dv_of(initial_mean)@.len() as int) <= usize::MAX ==> o.population_size == default_lambda(dv_of(initial_mean)@.len() as int)) ==> #[trigger] o.sizes_in_range(),
//@| ensures best_of_default_run(f, dv_of(initial_mean), initial_step_size, Mode::Minimize, r), /*C21*/
//@end
//@fn src/functions.rs - fmax
//@rename fmax_fn
//@sub sig 1 /<F, V>/<F2, V>/
//@sub sig 1 /f: F\b/f: F2/
//@sub sig 1 /\bF: \w+/F2: ObjectiveFunction/
//@sub sig 1 /V: Into<DVector<f64>>/V: IntoDv/
//@sub * /\.expect\(/.expect_(/
//@| requires forall|o: CMAESOptions| o.initial_mean == dv_of(initial_mean) && (default_lambda(dv_of(initial_mean)@.len() as int) <= usize::MAX ==> o.population_size == default_lambda(dv_of(initial_mean)@.len() as int)) ==> #[trigger] o.sizes_in_range(),
//@| ensures best_of_default_run(f, dv_of(initial_mean), initial_step_size, Mode::Maximize, r), /*C21*/
//@end
//@fn src/functions.rs - fmax_parallel
//@rename fmax_parallel_fn
//@sub sig 1 /<F, V>/<F2, V>/
//@sub sig 1 /f: F\b/f: F2/
//@sub sig 1 /\bF: \w+/F2: ObjectiveFunction/
//@sub sig 1 /V: Into<DVector<f64>>/V: IntoDv/
//@sub * /\.expect\(/.expect_(/
//@| requires forall|o: CMAESOptions| o.initial_mean == dv_of(initial_mean) && (default_lambda(dv_of(initial_mean)@.len() as int) <= usize::MAX ==> o.population_size == default_lambda(dv_of(initial_mean)@.len() as int)) ==> #[trigger] o.sizes_in_range(),
//@| ensures best_of_default_run(f, dv_of(initial_mean), initial_step_size, Mode::Maximize, r), /*C21*/
//@end
} // verus!
fn main() {}

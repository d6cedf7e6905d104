//@include prelude/head.rs
verus! {
//@include prelude/std.rs
//@include prelude/float.rs
//@include prelude/iter.rs
//@include prelude/point.rs
//@include prelude/linalg.rs
//@include prelude/ops.rs
//@include prelude/mode.rs
//@include prelude/sort.rs
//@include prelude/state.rs
//@include prelude/eigen.rs
//@include prelude/history.rs
//@include prelude/history_get.rs
//@include prelude/time.rs
//@include prelude/params.rs
//@include prelude/constraints.rs
//@include prelude/options.rs
//@include prelude/weights.rs
//@include prelude/update.rs
//@include prelude/generation.rs
//@include prelude/termination.rs
//@include prelude/plot.rs
//@include prelude/cmaes.rs
//@include prelude/bounds.rs
impl Constraints for Bounds {
//@include prelude/bounds_spec.rs
//@import sampling src/sampling.rs "impl Constraints for Bounds" meets_constraints
}
impl BoxC {
    /// `Box::new` to `Box<dyn Constraints>`
    #[verifier::external_body] pub fn of<C: Constraints>(c: C) -> (r: BoxC) ensures forall|x: DVector<F>| c.fits(x) ==> (#[trigger] r@.holds(x) <==> c.holds(x)) { unimplemented!() }
}
impl<F2: ObjectiveFunction> CMAES<F2> {
//@import cmaes src/lib.rs "impl<F> CMAES<F>" new
}
impl PlotOptions {
//@fn src/plotting/options.rs "impl PlotOptions" new
//@| ensures r.min_gap_evals == min_gap_evals, /*C20*/
//@end
}
//@include prelude/defaults.rs
impl CMAESOptions {
//@fn src/options.rs "impl CMAESOptions" new
//@sub sig * /V: Into<DVector<f64>>/V: IntoDv/
//@sub * /\.into\(\)/.into_dv()/
//@ops
//@| ensures r.defaults(dv_of(initial_mean), initial_step_size), /*C10*/
//@end
//@fn src/options.rs "impl CMAESOptions" initial_mean
//@sub sig * /V: Into<DVector<f64>>/V: IntoDv/
//@sub * /\.into\(\)/.into_dv()/
//@| ensures r == (CMAESOptions { initial_mean: dv_of(initial_mean), ..self }), /*C10*/
//@end
//@fn src/options.rs "impl CMAESOptions" bounds
//@sub * /Box::new\(/BoxC::of(/
//@| ensures r == (CMAESOptions { constraints: r.constraints, ..self }), /*C10*/
//@|   r.constraints matches Some(c) && (forall|x: DVector<F>| x@.len() <= lower@.len() && x@.len() <= upper@.len() ==> (#[trigger] c@.holds(x) <==> Bounds { lower: lower, upper: upper }.holds(x))), /*C04 C10*/
//@end
//@fn src/options.rs "impl CMAESOptions" constraints
//@sub sig * /Box<dyn Constraints>/BoxC/
//@| ensures r == (CMAESOptions { constraints: Some(constraints), ..self }), /*C04 C10*/
//@end
//@fn src/options.rs "impl CMAESOptions" mode
//@| ensures r == (CMAESOptions { mode: mode, ..self }), /*C10*/
//@end
//@fn src/options.rs "impl CMAESOptions" initial_step_size
//@| ensures r == (CMAESOptions { initial_step_size: initial_step_size, ..self }), /*C10*/
//@end
//@fn src/options.rs "impl CMAESOptions" population_size
//@| ensures r == (CMAESOptions { population_size: population_size, ..self }), /*C10*/
//@end
//@fn src/options.rs "impl CMAESOptions" max_resamples
//@| ensures r == (CMAESOptions { max_resamples: max_resamples, ..self }), /*C10*/
//@end
//@fn src/options.rs "impl CMAESOptions" weights
//@| ensures r == (CMAESOptions { weights: weights, ..self }), /*C10*/
//@end
//@fn src/options.rs "impl CMAESOptions" parallel_update
//@| ensures r == (CMAESOptions { parallel_update: parallel_update, ..self }), /*C10*/
//@end
//@fn src/options.rs "impl CMAESOptions" cm
//@| ensures r == (CMAESOptions { cm: cm, ..self }), /*C10*/
//@end
//@fn src/options.rs "impl CMAESOptions" max_function_evals
//@| ensures r == (CMAESOptions { max_function_evals: Some(max_function_evals), ..self }), /*C10*/
//@end
//@fn src/options.rs "impl CMAESOptions" max_generations
//@| ensures r == (CMAESOptions { max_generations: Some(max_generations), ..self }), /*C10*/
//@end
//@fn src/options.rs "impl CMAESOptions" max_time
//@| ensures r == (CMAESOptions { max_time: Some(max_time), ..self }), /*C10*/
//@end
//@fn src/options.rs "impl CMAESOptions" fun_target
//@| ensures r == (CMAESOptions { fun_target: Some(fun_target), ..self }), /*C10*/
//@end
//@fn src/options.rs "impl CMAESOptions" tol_fun
//@| ensures r == (CMAESOptions { tol_fun: tol_fun, ..self }), /*C10*/
//@end
//@fn src/options.rs "impl CMAESOptions" tol_fun_rel
//@| ensures r == (CMAESOptions { tol_fun_rel: tol_fun_rel, ..self }), /*C10*/
//@end
//@fn src/options.rs "impl CMAESOptions" tol_fun_hist
//@| ensures r == (CMAESOptions { tol_fun_hist: tol_fun_hist, ..self }), /*C10*/
//@end
//@fn src/options.rs "impl CMAESOptions" tol_x
//@| ensures r == (CMAESOptions { tol_x: Some(tol_x), ..self }), /*C10*/
//@end
//@fn src/options.rs "impl CMAESOptions" tol_stagnation
//@| ensures r == (CMAESOptions { tol_stagnation: Some(tol_stagnation), ..self }), /*C10*/
//@end
//@fn src/options.rs "impl CMAESOptions" tol_x_up
//@| ensures r == (CMAESOptions { tol_x_up: tol_x_up, ..self }), /*C10*/
//@end
//@fn src/options.rs "impl CMAESOptions" tol_condition_cov
//@| ensures r == (CMAESOptions { tol_condition_cov: tol_condition_cov, ..self }), /*C10*/
//@end
//@fn src/options.rs "impl CMAESOptions" seed
//@| ensures r == (CMAESOptions { seed: Some(seed), ..self }), /*C10*/
//@end
//@fn src/options.rs "impl CMAESOptions" enable_plot
//@| ensures r == (CMAESOptions { plot_options: Some(plot_options), ..self }), /*C10*/
//@end
//@fn src/options.rs "impl CMAESOptions" enable_printing
//@| ensures r == (CMAESOptions { print_gap_evals: Some(min_gap_evals), ..self }), /*C10*/
//@end
//@fn src/options.rs "impl CMAESOptions" build
//@sub sig 1 /<F>\(self, objective_function: F\)/<F2: ObjectiveFunction>(self, objective_function: F2)/
//@sub sig 1 /CMAES<F>/CMAES<F2>/
//@| requires self.sizes_in_range(),
//@| ensures match r { Err(e) => option_error(self) == Some(e), Ok(c) => option_error(self) is None }, /*C10*/
//@|   r matches Ok(c) ==> c.wf() && c.built(self, objective_function), /*C10*/
//@end
}
} // verus!
fn main() {}

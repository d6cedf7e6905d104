pub open spec fn dv_of<V: IntoDv>(v: V) -> DVector<F> { of_seq(v.dv()) }
pub open spec fn default_lambda(dim: int) -> int { 4 + f_to_int(ffloor(fmul(flit(3real), fln(fint(dim))))) }
impl CMAESOptions {
    /// the documented defaults
    pub open spec fn defaults(self, m: DVector<F>, s: F) -> bool {
        &&& self.initial_mean == m && self.initial_step_size == s && self.mode == Mode::Minimize && self.weights == Weights::Negative
        &&& default_lambda(m@.len() as int) <= usize::MAX ==> self.population_size == default_lambda(m@.len() as int)
        &&& self.constraints is None && self.max_resamples == Some(10usize) && !self.parallel_update && self.cm == flit(1real)
        &&& self.max_function_evals is None && self.max_generations is None && self.max_time is None && self.fun_target is None
        &&& self.tol_fun == flit(1real / 1000000000000real) && self.tol_fun_hist == flit(1real / 1000000000000real) && self.tol_fun_rel == flit(0real)
        &&& self.tol_x is None && self.tol_stagnation is None && self.tol_x_up == flit(100000000real) && self.tol_condition_cov == flit(100000000000000real)
        &&& self.seed is None && self.plot_options is None && self.print_gap_evals is None
    }
    pub open spec fn sizes_in_range(self) -> bool {
        let n = self.initial_mean@.len();
        &&& self.population_size < usize::MAX && n * n <= usize::MAX
        &&& default_tol_stagnation(n as int, self.population_size as int) <= usize::MAX && past_window(n as usize, self.population_size) <= usize::MAX
    }
}

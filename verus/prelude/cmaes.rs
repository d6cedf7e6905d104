// ---- a whole run ----
//@item src/lib.rs struct TerminationData
//@item src/lib.rs struct CMAES
//@isub 1 /CMAES<F>/CMAES<F2: ObjectiveFunction>/
//@isub 1 /Sampler<F>/Sampler<F2>/
//@item src/options.rs enum InvalidOptionsError derive=Clone,Copy,PartialEq,Eq,Structural
impl History {
    pub open spec fn empty(self) -> bool {
        self.wf() && self.best_function_values@.len() == 0 && self.median_function_values@.len() == 0 && self.current_best_individual is None && self.overall_best_individual is None
            && self.first_median_function_value is None && self.best_median_function_value is None
    }
    /// a generation `g` (sorted) was added
    pub open spec fn extended(self, o: History, m: Mode, g: Seq<EvaluatedPoint>) -> bool {
        &&& self.best_function_values@ =~= pushed(o.best_function_values@, g[0].value) && self.median_function_values@ =~= pushed(o.median_function_values@, median(g))
        &&& self.first_median_function_value == first_of(o.first_median_function_value, median(g)) && is_best_median(m, o.best_median_function_value, median(g), self.best_median_function_value)
        &&& self.current_best_individual == Some(ind(g[0])) && self.overall_best_individual == Some(best_of(m, o.overall_best_individual, ind(g[0])))
    }
}
pub open spec fn weights_len(s: Weights, lambda: int) -> int { if s is Negative { lambda } else { lambda / 2 } }
pub open spec fn valid_step(x: F) -> bool { fnormal(x) && flt(flit(0real), x) }
pub open spec fn valid_cm(x: F) -> bool { fnormal(x) && !fle(x, flit(0real)) && !flt(flit(1real), x) }
/// the first thing wrong with the options
pub open spec fn option_error(o: CMAESOptions) -> Option<InvalidOptionsError> {
    if o.initial_mean@.len() == 0 { Some(InvalidOptionsError::Dimensions) }
    else if o.population_size < 2 { Some(InvalidOptionsError::PopulationSize) }
    else if !valid_step(o.initial_step_size) { Some(InvalidOptionsError::InitialStepSize) }
    else if !valid_cm(o.cm) { Some(InvalidOptionsError::Cm) }
    else { None }
}
pub open spec fn reasons_of(r: Option<TerminationData>) -> Seq<TerminationReason> { match r { None => Seq::empty(), Some(d) => d.reasons@ } }
pub open spec fn only_reason(r: Option<TerminationData>, x: TerminationReason) -> bool { r is Some && reasons_of(r) =~= seq![x] }
/// each object of the trace comes from the one before by a step that reports nothing
pub open spec fn steps<F2: ObjectiveFunction>(t: Seq<CMAES<F2>>) -> bool { forall|i: int| 1 <= i < t.len() ==> (#[trigger] t[i]).stepped(t[i - 1], None) }
pub broadcast proof fn lemma_no_flags(s: Seq<TerminationReason>) ensures s.len() == 0 ==> #[trigger] flags(s) == flags(Seq::empty()) { if s.len() == 0 { assert(s =~= Seq::empty()); } }
pub broadcast proof fn lemma_only_invalid(r: Option<TerminationData>)
    ensures #[trigger] only_reason(r, InvalidFunctionValue) ==> flags(reasons_of(r)).invalid_function_value && !only_reason(r, PosDefCov)
{
    reveal(flags); reveal(listed);
    if only_reason(r, InvalidFunctionValue) { assert(reasons_of(r)[0] == InvalidFunctionValue); assert(reasons_of(r).contains(InvalidFunctionValue)); if only_reason(r, PosDefCov) { assert(seq![PosDefCov][0] == PosDefCov); } }
}
pub enum Criteria { Limits, Values, Stagnation, Shape, Listing }
impl<'a> TerminationCheck<'a> {
    pub open spec fn reported_as(self, g: Flags, w: Criteria) -> bool {
        let t = self.parameters.termination;
        match w {
            Criteria::Limits => {
                &&& g.max_function_evals <==> (t.max_function_evals matches Some(m) && self.current_function_evals >= m)
                &&& g.max_generations <==> (t.max_generations matches Some(m) && self.state.generation >= m)
                &&& (match t.max_time { Some(m) => exists|d: Duration| elapsed_read(self.time_created, d) && (g.max_time <==> #[trigger] d.nanos() >= m.nanos()), None => !g.max_time })
                &&& g.fun_target <==> (t.fun_target matches Some(x) && self.target_reached(x)) },
            Criteria::Values => self.below(t.tol_fun_hist, false, g.tol_fun_hist) && self.below(t.tol_fun, true, g.tol_fun) && self.below(self.fun_rel_tolerance(), true, g.tol_fun_rel),
            Criteria::Stagnation => g.tol_stagnation <==> self.stagnated(),
            Criteria::Shape => (g.tol_x <==> self.small_x()) && self.grown(g.tol_x_up) && (g.tol_condition_cov <==> self.ill_conditioned()) && (g.no_effect_axis <==> self.no_effect_axis()) && self.no_effect_coord(g.no_effect_coord),
            Criteria::Listing => !g.invalid_function_value && !g.pos_def_cov,
        }
    }
}
impl<F2: ObjectiveFunction> CMAES<F2> {
    pub open spec fn wf(self) -> bool {
        let p = self.parameters;
        &&& p.dim > 0 && p.lambda >= 2 && p.mu == p.lambda / 2 && p.weights.weights@.len() == weights_len(p.weights.setting, p.lambda as int)
        &&& past_window(p.dim, p.lambda) <= usize::MAX && p.dim * p.dim <= usize::MAX
        &&& self.sampler.dim == p.dim && self.sampler.population_size == p.lambda
        &&& self.state.wf(p.dim as int) && self.history.wf()
        &&& self.plot matches Some(q) ==> q.wf(p.dim as int)
    }
    /// the counts are within the machine's range: fewer than 2^30 generations, evaluations below 2^64
    pub open spec fn in_range(self) -> bool {
        self.sampler.function_evals + self.parameters.lambda <= usize::MAX && self.counts_in_range()
    }
    pub open spec fn counts_in_range(self) -> bool {
        &&& self.state.generation < 0x3fff_ffff
        &&& self.state.last_eigen_update_evals + per_eigen(self.parameters) <= usize::MAX
        &&& (self.plot matches Some(q) ==> q.next_evals() <= usize::MAX)
        &&& (self.print_gap_evals matches Some(g) ==> self.last_print_evals + g <= usize::MAX)
    }
    /// what no step changes
    pub open spec fn same_run(self, o: Self) -> bool {
        &&& self.parameters == o.parameters && self.time_created == o.time_created && self.print_gap_evals == o.print_gap_evals && self.sampler.same_setup(o.sampler)
        &&& self.plot is Some <==> o.plot is Some
    }
    /// the data describes this object
    pub open spec fn describes(self, d: TerminationData) -> bool {
        &&& d.current_best == self.history.current_best_individual && d.overall_best == self.history.overall_best_individual && d.final_mean == self.state.mean
        &&& d.reasons@.len() > 0
    }
    pub open spec fn plotted(self, o: Option<Plot>) -> bool {
        match (o, self.plot) { (Some(a), Some(b)) => b.point_added(a, self.sampler.function_evals as int, self.state, self.history), (None, None) => true, _ => false }
    }
    pub open spec fn plot_due(self, o: Option<Plot>) -> bool { self.state.generation <= 1 || (o matches Some(q) && self.sampler.function_evals >= q.next_evals()) }
    /// a point is recorded exactly when one is due
    pub open spec fn plot_stepped(self, o: Option<Plot>) -> bool { if self.plot_due(o) { self.plotted(o) } else { self.plot == o } }
    pub open spec fn check<'a>(&'a self, g: &'a [EvaluatedPoint]) -> TerminationCheck<'a> {
        TerminationCheck { current_function_evals: self.sampler.function_evals, time_created: self.time_created, parameters: &self.parameters, state: &self.state, history: &self.history, individuals: g }
    }
    /// the update succeeded (it counts a generation)
    pub open spec fn advanced(self, o: Self) -> bool { self.state.generation != o.state.generation }
    pub open spec fn unchanged_by_step(self, o: Self) -> bool { self.state == o.state && self.history == o.history && self.plot == o.plot }
    // what one step does, by aspect
    pub open spec fn evals_counted(self, o: Self) -> bool { self.sampler.function_evals - o.sampler.function_evals == self.sampler.objective_function.log().len() - o.sampler.objective_function.log().len() }
    /// the step ended at a NaN, exactly when one was evaluated
    pub open spec fn ended_invalid(self, o: Self, r: Option<TerminationData>) -> bool {
        (exists|i: int| o.sampler.objective_function.log().len() <= i < self.sampler.objective_function.log().len() && nan((#[trigger] self.sampler.objective_function.log()[i]).1)) && self.unchanged_by_step(o) && only_reason(r, InvalidFunctionValue)
    }
    pub open spec fn sample_step(self, o: Self, r: Option<TerminationData>) -> bool {
        self.evals_counted(o) && exists|res: Result<Vec<EvaluatedPoint>, InvalidFunctionValueError>, k: int| #[trigger] self.sampler.generation(o.sampler, o.state, o.parameters.mode, res, k) && (res is Err <==> only_reason(r, InvalidFunctionValue)) && (res is Err ==> self.ended_invalid(o, r))
    }
    pub open spec fn history_step(self, o: Self, r: Option<TerminationData>) -> bool {
        if only_reason(r, InvalidFunctionValue) { self.history == o.history }
        else { exists|g: Vec<EvaluatedPoint>, k: int| #[trigger] self.sampler.generation(o.sampler, o.state, o.parameters.mode, Ok::<Vec<EvaluatedPoint>, InvalidFunctionValueError>(g), k) && self.history.extended(o.history, o.parameters.mode, g@) }
    }
    pub open spec fn state_step(self, o: Self, r: Option<TerminationData>) -> bool {
        if only_reason(r, InvalidFunctionValue) { self.state == o.state }
        else { exists|g: Vec<EvaluatedPoint>, k: int| #[trigger] self.sampler.generation(o.sampler, o.state, o.parameters.mode, Ok::<Vec<EvaluatedPoint>, InvalidFunctionValueError>(g), k) && self.state.updated(o.state, self.sampler.function_evals as int, o.parameters, g@, self.advanced(o)) }
    }
    pub open spec fn termination_step(self, o: Self, r: Option<TerminationData>, w: Criteria) -> bool {
        self.advanced(o) ==> exists|g: Vec<EvaluatedPoint>, k: int| #[trigger] self.sampler.generation(o.sampler, o.state, o.parameters.mode, Ok::<Vec<EvaluatedPoint>, InvalidFunctionValueError>(g), k) && self.judged(g@, r, w)
    }
    /// the criteria are judged on the state after the update and the generation `g`
    pub open spec fn judged(self, g: Seq<EvaluatedPoint>, r: Option<TerminationData>, w: Criteria) -> bool {
        exists|s: &[EvaluatedPoint]| s@ == g && #[trigger] self.check(s).reported_as(flags(reasons_of(r)), w)
    }
    pub open spec fn plot_step(self, o: Self) -> bool { if self.advanced(o) { self.plot_stepped(o.plot) } else { self.plot == o.plot } }
    /// one step, every aspect
    pub open spec fn all_aspects(self, o: Self, r: Option<TerminationData>) -> bool {
        &&& self.wf() && self.same_run(o) && self.sample_step(o, r) && self.history_step(o, r) && self.state_step(o, r) && self.plot_step(o)
        &&& self.termination_step(o, r, Criteria::Limits) && self.termination_step(o, r, Criteria::Values) && self.termination_step(o, r, Criteria::Stagnation) && self.termination_step(o, r, Criteria::Shape) && self.termination_step(o, r, Criteria::Listing)
        &&& (!self.advanced(o) ==> only_reason(r, InvalidFunctionValue) || only_reason(r, PosDefCov))
        &&& (r matches Some(d) ==> self.describes(d))
    }
    #[verifier::opaque] pub open spec fn stepped(self, o: Self, r: Option<TerminationData>) -> bool { self.all_aspects(o, r) }
    /// a run: steps that report nothing, then one that does; then the final point is plotted
    pub open spec fn ran(self, o: Self, r: TerminationData, t: Seq<Self>) -> bool {
        &&& t.len() >= 2 && t[0] == o && steps(t.drop_last())
        &&& t.last().stepped(t[t.len() - 2], Some(r))
        &&& self == (CMAES { plot: self.plot, ..t.last() })
    }
    /// the object is as built from the options
    pub open spec fn built(self, o: CMAESOptions, f: F2) -> bool {
        self.built_parameters(o) && self.built_sampler(o) && self.sampler.objective_function == f && self.built_seed(o) && self.built_state(o) && self.history.empty() && self.built_plot(o)
    }
    pub open spec fn built_parameters(self, o: CMAESOptions) -> bool { self.parameters.defined() && exists|t: TerminationParameters| t.of_options(o) && #[trigger] self.parameters.carries(o, self.parameters.seed, t) && self.print_gap_evals == o.print_gap_evals }
    pub open spec fn built_sampler(self, o: CMAESOptions) -> bool {
        self.sampler.dim == o.initial_mean@.len() && self.sampler.constraints == o.constraints && self.sampler.max_resamples == o.max_resamples && self.sampler.population_size == o.population_size && self.sampler.function_evals == 0
    }
    pub open spec fn built_seed(self, o: CMAESOptions) -> bool { (o.seed matches Some(s) ==> self.parameters.seed == s) && self.sampler.rng.seed() == self.parameters.seed && self.sampler.rng.drawn() == 0 }
    pub open spec fn built_state(self, o: CMAESOptions) -> bool {
        let n = o.initial_mean@.len() as int;
        &&& self.state.mean == o.initial_mean && self.state.sigma == o.initial_step_size && self.state.generation == 0 && self.state.last_eigen_update_evals == 0
        &&& self.state.path_c == dv_zeros(n) && self.state.path_sigma == dv_zeros(n) && self.state.cov.initial(n)
    }
    /// the initial state is recorded
    pub open spec fn built_plot(self, o: CMAESOptions) -> bool {
        match (o.plot_options, self.plot) {
            (Some(q), Some(x)) => x.options == q && x.mode == o.mode && x.data.function_evals@.len() == 1 && (exists|e: Plot| e.data.function_evals@.len() == 0 && e.last_data_point_generation is None && #[trigger] x.point_added(e, 0, self.state, self.history)),
            (None, None) => true,
            _ => false }
    }
}
pub broadcast proof fn lemma_stepped<F2: ObjectiveFunction>(a: CMAES<F2>, o: CMAES<F2>, r: Option<TerminationData>)
    ensures a.all_aspects(o, r) ==> #[trigger] a.stepped(o, r)
{ reveal(CMAES::stepped); }

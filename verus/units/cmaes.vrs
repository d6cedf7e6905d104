//@include prelude/head.rs
verus! {
//@include prelude/std.rs
//@include prelude/float.rs
//@include prelude/iter.rs
//@include prelude/point.rs
//@include prelude/linalg.rs
//@include prelude/ops.rs
//@include prelude/mode.rs
//@include prelude/sort.rs
//@include prelude/state.rs
//@include prelude/eigen.rs
//@include prelude/history.rs
//@include prelude/history_get.rs
//@include prelude/time.rs
//@include prelude/params.rs
//@include prelude/constraints.rs
//@include prelude/options.rs
//@include prelude/weights.rs
//@include prelude/update.rs
//@include prelude/generation.rs
//@include prelude/termination.rs
//@include prelude/plot.rs
//@include prelude/cmaes.rs
impl<F2: ObjectiveFunction> Sampler<F2> {
//@import sampling src/sampling.rs "impl<F> Sampler<F>" new
//@import sampling src/sampling.rs "impl<F> Sampler<F>" function_evals
//@import sampling src/sampling.rs "impl<F> Sampler<F>" into_objective_function
//@import sampling src/sampling.rs "impl<F: ObjectiveFunction> Sampler<F>" sample
//@import sampling src/sampling.rs "impl<F: ParallelObjectiveFunction> Sampler<F>" sample_parallel
}
impl State {
//@import state src/state.rs "impl State" new
//@import state src/state.rs "impl State" update
}
impl History {
//@import history src/history.rs "impl History" new
//@import history src/history.rs "impl History" update
}
impl Parameters {
//@import params src/parameters/mod.rs "impl Parameters" from_options
}
impl Plot {
//@import plot src/plotting/mod.rs "impl Plot" new
//@import plot src/plotting/mod.rs "impl Plot" get_next_data_point_evals
//@import plot src/plotting/mod.rs "impl Plot" add_data_point
}
impl<'a> TerminationCheck<'a> {
//@import termination src/termination.rs "impl<'a> TerminationCheck<'a>" check_termination_criteria
}
/// `rand::random`
#[verifier::external_body] pub fn random_seed() -> (r: u64) { unimplemented!() }
// every sampled step has the right dimension
pub proof fn lemma_gather_dim(s: State, c: Option<DynC>, max: Option<usize>, seed: u64, from: int, dim: int, lambda: int, k: int)
    ensures ({ let y = gather(s, c, max, seed, from, dim, lambda, k).0; forall|i: int| 0 <= i < y.len() ==> (#[trigger] y[i])@.len() == rows(s.cov.transform) }),
    decreases k,
{
    broadcast use axiom_mat_vec_len;
    if k > 0 {
        lemma_gather_dim(s, c, max, seed, from, dim, lambda, k - 1);
        let (p, f) = gather(s, c, max, seed, from, dim, lambda, k - 1);
        let rc = round_constraints(c, max, k - 1);
        let cs = candidates(s.cov.transform, seed, f, dim, lambda - p.len());
        lemma_filter_len(cs, |y: DVector<F>| accepts(rc, s, y));
        let r = round(s, rc, seed, f, dim, lambda - p.len());
        let y = gather(s, c, max, seed, from, dim, lambda, k).0;
        assert forall|i: int| 0 <= i < y.len() implies (#[trigger] y[i])@.len() == rows(s.cov.transform) by {
            if i < p.len() { assert(y[i] == p[i]); } else { assert(y[i] == r[i - p.len()]); assert(cs.contains(r[i - p.len()])); }
        }
    }
}
/// what a generation is made of
pub broadcast proof fn lemma_generation<F2: ObjectiveFunction>(a: Sampler<F2>, o: Sampler<F2>, s: State, m: Mode, r: Result<Vec<EvaluatedPoint>, InvalidFunctionValueError>, k: int)
    requires #[trigger] a.generation(o, s, m, r, k), r is Ok,
    ensures ({ let g = r->Ok_0@; g.len() == o.population_size && (forall|i: int| 0 <= i < g.len() ==> !nan((#[trigger] g[i]).value) && g[i].unscaled_step@.len() == rows(s.cov.transform)) }),
{
    lemma_gather_dim(s, dyn_of(o.constraints), o.max_resamples, o.rng.seed(), o.rng.drawn(), o.dim as int, o.population_size as int, k);
    let y = gather(s, dyn_of(o.constraints), o.max_resamples, o.rng.seed(), o.rng.drawn(), o.dim as int, o.population_size as int, k).0;
    let g = r->Ok_0@;
    let p = choose|p: Seq<EvaluatedPoint>| p.len() == y.len() && #[trigger] points_ok(p, y, s.mean, s.sigma) && a.objective_function.log() == o.objective_function.log() + calls_of(p) && stably_sorted(p, g, value_order(m));
    let q = choose|q: Seq<int>| #[trigger] sort_map(p, g, value_order(m), q);
    assert forall|i: int| 0 <= i < g.len() implies !nan((#[trigger] g[i]).value) && g[i].unscaled_step@.len() == rows(s.cov.transform) by {
        assert(sort_map(p, g, value_order(m), q)); assert(0 <= q[i] < p.len()); assert(g[i] == p[q[i]]); assert(p[q[i]].unscaled_step == y[q[i]]);
    }
}
pub proof fn lemma_weights_len(p: Parameters)
    requires p.defined(),
    ensures p.weights.weights@.len() == weights_len(p.weights.setting, p.lambda as int),
{ }
//@fn src/options.rs - is_initial_step_size_valid
//@| ensures r == valid_step(step_size), /*C10*/
//@end
impl<F2: ObjectiveFunction> CMAES<F2> {
    #[verifier::external_body] pub fn print_initial_info(&self) { }
    #[verifier::external_body] pub fn print_info(&self) { }
    #[verifier::external_body] pub fn print_final_info(&self, termination_reasons: &[TerminationReason]) { }
//@fn src/lib.rs "impl<F> CMAES<F>" new
//@bare 1
//@attr #[verifier::spinoff_prover]
//@sub sig 1 /objective_function: F\b/objective_function: F2/
//@sub * /options::is_init/is_init/
//@sub * /rand::random/|| -> (r: u64) { random_seed() }/
//@annot #\|o\|#|o: PlotOptions| -> (q: Plot) ensures q.wf(dimensions as int), q.data.function_evals@.len() == 0, q.options == o, q.mode == options.mode#
//@| requires options.population_size < usize::MAX, options.initial_mean@.len() * options.initial_mean@.len() <= usize::MAX,
//@|   default_tol_stagnation(options.initial_mean@.len() as int, options.population_size as int) <= usize::MAX,
//@|   past_window(options.initial_mean@.len() as usize, options.population_size) <= usize::MAX,
//@| ensures match r { Err(e) => option_error(options) == Some(e), Ok(c) => option_error(options) is None }, /*C10*/
//@|   r matches Ok(c) ==> c.wf(),
//@|   r matches Ok(c) ==> c.built_parameters(options), /*C10 C11*/
//@|   r matches Ok(c) ==> c.built_sampler(options), /*C03 C04 C10*/
//@|   r matches Ok(c) ==> c.sampler.objective_function == objective_function, /*C03 C21*/
//@|   r matches Ok(c) ==> c.built_seed(options), /*C19*/
//@|   r matches Ok(c) ==> c.built_state(options), /*C10 C12*/
//@|   r matches Ok(c) ==> c.history.empty(), /*C01 C02*/
//@|   r matches Ok(c) ==> c.built_plot(options), /*C20*/
//@end
//@fn src/lib.rs "impl<F> CMAES<F>" sample_internal
//@| requires old(self).wf(), individuals@.len() > 0, forall|i: int| 0 <= i < individuals@.len() ==> !nan(#[trigger] individuals@[i].value),
//@| ensures final(self).history.extended(old(self).history, old(self).parameters.mode, individuals@), /*C01 C02*/
//@|   *final(self) == (CMAES { history: final(self).history, ..*old(self) }), final(self).wf(), final(self).history.overall_best_individual is Some, /*C01 C02*/
//@end
//@fn src/lib.rs "impl<F> CMAES<F>" add_plot_point
//@sub 1 /&self\.history\)/&self.history, Ghost(self.parameters.dim as int))/
//@| requires old(self).wf(),
//@| ensures *final(self) == (CMAES { plot: final(self).plot, ..*old(self) }), final(self).plotted(old(self).plot), final(self).wf(), /*C20*/
//@end
//@fn src/lib.rs "impl<F> CMAES<F>" get_termination_data
//@| requires reasons@.len() > 0,
//@| ensures self.describes(r), r.reasons == reasons, /*C22*/
//@end
//@fn src/lib.rs "impl<F> CMAES<F>" current_best_individual
//@| ensures r == (match self.history.current_best_individual { Some(x) => Some(&x), None => None }), /*C01 C22*/
//@end
//@fn src/lib.rs "impl<F> CMAES<F>" overall_best_individual
//@| ensures r == (match self.history.overall_best_individual { Some(x) => Some(&x), None => None }), /*C01 C22*/
//@end
//@fn src/lib.rs "impl<F> CMAES<F>" into_objective_function
//@sub sig * /-> F\b/-> F2/
//@| ensures r == self.sampler.objective_function, /*C21*/
//@end
//@fn src/lib.rs "impl<F> CMAES<F>" parameters
//@| ensures *r == self.parameters, /*C10*/
//@end
//@fn src/lib.rs "impl<F> CMAES<F>" generation
//@| ensures r == self.state.generation, /*C22*/
//@end
//@fn src/lib.rs "impl<F> CMAES<F>" function_evals
//@| ensures r == self.sampler.function_evals, /*C03*/
//@end
//@fn src/lib.rs "impl<F> CMAES<F>" mean
//@| ensures *r == self.state.mean, /*C22*/
//@end
//@fn src/lib.rs "impl<F> CMAES<F>" covariance_matrix
//@| ensures *r == self.state.cov.cov, /*C12*/
//@end
//@fn src/lib.rs "impl<F> CMAES<F>" sigma
//@| ensures r == self.state.sigma, /*C12*/
//@end
//@fn src/lib.rs "impl<F> CMAES<F>" axis_ratio
//@| ensures r == axis_ratio_of(self.state), /*C12*/
//@end
//@fn src/lib.rs "impl<F> CMAES<F>" time_created
//@| ensures r == self.time_created, /*C06*/
//@end
//@fn src/lib.rs "impl<F> CMAES<F>" next_internal
//@attr #[verifier::spinoff_prover]
//@| requires old(self).wf(), old(self).counts_in_range(), old(self).history.overall_best_individual is Some, individuals@.len() == old(self).parameters.lambda,
//@|   forall|i: int| 0 <= i < individuals@.len() ==> !nan((#[trigger] individuals@[i]).value) && individuals@[i].unscaled_step@.len() == old(self).parameters.dim,
//@| ensures final(self).wf(), final(self).same_run(*old(self)), final(self).sampler == old(self).sampler && final(self).history == old(self).history, /*C01 C02 C05 C12 C13 C20 C22*/
//@|   final(self).state.updated(old(self).state, final(self).sampler.function_evals as int, old(self).parameters, individuals@, final(self).advanced(*old(self))), /*C12 C13*/
//@|   !final(self).advanced(*old(self)) ==> only_reason(r, PosDefCov), /*C13*/
//@|   final(self).plot_step(*old(self)), /*C20*/
//@|   final(self).advanced(*old(self)) ==> final(self).check(individuals).reported_as(flags(reasons_of(r)), Criteria::Limits), /*C06*/
//@|   final(self).advanced(*old(self)) ==> final(self).check(individuals).reported_as(flags(reasons_of(r)), Criteria::Values), /*C07*/
//@|   final(self).advanced(*old(self)) ==> final(self).check(individuals).reported_as(flags(reasons_of(r)), Criteria::Stagnation), /*C08*/
//@|   final(self).advanced(*old(self)) ==> final(self).check(individuals).reported_as(flags(reasons_of(r)), Criteria::Shape), /*C09*/
//@|   final(self).advanced(*old(self)) ==> final(self).check(individuals).reported_as(flags(reasons_of(r)), Criteria::Listing), /*C05 C13*/
//@start| broadcast use lemma_no_flags;
//@|   r matches Some(d) ==> final(self).describes(d), /*C22*/
//@end
//@fn src/lib.rs "impl<F> CMAES<F>" run_internal
//@| requires old(self).wf(),
//@| ensures *final(self) == (CMAES { plot: final(self).plot, ..*old(self) }), final(self).plotted(old(self).plot), final(self).wf(), /*C20 C22*/
//@end
//@fn src/lib.rs "impl<F: ObjectiveFunction> CMAES<F>" sample
//@| requires old(self).wf(), old(self).in_range(),
//@| ensures final(self).wf(), final(self).same_run(*old(self)), final(self).evals_counted(*old(self)), /*C03*/
//@|   *final(self) == (CMAES { sampler: final(self).sampler, history: final(self).history, ..*old(self) }), final(self).sampler.function_evals <= old(self).sampler.function_evals + old(self).parameters.lambda, /*C03 C05 C12*/
//@|   exists|k: int| #[trigger] final(self).sampler.generation(old(self).sampler, old(self).state, old(self).parameters.mode, r, k), /*C03 C04 C05 C19*/
//@|   (r matches Ok(g) ==> final(self).history.extended(old(self).history, old(self).parameters.mode, g@) && final(self).history.overall_best_individual is Some), /*C01 C02*/
//@|   r is Err ==> final(self).history == old(self).history, /*C01 C02 C05*/
//@|   (r matches Ok(g) ==> g@.len() == old(self).parameters.lambda && (forall|i: int| 0 <= i < g@.len() ==> !nan((#[trigger] g@[i]).value) && g@[i].unscaled_step@.len() == old(self).parameters.dim)), /*C03 C05*/
//@start| broadcast use lemma_generation;
//@end
//@fn src/lib.rs "impl<F: ObjectiveFunction> CMAES<F>" next
//@attr #[verifier::spinoff_prover]
//@| requires old(self).wf(), old(self).in_range(),
//@| ensures final(self).wf(), final(self).same_run(*old(self)), final(self).sample_step(*old(self), r), /*C03 C04 C05 C19*/
//@|   final(self).history_step(*old(self), r), /*C01 C02*/
//@|   final(self).state_step(*old(self), r), /*C12 C13*/
//@|   !final(self).advanced(*old(self)) ==> only_reason(r, InvalidFunctionValue) || only_reason(r, PosDefCov), /*C05 C13*/
//@|   final(self).plot_step(*old(self)), /*C20*/
//@|   final(self).termination_step(*old(self), r, Criteria::Limits), /*C06*/
//@|   final(self).termination_step(*old(self), r, Criteria::Values), /*C07*/
//@|   final(self).termination_step(*old(self), r, Criteria::Stagnation), /*C08*/
//@|   final(self).termination_step(*old(self), r, Criteria::Shape), /*C09*/
//@|   final(self).termination_step(*old(self), r, Criteria::Listing), /*C05 C13*/
//@|   r matches Some(d) ==> final(self).describes(d), /*C22*/
//@start| broadcast use lemma_only_invalid;
//@end
//@fn src/lib.rs "impl<F: ObjectiveFunction> CMAES<F>" run
//@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::spinoff_prover]
//@| requires old(self).wf(),
//@| ensures final(self).wf(), exists|t: Seq<Self>| #[trigger] final(self).ran(*old(self), r, t), /*C03 C05 C06 C22*/
//@|   final(self).plot is Some ==> exists|m: Self| final(self).sampler == m.sampler && final(self).state == m.state && final(self).history == m.history && #[trigger] final(self).plotted(m.plot), /*C20*/
//@breakvalue
//@start| let ghost mut t_: Seq<Self> = seq![*self];
//@loop 0| invariant_except_break brk0_ is None, t_.len() >= 1, t_.last() == *self, steps(t_),
//@loop 0|   self.wf(), t_[0] == *old(self),
//@tail| proof { assert(self.ran(*old(self), tail_, t_)); } /*C03 C05 C06 C22*/
//@tail| proof { assert(self.plotted(t_.last().plot)); } /*C20*/
//@loop 0| ensures brk0_ matches Some(r) && t_.len() >= 2 && t_[0] == *old(self) && t_.last() == *self && steps(t_.drop_last()) && self.stepped(t_[t_.len() - 2], Some(r)) && self.wf(),
//@before /if let Some\((\w+)\) = self\.next\(/| proof { assume(self.in_range()); }
//@after /\{ brk0_ = Some\([^;]*\);/| proof { broadcast use lemma_stepped; assert(self.stepped(t_.last(), brk0_)); let o_ = t_; t_ = t_.push(*self); assert(t_.drop_last() =~= o_); }
//@after /break; \}\s*\}/| proof { broadcast use lemma_stepped; assert(self.stepped(t_.last(), None)); let o_ = t_; t_ = t_.push(*self); assert(t_.drop_last() =~= o_); }
//@end
//@fn src/lib.rs "impl<F: ParallelObjectiveFunction> CMAES<F>" sample_parallel
//@| requires old(self).wf(), old(self).in_range(),
//@| ensures final(self).wf(), final(self).same_run(*old(self)), final(self).evals_counted(*old(self)), /*C03*/
//@|   *final(self) == (CMAES { sampler: final(self).sampler, history: final(self).history, ..*old(self) }), final(self).sampler.function_evals <= old(self).sampler.function_evals + old(self).parameters.lambda, /*C03 C05 C12*/
//@|   exists|k: int| #[trigger] final(self).sampler.generation(old(self).sampler, old(self).state, old(self).parameters.mode, r, k), /*C03 C04 C05 C19*/
//@|   (r matches Ok(g) ==> final(self).history.extended(old(self).history, old(self).parameters.mode, g@) && final(self).history.overall_best_individual is Some), /*C01 C02*/
//@|   r is Err ==> final(self).history == old(self).history, /*C01 C02 C05*/
//@|   (r matches Ok(g) ==> g@.len() == old(self).parameters.lambda && (forall|i: int| 0 <= i < g@.len() ==> !nan((#[trigger] g@[i]).value) && g@[i].unscaled_step@.len() == old(self).parameters.dim)), /*C03 C05*/
//@start| broadcast use lemma_generation;
//@end
//@fn src/lib.rs "impl<F: ParallelObjectiveFunction> CMAES<F>" next_parallel
//@attr #[verifier::spinoff_prover]
//@| requires old(self).wf(), old(self).in_range(),
//@| ensures final(self).wf(), final(self).same_run(*old(self)), final(self).sample_step(*old(self), r), /*C03 C04 C05 C19*/
//@|   final(self).history_step(*old(self), r), /*C01 C02*/
//@|   final(self).state_step(*old(self), r), /*C12 C13*/
//@|   !final(self).advanced(*old(self)) ==> only_reason(r, InvalidFunctionValue) || only_reason(r, PosDefCov), /*C05 C13*/
//@|   final(self).plot_step(*old(self)), /*C20*/
//@|   final(self).termination_step(*old(self), r, Criteria::Limits), /*C06*/
//@|   final(self).termination_step(*old(self), r, Criteria::Values), /*C07*/
//@|   final(self).termination_step(*old(self), r, Criteria::Stagnation), /*C08*/
//@|   final(self).termination_step(*old(self), r, Criteria::Shape), /*C09*/
//@|   final(self).termination_step(*old(self), r, Criteria::Listing), /*C05 C13*/
//@|   r matches Some(d) ==> final(self).describes(d), /*C22*/
//@start| broadcast use lemma_only_invalid;
//@end
//@fn src/lib.rs "impl<F: ParallelObjectiveFunction> CMAES<F>" run_parallel
//@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::spinoff_prover]
//@| requires old(self).wf(),
//@| ensures final(self).wf(), exists|t: Seq<Self>| #[trigger] final(self).ran(*old(self), r, t), /*C03 C05 C06 C22*/
//@|   final(self).plot is Some ==> exists|m: Self| final(self).sampler == m.sampler && final(self).state == m.state && final(self).history == m.history && #[trigger] final(self).plotted(m.plot), /*C20*/
//@breakvalue
//@start| let ghost mut t_: Seq<Self> = seq![*self];
//@loop 0| invariant_except_break brk0_ is None, t_.len() >= 1, t_.last() == *self, steps(t_),
//@loop 0|   self.wf(), t_[0] == *old(self),
//@tail| proof { assert(self.ran(*old(self), tail_, t_)); } /*C03 C05 C06 C22*/
//@tail| proof { assert(self.plotted(t_.last().plot)); } /*C20*/
//@loop 0| ensures brk0_ matches Some(r) && t_.len() >= 2 && t_[0] == *old(self) && t_.last() == *self && steps(t_.drop_last()) && self.stepped(t_[t_.len() - 2], Some(r)) && self.wf(),
//@before /if let Some\((\w+)\) = self\.next_parallel\(/| proof { assume(self.in_range()); }
//@after /\{ brk0_ = Some\([^;]*\);/| proof { broadcast use lemma_stepped; assert(self.stepped(t_.last(), brk0_)); let o_ = t_; t_ = t_.push(*self); assert(t_.drop_last() =~= o_); }
//@after /break; \}\s*\}/| proof { broadcast use lemma_stepped; assert(self.stepped(t_.last(), None)); let o_ = t_; t_ = t_.push(*self); assert(t_.drop_last() =~= o_); }
//@end
}

// ---- whole runs: theorems over the contract of a step ----
/// a sorted generation starts with a best one of the evaluated points and holds nothing else
pub proof fn lemma_sorted_first(m: Mode, p: Seq<EvaluatedPoint>, g: Seq<EvaluatedPoint>)
    requires stably_sorted(p, g, value_order(m)), p.len() > 0,
    ensures exists|j: int| 0 <= j < p.len() && g[0] == #[trigger] p[j], forall|j: int| 0 <= j < p.len() ==> !better(m, (#[trigger] p[j]).value, g[0].value),
{
    let s = choose|s: Seq<int>| #[trigger] sort_map(p, g, value_order(m), s);
    let n = p.len() as int;
    assert(g[0] == p[s[0]]);
    assert(s.to_set().subset_of(vstd::set_lib::set_int_range(0, n))) by { assert forall|x: int| s.to_set().contains(x) implies 0 <= x < n by { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(0 <= s[i] < p.len()); } }
    s.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, n);
    vstd::set_lib::lemma_subset_equality(s.to_set(), vstd::set_lib::set_int_range(0, n));
    assert forall|j: int| 0 <= j < p.len() implies !better(m, (#[trigger] p[j]).value, g[0].value) by {
        assert(vstd::set_lib::set_int_range(0, n).contains(j)); assert(s.to_set().contains(j));
        let i = choose|i: int| 0 <= i < s.len() && s[i] == j;
        assert(g[i] == p[s[i]]);
        if i > 0 { assert(value_order(m)(g[0], g[i]) != Ordering::Greater); }
    }
}
impl<F2: ObjectiveFunction> CMAES<F2> {
    pub open spec fn log(self) -> Seq<(DVector<F>, F)> { self.sampler.objective_function.log() }
    /// the overall best individual is an evaluated point with its own value, and none evaluated from call `from` to call `to` is strictly better
    pub open spec fn best_of_log(self, from: int, to: int) -> bool {
        match self.history.overall_best_individual {
            None => to <= from,
            Some(b) => (exists|j: int| from <= j < to && #[trigger] self.log()[j] == (b.point, b.value)) && forall|j: int| from <= j < to ==> !better(self.parameters.mode, (#[trigger] self.log()[j]).1, b.value),
        }
    }
}
/// a step that completes a generation adds it to what the best individual is the best of
#[verifier::spinoff_prover] pub proof fn lemma_step_best<F2: ObjectiveFunction>(a: CMAES<F2>, o: CMAES<F2>, r: Option<TerminationData>, from: int) /*C01*/
    requires a.stepped(o, r), o.wf(), o.best_of_log(from, o.log().len() as int), 0 <= from <= o.log().len(), !only_reason(r, InvalidFunctionValue),
    ensures a.best_of_log(from, a.log().len() as int), a.log().len() == o.log().len() + o.parameters.lambda,
{
    reveal(CMAES::stepped);
    let (g, k) = choose|g: Vec<EvaluatedPoint>, k: int| #[trigger] a.sampler.generation(o.sampler, o.state, o.parameters.mode, Ok::<Vec<EvaluatedPoint>, InvalidFunctionValueError>(g), k) && a.history.extended(o.history, o.parameters.mode, g@);
    let m = o.parameters.mode;
    let y = gather(o.state, dyn_of(o.sampler.constraints), o.sampler.max_resamples, o.sampler.rng.seed(), o.sampler.rng.drawn(), o.sampler.dim as int, o.sampler.population_size as int, k).0;
    let p = choose|p: Seq<EvaluatedPoint>| p.len() == y.len() && #[trigger] points_ok(p, y, o.state.mean, o.state.sigma) && a.log() == o.log() + calls_of(p) && stably_sorted(p, g@, value_order(m));
    lemma_sorted_first(m, p, g@);
    let j0 = choose|j: int| 0 <= j < p.len() && g@[0] == #[trigger] p[j];
    let n = o.log().len() as int;
    assert(a.log()[n + j0] == (p[j0].point, p[j0].value));
    let b = a.history.overall_best_individual.unwrap();
    assert forall|j: int| from <= j < a.log().len() implies !better(m, (#[trigger] a.log()[j]).1, b.value) by {
        if j < n { assert(a.log()[j] == o.log()[j]); assert(!better(m, o.log()[j].1, o.history.overall_best_individual.unwrap().value)); }
        else { assert(a.log()[j] == (p[j - n].point, p[j - n].value)); assert(!better(m, p[j - n].value, g@[0].value)); assert(!nan(p[j - n].value)); assert(!nan(p[j0].value)); }
    }
    if b == ind(g@[0]) { assert(a.log()[n + j0] == (b.point, b.value)); }
    else {
        let j = choose|j: int| from <= j < n && #[trigger] o.log()[j] == (b.point, b.value);
        assert(a.log()[j] == o.log()[j]);
    }
}
/// the counts after a step that reports nothing
#[verifier::spinoff_prover] pub proof fn lemma_step_counts<F2: ObjectiveFunction>(a: CMAES<F2>, o: CMAES<F2>) /*C03 C12*/
    requires a.stepped(o, None),
    ensures a.wf(), a.same_run(o), a.evals_counted(o), a.state.generation == o.state.generation + 1,
{ reveal(CMAES::stepped); }
/// C01: at every moment of a run from a fresh object the overall best individual is the best of everything evaluated so far
#[verifier::spinoff_prover] pub proof fn theorem_best<F2: ObjectiveFunction>(t: Seq<CMAES<F2>>) /*C01*/
    requires t.len() > 0, steps(t), t[0].wf(), t[0].history.empty(),
    ensures t.last().wf() && t.last().same_run(t[0]) && t.last().log().len() == t[0].log().len() + (t.len() - 1) * t[0].parameters.lambda && t.last().best_of_log(t[0].log().len() as int, t.last().log().len() as int),
    decreases t.len(),
{
    if t.len() > 1 {
        let u = t.drop_last();
        assert forall|i: int| 1 <= i < u.len() implies (#[trigger] u[i]).stepped(u[i - 1], None) by { assert(t[i].stepped(t[i - 1], None)); }
        theorem_best(u);
        assert(t[t.len() - 1].stepped(t[t.len() - 2], None));
        lemma_step_counts(t.last(), u.last());
        assert((t.len() - 2) * t[0].parameters.lambda >= 0) by (nonlinear_arith) requires t.len() >= 2, t[0].parameters.lambda >= 0;
        lemma_step_best(t.last(), u.last(), None, t[0].log().len() as int);
        assert((t.len() - 1) * t[0].parameters.lambda == (t.len() - 2) * t[0].parameters.lambda + t[0].parameters.lambda) by (nonlinear_arith);
    }
}
/// C03: the evaluation count is always the number of objective calls; C12: the generation count is the number of completed generations
#[verifier::spinoff_prover] pub proof fn theorem_counts<F2: ObjectiveFunction>(t: Seq<CMAES<F2>>) /*C03 C12*/
    requires t.len() > 0, steps(t),
    ensures t.last().sampler.function_evals - t[0].sampler.function_evals == t.last().log().len() - t[0].log().len(), t.last().state.generation == t[0].state.generation + t.len() - 1,
    decreases t.len(),
{
    if t.len() > 1 {
        let u = t.drop_last();
        assert forall|i: int| 1 <= i < u.len() implies (#[trigger] u[i]).stepped(u[i - 1], None) by { assert(t[i].stepped(t[i - 1], None)); }
        theorem_counts(u);
        assert(t[t.len() - 1].stepped(t[t.len() - 2], None));
        lemma_step_counts(t.last(), u.last());
    }
}
/// C06: a step that does not stop the run leaves every limit unreached, so a run stops in the first generation that reaches one
#[verifier::spinoff_prover] pub proof fn theorem_limits<F2: ObjectiveFunction>(a: CMAES<F2>, o: CMAES<F2>) /*C06*/
    requires a.stepped(o, None),
    ensures ({ let l = o.parameters.termination;
        (l.max_function_evals matches Some(m) ==> a.sampler.function_evals < m) && (l.max_generations matches Some(m) ==> a.state.generation < m) }),
{
    reveal(CMAES::stepped);
    reveal(flags); reveal(listed);
    let r: Option<TerminationData> = None;
    assert(a.advanced(o));
    let (g, k) = choose|g: Vec<EvaluatedPoint>, k: int| #[trigger] a.sampler.generation(o.sampler, o.state, o.parameters.mode, Ok::<Vec<EvaluatedPoint>, InvalidFunctionValueError>(g), k) && a.judged(g@, r, Criteria::Limits);
    let s = choose|s: &[EvaluatedPoint]| s@ == g@ && #[trigger] a.check(s).reported_as(flags(reasons_of(r)), Criteria::Limits);
    assert(a.check(s).reported_as(flags(reasons_of(r)), Criteria::Limits));
}
} // verus!
fn main() {}

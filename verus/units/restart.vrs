//@include prelude/head.rs
verus! {
//@include prelude/std.rs
//@include prelude/float.rs
//@include prelude/iter.rs
//@include prelude/point.rs
//@include prelude/linalg.rs
//@include prelude/ops.rs
//@include prelude/mode.rs
//@include prelude/sort.rs
//@include prelude/state.rs
//@include prelude/eigen.rs
//@include prelude/history.rs
//@include prelude/history_get.rs
//@include prelude/time.rs
//@include prelude/params.rs
//@include prelude/constraints.rs
//@include prelude/options.rs
//@include prelude/weights.rs
//@include prelude/update.rs
//@include prelude/generation.rs
//@include prelude/termination.rs
//@include prelude/plot.rs
//@include prelude/cmaes.rs
//@include prelude/defaults.rs
//@include prelude/unwrap.rs
//@include prelude/restart.rs
//@include prelude/restarter.rs
impl CMAESOptions {
//@import options src/options.rs "impl CMAESOptions" new
//@import options src/options.rs "impl CMAESOptions" initial_mean
//@import options src/options.rs "impl CMAESOptions" mode
//@import options src/options.rs "impl CMAESOptions" parallel_update
//@import options src/options.rs "impl CMAESOptions" seed
}
impl<F2: ObjectiveFunction> CMAES<F2> {
//@import cmaes src/lib.rs "impl<F> CMAES<F>" function_evals
//@import cmaes src/lib.rs "impl<F> CMAES<F>" overall_best_individual
//@import cmaes src/lib.rs "impl<F> CMAES<F>" into_objective_function
//@import cmaes src/lib.rs "impl<F> CMAES<F>" parameters
//@import cmaes src/lib.rs "impl<F: ObjectiveFunction> CMAES<F>" run
//@import cmaes src/lib.rs "impl<F: ParallelObjectiveFunction> CMAES<F>" run_parallel
}
impl RestartStrategy {
//@import strategies src/restart/strategy.rs "impl Strategy for RestartStrategy" has_zero_max_runs
//@import strategies src/restart/strategy.rs "impl Strategy for RestartStrategy" next_run
}
//@item src/restart/mod.rs const DEFAULT_INITIAL_STEP_SIZE
/// `rand::random`
#[verifier::external_body] pub fn random_seed() -> (r: u64) { unimplemented!() }
#[verifier::external_body] pub fn print_run_info(run: usize, params: &Parameters) { }
#[verifier::external_body] pub fn print_run_results<F2: ObjectiveFunction>(run: usize, cmaes: &CMAES<F2>, termination_reasons: &[TerminationReason]) { }
impl RestartResults { #[verifier::external_body] pub fn print_results(&self) { } }
// ---- no runs, and one more run in the account ----
proof fn lemma_none<F2: ObjectiveFunction>(s: Restarter)
    ensures s.all_drawn(Seq::<OneRun<F2>>::empty()), total(Seq::<OneRun<F2>>::empty()) == 0, best_among(s.mode, Seq::<OneRun<F2>>::empty()) is None, s.all_go_on(Seq::<OneRun<F2>>::empty()),
        s.chained(Seq::<OneRun<F2>>::empty()), s.all_made(Seq::<OneRun<F2>>::empty()), s.all_configured(Seq::<OneRun<F2>>::empty()),
        forall|t0: Instant| #[trigger] s.all_allowed(t0, Seq::<OneRun<F2>>::empty()), forall|reuse: bool| #[trigger] s.supplied(Seq::<OneRun<F2>>::empty(), reuse, Seq::<F2>::empty()),
{
    reveal(Restarter::chained); reveal(Restarter::all_made); reveal(Restarter::all_configured); reveal(Restarter::all_allowed); reveal(Restarter::supplied); reveal(Restarter::all_go_on); reveal(total); reveal(best_among); reveal(Restarter::all_drawn);
}
proof fn lemma_more_sums<F2: ObjectiveFunction>(m: Mode, t: Seq<OneRun<F2>>, q: OneRun<F2>)
    ensures total(t.push(q)) == total(t) + q.evals(), best_among(m, t.push(q)) == (match q.state.history.overall_best_individual { Some(b) => Some(best_of(m, best_among(m, t), b)), None => best_among(m, t) }),
{ reveal(total); reveal(best_among); assert(t.push(q).drop_last() =~= t); }
/// one more run leaves the earlier ones as they are
proof fn lemma_same_before<F2: ObjectiveFunction>(t: Seq<OneRun<F2>>, q: OneRun<F2>, i: int)
    requires 0 <= i < t.len(),
    ensures t.push(q)[i] == t[i], i > 0 ==> t.push(q)[i - 1] == t[i - 1], went_on(t.push(q), i) == went_on(t, i),
{ reveal(went_on); }
proof fn lemma_more_chained<F2: ObjectiveFunction>(s: Restarter, t: Seq<OneRun<F2>>, q: OneRun<F2>)
    requires s.chained(t), q.before == s.strategy_after(t), q.after.next(q.before, q.evals(), q.control),
    ensures s.chained(t.push(q)),
{
    reveal(Restarter::chained); let u = t.push(q);
    assert forall|i: int| 0 <= i < u.len() implies #[trigger] went_on(u, i) by { if i < t.len() { assert(went_on(t, i)); lemma_same_before(t, q, i); } else { reveal(went_on); } }
}
proof fn lemma_more_made<F2: ObjectiveFunction>(s: Restarter, t: Seq<OneRun<F2>>, q: OneRun<F2>)
    requires s.all_made(t), q.made(s.range_size()),
    ensures s.all_made(t.push(q)),
{ reveal(Restarter::all_made); }
proof fn lemma_more_configured<F2: ObjectiveFunction>(s: Restarter, t: Seq<OneRun<F2>>, q: OneRun<F2>)
    requires s.all_configured(t), s.configures(q.o),
    ensures s.all_configured(t.push(q)),
{ reveal(Restarter::all_configured); }
proof fn lemma_more_allowed<F2: ObjectiveFunction>(s: Restarter, t0: Instant, t: Seq<OneRun<F2>>, q: OneRun<F2>)
    requires s.all_allowed(t0, t), s.may_run(t0, t),
    ensures s.all_allowed(t0, t.push(q)),
{
    reveal(Restarter::all_allowed);
    let u = t.push(q);
    assert(t.take(t.len() as int) =~= t);
    assert forall|i: int| 0 <= i < u.len() implies s.may_run(t0, #[trigger] u.take(i)) by { assert(u.take(i) =~= t.take(i)); if i < t.len() { assert(s.may_run(t0, t.take(i))); } }
}
proof fn lemma_more_supplied<F2: ObjectiveFunction>(s: Restarter, t: Seq<OneRun<F2>>, q: OneRun<F2>, reuse: bool, m0: Seq<F2>, made: Seq<F2>)
    requires s.supplied(t, reuse, m0), if reuse && t.len() > 0 { made == m0 && q.f == t.last().state.sampler.objective_function } else { made == m0.push(q.f) },
    ensures s.supplied(t.push(q), reuse, made),
{
    reveal(Restarter::supplied); let u = t.push(q);
    assert forall|i: int| 0 <= i < u.len() implies #[trigger] was_supplied(u, reuse, made, i) by { if i < t.len() { assert(was_supplied(t, reuse, m0, i)); lemma_same_before(t, q, i); reveal(was_supplied); } else { reveal(was_supplied); } }
}
proof fn lemma_more_go_on<F2: ObjectiveFunction>(s: Restarter, t: Seq<OneRun<F2>>, q: OneRun<F2>)
    requires s.all_go_on(t), q.goes_on(),
    ensures s.all_go_on(t.push(q)),
{ reveal(Restarter::all_go_on); }
proof fn lemma_made<F2: ObjectiveFunction, R: FnOnce(&mut CMAES<F2>) -> TerminationData>(run: R, hands: spec_fn(CMAESOptions) -> bool, q: OneRun<F2>, range: F)
    requires one_run(run, hands, q.f, q.state, q.reasons), forall|x: CMAESOptions| hands(x) ==> q.before.hands(q.o, range, x),
        forall|s: &mut CMAES<F2>, d: TerminationData| #[trigger] call_ensures(run, (s,), d) ==> exists|t: Seq<CMAES<F2>>| #[trigger] final(s).ran(*s, d, t),
    ensures q.made(range),
{ reveal(OneRun::made); }
proof fn lemma_made_drawn<F2: ObjectiveFunction, R: FnOnce(&mut CMAES<F2>) -> TerminationData>(run: R, hands: spec_fn(CMAESOptions) -> bool, q: OneRun<F2>, range: F)
    requires one_run(run, hands, q.f, q.state, q.reasons), forall|x: CMAESOptions| hands(x) ==> #[trigger] q.before.hands(q.o, range, x) && q.before.draws(q.o, range, q.rng, x),
        forall|s: &mut CMAES<F2>, d: TerminationData| #[trigger] call_ensures(run, (s,), d) ==> exists|t: Seq<CMAES<F2>>| #[trigger] final(s).ran(*s, d, t),
    ensures q.made_drawn(range),
{ reveal(OneRun::made_drawn); }
proof fn lemma_more_drawn<F2: ObjectiveFunction>(s: Restarter, t: Seq<OneRun<F2>>, q: OneRun<F2>)
    requires s.all_drawn(t), s.drawn_from(s.rng_after(t), q),
    ensures s.all_drawn(t.push(q)), s.rng_after(t.push(q)) == q.before.rng_left(q.rng),
{
    reveal(Restarter::all_drawn);
    let u = t.push(q);
    assert(u.take(t.len() as int) =~= t);
    assert forall|i: int| 0 <= i < u.len() implies s.drawn_from(s.rng_after(u.take(i)), #[trigger] u[i]) by { if i < t.len() { assert(u.take(i) =~= t.take(i)); assert(s.drawn_from(s.rng_after(t.take(i)), t[i])); assert(u[i] == t[i]); } }
}
proof fn lemma_stops_after<F2: ObjectiveFunction>(s: Restarter, t0: Instant, t: Seq<OneRun<F2>>, q: OneRun<F2>)
    requires s.all_go_on(t), !q.goes_on(),
    ensures s.stops(t0, t.push(q), if q.invalid() { RestartTerminationReason::InvalidFunctionValue } else if q.on_target() { RestartTerminationReason::FunTarget } else { RestartTerminationReason::MaxRuns }),
{ reveal(Restarter::stops); assert(t.push(q).drop_last() =~= t); }
/// what the loop may report at its head
pub open spec fn head_stops<F2: ObjectiveFunction>(s: Restarter, t0: Instant, t: Seq<OneRun<F2>>) -> bool {
    &&& s.strategy_after(t).no_runs() ==> s.stops(t0, t, RestartTerminationReason::MaxRuns)
    &&& !s.strategy_after(t).no_runs() && !s.evals_left(t) ==> s.stops(t0, t, RestartTerminationReason::MaxFunctionEvals)
    &&& !s.strategy_after(t).no_runs() && s.evals_left(t) && s.time_up(t0) ==> s.stops(t0, t, RestartTerminationReason::MaxTime)
}
proof fn lemma_head_stops<F2: ObjectiveFunction>(s: Restarter, t: Seq<OneRun<F2>>)
    requires s.all_go_on(t),
    ensures forall|t0: Instant| #[trigger] head_stops(s, t0, t),
{ reveal(Restarter::stops); reveal(Restarter::all_go_on); }
pub open spec fn all_from<F2, G: Maker<F2>>(g: G, made: Seq<F2>) -> bool { forall|i: int| 0 <= i < made.len() ==> g.makes(#[trigger] made[i]) }
pub open spec fn all_are<F2>(f: F2, made: Seq<F2>) -> bool { forall|i: int| 0 <= i < made.len() ==> #[trigger] made[i] == f }
impl RestartOptions {
//@fn src/restart/options.rs "impl RestartOptions" new
//@sub sig 1 /RangeInclusive<f64>/RangeF/
//@sub * /= (\*?[\w.]+(?:\(\))?)\.\.=(\*?[\w.]+(?:\(\))?);/= RangeF::of(\1, \2);/
//@sub * /vec!\[0\.0; (\w+)\]/repeat_(0.0, \1)/
//@| ensures r.dimensions == dimensions, r.strategy == strategy, !nan(search_range.s) && !nan(search_range.e) ==> r.search_range == (if fle(search_range.s, search_range.e) { search_range } else { RangeF { s: search_range.e, e: search_range.s } }), /*C17*/
//@|   r.mode == Mode::Minimize && !r.parallel_update && r.fun_target is None && r.max_function_evals is None && r.max_time is None && r.max_function_evals_per_run is None && r.max_generations_per_run is None && r.seed is None, /*C17*/
//@|   r.default_options.defaults(r.default_options.initial_mean, flit(1real / 2real)), /*C17*/
//@end
//@fn src/restart/options.rs "impl RestartOptions" mode
//@| ensures r == (RestartOptions { mode: mode, ..self }), /*C17*/
//@end
//@fn src/restart/options.rs "impl RestartOptions" parallel_update
//@| ensures r == (RestartOptions { parallel_update: parallel_update, ..self }), /*C17*/
//@end
//@fn src/restart/options.rs "impl RestartOptions" default_options
//@| ensures r == (RestartOptions { default_options: options, ..self }), /*C17*/
//@end
//@fn src/restart/options.rs "impl RestartOptions" fun_target
//@| ensures r == (RestartOptions { fun_target: Some(fun_target), ..self }), /*C17*/
//@end
//@fn src/restart/options.rs "impl RestartOptions" max_function_evals
//@| ensures r == (RestartOptions { max_function_evals: Some(function_evals), ..self }), /*C16 C17*/
//@end
//@fn src/restart/options.rs "impl RestartOptions" max_time
//@| ensures r == (RestartOptions { max_time: Some(max_time), ..self }), /*C16 C17*/
//@end
//@fn src/restart/options.rs "impl RestartOptions" max_function_evals_per_run
//@| ensures r == (RestartOptions { max_function_evals_per_run: Some(function_evals), ..self }), /*C17*/
//@end
//@fn src/restart/options.rs "impl RestartOptions" max_generations_per_run
//@| ensures r == (RestartOptions { max_generations_per_run: Some(generations), ..self }), /*C17*/
//@end
//@fn src/restart/options.rs "impl RestartOptions" enable_printing
//@| ensures r == (RestartOptions { enable_printing: enable_printing, ..self }), /*C17*/
//@end
//@fn src/restart/options.rs "impl RestartOptions" seed
//@| ensures r == (RestartOptions { seed: Some(seed), ..self }), /*C17 C19*/
//@end
//@fn src/restart/options.rs "impl RestartOptions" build
//@| ensures match r { Err(e) => restart_error(self) == Some(e), Ok(s) => restart_error(self) is None && s.of_options(self) }, /*C16 C17*/
//@|   r matches Ok(s) ==> s.rng.state() == seeded(s.seed), /*C00*/
//@end
}
impl Restarter {
    #[verifier::external_body] fn print_initial_info(&self) { }
//@fn src/restart/mod.rs "impl Restarter" new
//@bare 1
//@ops
//@sub * /rand::random/|| -> (r: u64) { random_seed() }/
//@| ensures match r { Err(e) => restart_error(options) == Some(e), Ok(s) => restart_error(options) is None && s.of_options(options) }, /*C16 C17*/
//@|   r matches Ok(s) ==> s.rng.state() == seeded(s.seed), /*C00*/
//@end
//@fn src/restart/mod.rs "impl Restarter" seed
//@| ensures r == self.seed, /*C19*/
//@end
//@fn src/restart/mod.rs "impl Restarter" generate_initial_mean
//@sub * #DVector::from_iterator\(\s*([\w.]+),\s*\(0\.\.\1\)\.map\(\|_\| (.*)\),?\s*\)#{ let mut v_: Vec<F> = Vec::new(); let mut i_: usize = 0; while i_ < \1 { v_.push(\2); i_ += 1; } DVector::from_vec_(v_) }#
//@start| proof { reveal(values_drawn); reveal_with_fuel(values_drawn, 2); }
//@attr #[verifier::loop_isolation(false)]
//@loop 0| invariant 0 <= i_ <= old(self).dimensions, v_@.len() == i_, forall|i: int| 0 <= i < v_@.len() ==> old(self).search_range.has(#[trigger] v_@[i]),
//@loop 0|   *self == (Restarter { rng: self.rng, ..*old(self) }),
//@loop 0|   (v_@, self.rng.state()) == values_drawn(old(self).rng.state(), old(self).search_range, i_ as int), /*C00*/
//@loop 0| decreases old(self).dimensions - i_,
//@| ensures old(self).in_search_range(r), *final(self) == (Restarter { rng: final(self).rng, ..*old(self) }), /*C17*/
//@|   (r@, final(self).rng.state()) == values_drawn(old(self).rng.state(), old(self).search_range, old(self).dimensions as int), /*C00*/
//@end
//@fn src/restart/mod.rs "impl Restarter" update_best_individual
//@| ensures *final(self) == (Restarter { overall_best: Some(best_of(old(self).mode, old(self).overall_best, individual)), ..*old(self) }), /*C16*/
//@end
//@fn src/restart/mod.rs "impl Restarter" run_internal
//@ops
//@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::spinoff_prover] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sub sig 1 /<F, G, R>/<F2, G, R>/
//@sub sig 1 /G: FnMut\(\) -> F\b/F2: ObjectiveFunction, G: Maker<F2>/
//@sub sig 1 /&mut CMAES<F>/&mut CMAES<F2>/
//@sub * /let mut objective_function = None;/let mut objective_function: Option<F2> = None;/
//@sub * /\.unwrap_or_else\(&mut (get_\w+)\)/.or_made_(&mut \1)/
//@annot ~\|(\w+): &mut CMAES<F>\|~|\1: &mut CMAES<F2>| -> (d: TerminationData) requires old(\1).wf() ensures exists|t: Seq<CMAES<F2>>| #[trigger] final(\1).ran(*old(\1), d, t)~
//@annot ~\|&(\w+)\|(?=\s*\1 == ([\w:]+))~*|\1_: &TerminationReason| -> (b: bool) ensures b == (*\1_ == \2)%% let \1 = *\1_; ~
//@| requires run_runs::<F2, R>(run), get_objective_function.made().len() == 0, self.overall_best is None,
//@| ensures exists|t0: Instant, t: Seq<OneRun<F2>>, made: Seq<F2>| #[trigger] self.account(t0, t, reuse_objective_function, made, r) && all_from(get_objective_function, made), /*C16 C17*/
//@|   exists|t0: Instant, t: Seq<OneRun<F2>>, made: Seq<F2>| #[trigger] self.account(t0, t, reuse_objective_function, made, r) && all_from(get_objective_function, made) && self.all_drawn(t), /*C00*/
//@start| broadcast use axiom_of_seq; let ghost g0_ = get_objective_function; let ghost mut t_: Seq<OneRun<F2>> = Seq::empty(); let ghost mut m_: Seq<F2> = Seq::empty();
//@start| proof { lemma_none::<F2>(self); lemma_head_stops::<F2>(self, t_); }
//@before /let \((\w+), (\w+), (\w+)\) = self_?\s*\.strategy\s*\.next_run\(\s*(\w+),\s*(\w+),\s*(\w+),\s*(\w+),/| let ghost before_ = self_.strategy; let ghost rng_ = self_.rng.state(); proof { assume(before_.in_range(\4, \5)); }
//@after /let \((\w+), (\w+), (\w+)\) = self_?\s*\.strategy\s*\.next_run\(\s*(\w+),\s*(\w+),\s*(\w+),\s*(\w+),.*?\);/| let ghost q_ = OneRun::<F2> { before: before_, after: self_.strategy, o: \4, f: \6, state: \1, reasons: \2, control: \3, rng: rng_ };
//@after /let \((\w+), (\w+), (\w+)\) = self_?\s*\.strategy\s*\.next_run\(\s*(\w+),\s*(\w+),\s*(\w+),\s*(\w+),.*?\);/| proof { lemma_made(\7, |x_: CMAESOptions| before_.hands(\4, \5, x_), q_, self.range_size()); }
//@after /let \((\w+), (\w+), (\w+)\) = self_?\s*\.strategy\s*\.next_run\(\s*(\w+),\s*(\w+),\s*(\w+),\s*(\w+),.*?\);/| proof { lemma_made_drawn(\7, |x_: CMAESOptions| before_.hands(\4, \5, x_) && before_.draws(\4, \5, rng_, x_), q_, self.range_size()); lemma_more_drawn(self, t_, q_); } /*C00*/
//@after /let \((\w+), (\w+), (\w+)\) = self_?\s*\.strategy\s*\.next_run\(\s*(\w+),\s*(\w+),\s*(\w+),\s*(\w+),.*?\);/| proof { lemma_more_sums(self.mode, t_, q_); } /*C16*/
//@after /let \((\w+), (\w+), (\w+)\) = self_?\s*\.strategy\s*\.next_run\(\s*(\w+),\s*(\w+),\s*(\w+),\s*(\w+),.*?\);/| proof { lemma_more_chained(self, t_, q_); } /*C16*/
//@after /let \((\w+), (\w+), (\w+)\) = self_?\s*\.strategy\s*\.next_run\(\s*(\w+),\s*(\w+),\s*(\w+),\s*(\w+),.*?\);/| proof { lemma_more_made(self, t_, q_); } /*C16 C17*/
//@after /let \((\w+), (\w+), (\w+)\) = self_?\s*\.strategy\s*\.next_run\(\s*(\w+),\s*(\w+),\s*(\w+),\s*(\w+),.*?\);/| proof { lemma_more_configured(self, t_, q_); } /*C17*/
//@after /let \((\w+), (\w+), (\w+)\) = self_?\s*\.strategy\s*\.next_run\(\s*(\w+),\s*(\w+),\s*(\w+),\s*(\w+),.*?\);/| proof { lemma_more_allowed(self, time_started, t_, q_); } /*C16*/
//@after /let \((\w+), (\w+), (\w+)\) = self_?\s*\.strategy\s*\.next_run\(\s*(\w+),\s*(\w+),\s*(\w+),\s*(\w+),.*?\);/| proof { lemma_more_supplied(self, t_, q_, reuse_objective_function, m_, get_objective_function.made()); } /*C17*/
//@after /let \((\w+), (\w+), (\w+)\) = self_?\s*\.strategy\s*\.next_run\(\s*(\w+),\s*(\w+),\s*(\w+),\s*(\w+),.*?\);/| proof { if q_.goes_on() { lemma_more_go_on(self, t_, q_); lemma_head_stops(self, t_.push(q_)); } else { lemma_stops_after(self, time_started, t_, q_); } } /*C16*/
//@after /let \((\w+), (\w+), (\w+)\) = self_?\s*\.strategy\s*\.next_run\(\s*(\w+),\s*(\w+),\s*(\w+),\s*(\w+),.*?\);/| let ghost u_ = t_; proof { t_ = t_.push(q_); m_ = get_objective_function.made(); assume(total(t_) <= usize::MAX && t_.len() < usize::MAX); }
//@loop 0| invariant_except_break self.all_go_on(t_), head_stops(self, time_started, t_), /*C16*/
//@loop 0|   (objective_function is Some) == (reuse_objective_function && t_.len() > 0), objective_function is Some ==> objective_function->0 == t_.last().state.sampler.objective_function, /*C17*/
//@loop 0| invariant self_.same_setup(self), self_.strategy == self.strategy_after(t_), run_runs::<F2, R>(run), /*C16 C17*/
//@loop 0|   self_.overall_best == best_among(self.mode, t_), runs == t_.len(), function_evals == total(t_), /*C16*/
//@loop 0|   self.chained(t_) && self.all_allowed(time_started, t_), /*C16*/
//@loop 0|   self.all_made(t_), /*C16 C17*/
//@loop 0|   self.all_configured(t_) && self.supplied(t_, reuse_objective_function, m_), /*C17*/
//@loop 0|   self.all_drawn(t_) && self_.rng.state() == self.rng_after(t_), /*C00*/
//@loop 0|   m_ == get_objective_function.made(), all_from(g0_, m_), forall|x: F2| get_objective_function.makes(x) == g0_.makes(x), /*C17*/
//@loop 0| ensures self.stops(time_started, t_, reason), /*C16*/
//@tail| proof { assert(self.sums(t_, tail_) && tail_.reason == reason); /*C16*/
//@tail| assert(self.account(time_started, t_, reuse_objective_function, m_, tail_)); }
//@end
//@fn src/restart/mod.rs "impl Restarter" run
//@sub sig 1 /<F, G>/<F2, G>/
//@sub sig 1 /F: ObjectiveFunction,\s*G: FnMut\(\) -> F\b/F2: ObjectiveFunction, G: Maker<F2>/
//@annot ~\|(\w+)\| (?=\w+\s*\.run)~|\1: &mut CMAES<F2>| -> (d: TerminationData) requires old(\1).wf() ensures exists|t: Seq<CMAES<F2>>| #[trigger] final(\1).ran(*old(\1), d, t)~
//@| requires get_objective_function.made().len() == 0, self.overall_best is None,
//@| ensures exists|t0: Instant, t: Seq<OneRun<F2>>, made: Seq<F2>| #[trigger] self.account(t0, t, false, made, r) && all_from(get_objective_function, made), /*C16 C17*/
//@|   exists|t0: Instant, t: Seq<OneRun<F2>>, made: Seq<F2>| #[trigger] self.account(t0, t, false, made, r) && all_from(get_objective_function, made) && self.all_drawn(t), /*C00*/
//@end
//@fn src/restart/mod.rs "impl Restarter" run_with_reuse
//@sub sig 1 /<F: ObjectiveFunction>/<F2: ObjectiveFunction>/
//@sub sig 1 /: F\b/: F2/
//@sub * /\|\| (\w+)\.take\(\)\.unwrap\(\)/once_(\1)/
//@annot ~\|(\w+)\| (?=\w+\s*\.run)~|\1: &mut CMAES<F2>| -> (d: TerminationData) requires old(\1).wf() ensures exists|t: Seq<CMAES<F2>>| #[trigger] final(\1).ran(*old(\1), d, t)~
//@| requires self.overall_best is None,
//@| ensures exists|t0: Instant, t: Seq<OneRun<F2>>, made: Seq<F2>| #[trigger] self.account(t0, t, true, made, r) && all_are(objective_function, made), /*C16 C17*/
//@|   exists|t0: Instant, t: Seq<OneRun<F2>>, made: Seq<F2>| #[trigger] self.account(t0, t, true, made, r) && all_are(objective_function, made) && self.all_drawn(t), /*C00*/
//@end
//@fn src/restart/mod.rs "impl Restarter" run_parallel
//@sub sig 1 /<F, G>/<F2, G>/
//@sub sig 1 /F: ParallelObjectiveFunction,\s*G: FnMut\(\) -> F\b/F2: ObjectiveFunction, G: Maker<F2>/
//@annot ~\|(\w+)\| (?=\w+\s*\.run)~|\1: &mut CMAES<F2>| -> (d: TerminationData) requires old(\1).wf() ensures exists|t: Seq<CMAES<F2>>| #[trigger] final(\1).ran(*old(\1), d, t)~
//@| requires get_objective_function.made().len() == 0, self.overall_best is None,
//@| ensures exists|t0: Instant, t: Seq<OneRun<F2>>, made: Seq<F2>| #[trigger] self.account(t0, t, false, made, r) && all_from(get_objective_function, made), /*C16 C17*/
//@|   exists|t0: Instant, t: Seq<OneRun<F2>>, made: Seq<F2>| #[trigger] self.account(t0, t, false, made, r) && all_from(get_objective_function, made) && self.all_drawn(t), /*C00*/
//@end
//@fn src/restart/mod.rs "impl Restarter" run_parallel_with_reuse
//@sub sig 1 /<F: ParallelObjectiveFunction>/<F2: ObjectiveFunction>/
//@sub sig 1 /: F\b/: F2/
//@sub * /\|\| (\w+)\.take\(\)\.unwrap\(\)/once_(\1)/
//@annot ~\|(\w+)\| (?=\w+\s*\.run)~|\1: &mut CMAES<F2>| -> (d: TerminationData) requires old(\1).wf() ensures exists|t: Seq<CMAES<F2>>| #[trigger] final(\1).ran(*old(\1), d, t)~
//@| requires self.overall_best is None,
//@| ensures exists|t0: Instant, t: Seq<OneRun<F2>>, made: Seq<F2>| #[trigger] self.account(t0, t, true, made, r) && all_are(objective_function, made), /*C16 C17*/
//@|   exists|t0: Instant, t: Seq<OneRun<F2>>, made: Seq<F2>| #[trigger] self.account(t0, t, true, made, r) && all_are(objective_function, made) && self.all_drawn(t), /*C00*/
//@end
}
} // verus!
fn main() {}

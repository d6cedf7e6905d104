//@include prelude/head.rs
verus! {
//@include prelude/std.rs
//@include prelude/float.rs
//@include prelude/iter.rs
//@include prelude/point.rs
//@include prelude/linalg.rs
//@include prelude/ops.rs
//@include prelude/mode.rs
//@include prelude/sort.rs
//@include prelude/state.rs
//@include prelude/eigen.rs
//@include prelude/history.rs
//@include prelude/history_get.rs
//@include prelude/time.rs
//@include prelude/params.rs
//@include prelude/constraints.rs
//@include prelude/options.rs
//@include prelude/weights.rs
//@include prelude/update.rs
//@include prelude/generation.rs
//@include prelude/termination.rs
//@include prelude/plot.rs
//@include prelude/cmaes.rs
//@include prelude/defaults.rs
//@include prelude/unwrap.rs
//@include prelude/restart.rs
use vstd::arithmetic::power::pow;
impl CMAESOptions {
//@import options src/options.rs "impl CMAESOptions" build
}
impl<F2: ObjectiveFunction> CMAES<F2> {
//@import cmaes src/lib.rs "impl<F> CMAES<F>" function_evals
}
//@import cmaes src/options.rs - is_initial_step_size_valid
//@item src/restart/ipop.rs const DEFAULT_INCREASE_FACTOR
//@item src/restart/local.rs const DEFAULT_INITIAL_STEP_SIZE_FACTOR
//@item src/restart/bipop.rs const DEFAULT_IPOP_INCREASE_FACTOR
//@item src/restart/bipop.rs const DEFAULT_LR_INITIAL_STEP_SIZE_FACTOR
impl IPOP {
//@fn src/restart/ipop.rs "impl IPOP" new
//@| ensures match r { Ok(s) => increase_factor != 0 && s.runs == 0 && s.current_multiplier == 1 && s.increase_factor == increase_factor, Err(e) => increase_factor == 0 && e is PopulationSize }, /*C14*/
//@end
//@fn src/restart/ipop.rs "impl Default for IPOP" default
//@sub * /\.unwrap\(\)/.unwrap_()/
//@| ensures r.runs == 0 && r.current_multiplier == 1 && r.increase_factor == 2, /*C14*/
//@end
//@fn src/restart/ipop.rs "impl IPOP" get_initial_step_size
//@| ensures r == fdiv(search_range_size, flit(2real)), /*C14*/
//@end
//@fn src/restart/ipop.rs "impl Strategy for IPOP" has_zero_max_runs
//@| ensures !r, /*C14*/
//@end
//@fn src/restart/ipop.rs "impl Strategy for IPOP" next_run
//@sub sig * /\b_\w*: &mut ChaChaRng/rng: &mut ChaChaRng/
//@sub sig 1 /<F, R: FnOnce\(&mut CMAES<F>\) -> TerminationData>/<F2: ObjectiveFunction, R: FnOnce(&mut CMAES<F2>) -> TerminationData>/
//@sub sig 1 /objective_function: F\b/objective_function: F2/
//@sub sig 1 /\(CMAES<F>,/(CMAES<F2>,/
//@sub * /\.unwrap\(\)/.unwrap_()/
//@| requires runs_any::<F2, R>(run), old(self).in_range(options), forall|x: CMAESOptions| old(self).hands(options, search_range_size, x) ==> #[trigger] x.sizes_in_range(),
//@| ensures one_run(run, |x: CMAESOptions| old(self).hands(options, search_range_size, x), objective_function, r.0, r.1), /*C14*/
//@|   final(self).next(*old(self), r.2), /*C14*/
//@|   final(rng).state() == old(rng).state(), /*C00*/
//@end
}
impl Local {
//@fn src/restart/local.rs "impl Local" new
//@sub * /options::is_init/is_init/
//@| ensures match r { Ok(s) => (initial_step_size_factor matches Some(x) ==> valid_step(x)) && s.runs == 0 && s.max_runs == max_runs && s.initial_step_size_factor == (match initial_step_size_factor { Some(x) => x, None => flit(1real / 2real) }), Err(e) => (initial_step_size_factor matches Some(x) && !valid_step(x)) && e is InitialStepSize }, /*C14*/
//@end
//@fn src/restart/local.rs "impl Local" get_initial_step_size
//@| ensures r == fmul(fmul(search_range_size, self.initial_step_size_factor), flit(1real / 100real)), /*C14*/
//@end
//@fn src/restart/local.rs "impl Strategy for Local" has_zero_max_runs
//@| ensures r == (self.max_runs == 0), /*C14 C16*/
//@end
//@fn src/restart/local.rs "impl Strategy for Local" next_run
//@sub sig * /\b_\w*: &mut ChaChaRng/rng: &mut ChaChaRng/
//@sub sig 1 /<F, R: FnOnce\(&mut CMAES<F>\) -> TerminationData>/<F2: ObjectiveFunction, R: FnOnce(&mut CMAES<F2>) -> TerminationData>/
//@sub sig 1 /objective_function: F\b/objective_function: F2/
//@sub sig 1 /\(CMAES<F>,/(CMAES<F2>,/
//@sub * /\.unwrap\(\)/.unwrap_()/
//@| requires runs_any::<F2, R>(run), old(self).in_range(options), forall|x: CMAESOptions| old(self).hands(options, search_range_size, x) ==> #[trigger] x.sizes_in_range(),
//@| ensures one_run(run, |x: CMAESOptions| old(self).hands(options, search_range_size, x), objective_function, r.0, r.1), /*C14*/
//@|   final(self).next(*old(self), r.2), /*C14*/
//@|   final(rng).state() == old(rng).state(), /*C00*/
//@end
}
impl BIPOP {
//@fn src/restart/bipop.rs "impl BIPOP" new
//@sub * /options::is_init/is_init/
//@| ensures match r {
//@|     Ok(s) => (lr_initial_step_size_factor matches Some(x) ==> valid_step(x)) && ipop_increase_factor != Some(0usize) && s.ipop_runs == 0 && s.ipop_function_evals == 0 && s.ipop_current_multiplier == 1 && s.last_ipop_function_evals_used == 0 && s.last_ipop_multiplier == 1 && s.lr_function_evals == 0
//@|         && s.ipop_increase_factor == (match ipop_increase_factor { Some(x) => x, None => 2 }) && s.lr_initial_step_size_factor == (match lr_initial_step_size_factor { Some(x) => x, None => flit(1real / 5real) }),
//@|     Err(InvalidRestartStrategyOptionsError::InitialStepSize) => lr_initial_step_size_factor matches Some(x) && !valid_step(x),
//@|     Err(InvalidRestartStrategyOptionsError::PopulationSize) => (lr_initial_step_size_factor matches Some(x) ==> valid_step(x)) && ipop_increase_factor == Some(0usize) }, /*C15*/
//@end
//@fn src/restart/bipop.rs "impl Default for BIPOP" default
//@sub * /\.unwrap\(\)/.unwrap_()/
//@| ensures r.ipop_runs == 0 && r.ipop_function_evals == 0 && r.ipop_current_multiplier == 1 && r.ipop_increase_factor == 2 && r.lr_function_evals == 0, /*C15*/
//@end
//@import bipop src/restart/bipop.rs "impl BIPOP" get_initial_step_size_lr
//@import bipop src/restart/bipop.rs "impl BIPOP" get_population_size_lr
//@fn src/restart/bipop.rs "impl BIPOP" get_initial_step_size_ipop
//@| ensures r == fdiv(search_range_size, flit(5real)), /*C15*/
//@end
//@fn src/restart/bipop.rs "impl Strategy for BIPOP" has_zero_max_runs
//@| ensures !r, /*C15*/
//@end
//@fn src/restart/bipop.rs "impl BIPOP" next_run_lr
//@ops
//@sub sig 1 /<F, R: FnOnce\(&mut CMAES<F>\) -> TerminationData>/<F2: ObjectiveFunction, R: FnOnce(&mut CMAES<F2>) -> TerminationData>/
//@sub sig 1 /objective_function: F\b/objective_function: F2/
//@sub sig 1 /\(CMAES<F>,/(CMAES<F2>,/
//@sub * /\.unwrap\(\)/.unwrap_()/
//@annot #\|max_fevals\|#|max_fevals: usize| -> (m: usize) ensures m == least(Some(max_fevals), lr_max_fevals as int)#
//@| requires runs_any::<F2, R>(run), old(self).in_range(options), forall|x: CMAESOptions| old(self).hands_lr(options, search_range_size, x) ==> #[trigger] x.sizes_in_range(),
//@| ensures one_run(run, |x: CMAESOptions| old(self).hands_lr(options, search_range_size, x), objective_function, r.0, r.1), /*C15*/
//@|   final(self).next_lr(*old(self), r.0.sampler.function_evals as int, r.2), /*C15*/
//@|   old(self).lr_turn() ==> (one_run(run, |x: CMAESOptions| old(self).hands_lr(options, search_range_size, x) && old(self).draws(options, search_range_size, old(rng).state(), x), objective_function, r.0, r.1) && final(rng).state() == old(self).rng_left(old(rng).state())), /*C00*/
//@end
//@fn src/restart/bipop.rs "impl BIPOP" next_run_ipop
//@ops
//@sub sig 1 /<F, R: FnOnce\(&mut CMAES<F>\) -> TerminationData>/<F2: ObjectiveFunction, R: FnOnce(&mut CMAES<F2>) -> TerminationData>/
//@sub sig 1 /objective_function: F\b/objective_function: F2/
//@sub sig 1 /\(CMAES<F>,/(CMAES<F2>,/
//@sub * /\.unwrap\(\)/.unwrap_()/
//@| requires runs_any::<F2, R>(run), old(self).in_range(options), forall|x: CMAESOptions| old(self).hands_ipop(options, search_range_size, x) ==> #[trigger] x.sizes_in_range(),
//@| ensures one_run(run, |x: CMAESOptions| old(self).hands_ipop(options, search_range_size, x), objective_function, r.0, r.1), /*C15*/
//@|   final(self).next_ipop(*old(self), r.0.sampler.function_evals as int, r.2), /*C15*/
//@end
//@fn src/restart/bipop.rs "impl Strategy for BIPOP" next_run
//@sub sig 1 /<F, R: FnOnce\(&mut CMAES<F>\) -> TerminationData>/<F2: ObjectiveFunction, R: FnOnce(&mut CMAES<F2>) -> TerminationData>/
//@sub sig 1 /objective_function: F\b/objective_function: F2/
//@sub sig 1 /\(CMAES<F>,/(CMAES<F2>,/
//@| requires runs_any::<F2, R>(run), old(self).in_range(options), forall|x: CMAESOptions| old(self).hands(options, search_range_size, x) ==> #[trigger] x.sizes_in_range(),
//@| ensures one_run(run, |x: CMAESOptions| old(self).hands(options, search_range_size, x), objective_function, r.0, r.1), /*C15*/
//@|   final(self).next(*old(self), r.0.sampler.function_evals as int, r.2), /*C15*/
//@|   (one_run(run, |x: CMAESOptions| old(self).hands(options, search_range_size, x) && old(self).draws(options, search_range_size, old(rng).state(), x), objective_function, r.0, r.1) && final(rng).state() == old(self).rng_left(old(rng).state())), /*C00*/
//@end
}
impl RestartStrategy {
//@fn src/restart/strategy.rs "impl Strategy for RestartStrategy" has_zero_max_runs
//@| ensures r == self.no_runs(), /*C14 C16*/
//@end
//@fn src/restart/strategy.rs "impl Strategy for RestartStrategy" next_run
//@sub sig 1 /<F, R: FnOnce\(&mut CMAES<F>\) -> TerminationData>/<F2: ObjectiveFunction, R: FnOnce(&mut CMAES<F2>) -> TerminationData>/
//@sub sig 1 /objective_function: F\b/objective_function: F2/
//@sub sig 1 /\(CMAES<F>,/(CMAES<F2>,/
//@start| proof { reveal(RestartStrategy::draws); reveal(RestartStrategy::rng_left); }
//@| requires runs_any::<F2, R>(run), old(self).in_range(default_options, search_range_size),
//@| ensures one_run(run, |x: CMAESOptions| old(self).hands(default_options, search_range_size, x), objective_function, r.0, r.1), /*C14 C15 C16 C17*/
//@|   final(self).next(*old(self), r.0.sampler.function_evals as int, r.2), /*C14 C15*/
//@|   one_run(run, |x: CMAESOptions| old(self).hands(default_options, search_range_size, x) && old(self).draws(default_options, search_range_size, old(rng).state(), x), objective_function, r.0, r.1), final(rng).state() == old(self).rng_left(old(rng).state()), /*C00*/
//@end
}
// ---- schedules: theorems over any number of runs ----
/// IPOP: before the k-th run (from 0) the factor is factor^k, and the tenth run is the one that ends the restarts
pub proof fn theorem_ipop(t: Seq<IPOP>, c: Seq<RestartControl>, k: int) /*C14*/
    requires t.len() == c.len() + 1, t[0].runs == 0, t[0].current_multiplier == 1, 0 <= k < t.len(), forall|i: int| 0 <= i < c.len() ==> (#[trigger] t[i + 1]).next(t[i], c[i]),
    ensures t[k].runs == k, t[k].increase_factor == t[0].increase_factor, t[k].current_multiplier == pow(t[0].increase_factor as int, k as nat),
        forall|o: CMAESOptions, range: F, x: CMAESOptions| t[k].hands(o, range, x) ==> x.population_size == o.population_size * pow(t[0].increase_factor as int, k as nat) && x.initial_step_size == fdiv(range, flit(2real)),
        k > 0 ==> (c[k - 1] is MaxRunsReached <==> k >= 10),
    decreases k,
{
    reveal(pow);
    if k > 0 { theorem_ipop(t, c, k - 1); assert(t[k - 1 + 1].next(t[k - 1], c[k - 1])); lemma_commute(t[k - 1].current_multiplier as int, t[0].increase_factor as int); }
}
proof fn lemma_commute(a: int, b: int) ensures a * b == b * a { assert(a * b == b * a) by (nonlinear_arith); }
/// Local: the last of the allowed runs is the one that ends the restarts
pub proof fn theorem_local(t: Seq<Local>, c: Seq<RestartControl>, k: int) /*C14*/
    requires t.len() == c.len() + 1, t[0].runs == 0, 0 <= k < t.len(), forall|i: int| 0 <= i < c.len() ==> (#[trigger] t[i + 1]).next(t[i], c[i]),
    ensures t[k].runs == k, t[k].max_runs == t[0].max_runs, t[k].initial_step_size_factor == t[0].initial_step_size_factor,
        k > 0 ==> (c[k - 1] is MaxRunsReached <==> k >= t[0].max_runs),
    decreases k,
{
    if k > 0 { theorem_local(t, c, k - 1); assert(t[k - 1 + 1].next(t[k - 1], c[k - 1])); }
}
/// evaluations used by the runs of one kind among the first k
pub open spec fn used(t: Seq<BIPOP>, e: Seq<int>, lr: bool, k: int) -> int decreases k { if k <= 0 { 0 } else { used(t, e, lr, k - 1) + if t[k - 1].lr_turn() == lr { e[k - 1] } else { 0 } } }
pub open spec fn ipops(t: Seq<BIPOP>, k: int) -> int decreases k { if k <= 0 { 0 } else { ipops(t, k - 1) + if t[k - 1].lr_turn() { 0int } else { 1 } } }
/// the evaluations of the last IPOP run among the first k
pub open spec fn last_used(t: Seq<BIPOP>, e: Seq<int>, k: int) -> int decreases k { if k <= 0 { 0 } else if t[k - 1].lr_turn() { last_used(t, e, k - 1) } else { e[k - 1] } }
/// BIPOP: the bookkeeping is exact, so a run is local exactly when there was an IPOP run and local runs have used strictly fewer evaluations than IPOP runs
pub proof fn theorem_bipop(t: Seq<BIPOP>, e: Seq<int>, c: Seq<RestartControl>, k: int) /*C15*/
    requires t.len() == c.len() + 1, e.len() == c.len(), t[0].ipop_runs == 0, t[0].ipop_function_evals == 0, t[0].lr_function_evals == 0, t[0].ipop_current_multiplier == 1, t[0].last_ipop_multiplier == 1, t[0].last_ipop_function_evals_used == 0,
        0 <= k < t.len(), forall|i: int| 0 <= i < c.len() ==> (#[trigger] t[i + 1]).next(t[i], e[i], c[i]),
        forall|i: int| 0 <= i < e.len() ==> #[trigger] e[i] >= 0, forall|i: int| #![trigger used(t, e, true, i)] 0 <= i <= k ==> used(t, e, true, i) <= usize::MAX, forall|i: int| #![trigger used(t, e, false, i)] 0 <= i <= k ==> used(t, e, false, i) <= usize::MAX,
    ensures t[k].lr_function_evals == used(t, e, true, k), t[k].ipop_function_evals == used(t, e, false, k), t[k].ipop_runs == ipops(t, k), t[k].last_ipop_function_evals_used == last_used(t, e, k),
        t[k].lr_turn() <==> (ipops(t, k) > 0 && used(t, e, true, k) < used(t, e, false, k)),
        t[k].ipop_increase_factor == t[0].ipop_increase_factor, t[k].lr_initial_step_size_factor == t[0].lr_initial_step_size_factor,
        t[k].ipop_current_multiplier == pow(t[0].ipop_increase_factor as int, ipops(t, k) as nat), ipops(t, k) >= 0, used(t, e, true, k) >= 0, used(t, e, false, k) >= 0,
        ipops(t, k) > 0 ==> t[k].last_ipop_multiplier == pow(t[0].ipop_increase_factor as int, (ipops(t, k) - 1) as nat),
        k > 0 ==> (c[k - 1] is MaxRunsReached <==> (!t[k - 1].lr_turn() && ipops(t, k) >= 10)),
    decreases k,
{
    reveal(pow);
    if k > 0 {
        theorem_bipop(t, e, c, k - 1);
        assert(t[k - 1 + 1].next(t[k - 1], e[k - 1], c[k - 1]));
        assert(e[k - 1] >= 0); assert(used(t, e, true, k) <= usize::MAX); assert(used(t, e, false, k) <= usize::MAX);
        lemma_commute(t[k - 1].ipop_current_multiplier as int, t[0].ipop_increase_factor as int);
    }
}
} // verus!
fn main() {}

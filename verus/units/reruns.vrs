//@include prelude/head.rs
verus! {
//@include prelude/std.rs
//@include prelude/float.rs
//@include prelude/iter.rs
//@include prelude/point.rs
//@include prelude/linalg.rs
//@include prelude/ops.rs
//@include prelude/mode.rs
//@include prelude/sort.rs
//@include prelude/state.rs
//@include prelude/eigen.rs
//@include prelude/history.rs
//@include prelude/history_get.rs
//@include prelude/time.rs
//@include prelude/params.rs
//@include prelude/constraints.rs
//@include prelude/options.rs
//@include prelude/weights.rs
//@include prelude/update.rs
//@include prelude/generation.rs
//@include prelude/termination.rs
//@include prelude/plot.rs
//@include prelude/cmaes.rs
//@include prelude/defaults.rs
//@include prelude/unwrap.rs
//@include prelude/restart.rs
//@include prelude/restarter.rs
//@proved twin
// C18, C19 for the restarts: what the contract of Restarter::run (and its other forms) determines. Consequences of the
// contracts discharged in units restart, strategies and bipop and of the theorems of unit twin.
/// the same setup, the mode turned and the target negated, the generators in the same state
pub open spec fn same_restarts(neg: bool, a: Restarter, b: Restarter) -> bool {
    &&& a.strategy == b.strategy && a.dimensions == b.dimensions && b.mode == turned(neg, a.mode) && !a.parallel_update && !b.parallel_update && a.default_options == b.default_options && a.search_range == b.search_range
    &&& rel_opt(neg, a.fun_target, b.fun_target) && a.max_function_evals == b.max_function_evals && a.max_time is None && b.max_time is None && a.default_options.max_time is None
    &&& a.max_function_evals_per_run == b.max_function_evals_per_run && a.max_generations_per_run == b.max_generations_per_run && a.rng.state() == b.rng.state()
}
/// the hypothesis on the criteria along a run (as for a single run)
pub open spec fn clear_run<A: ObjectiveFunction>(p: OneRun<A>, dim: int) -> bool {
    forall|o: CMAES<A>, d: TerminationData, t: Seq<CMAES<A>>, k: int| #[trigger] p.state.ran(o, d, t) && 0 <= k < t.len() ==> clear((#[trigger] t[k]).state, dim)
}
/// the two runs: the same reasons, and unless they ended at an invalid value the same evaluations, mirrored
pub open spec fn twin_one<A: ObjectiveFunction, B: ObjectiveFunction>(neg: bool, p: OneRun<A>, q: OneRun<B>) -> bool {
    &&& flags(p.reasons@) == flags(q.reasons@) && p.invalid() == q.invalid() && p.on_target() == q.on_target()
    &&& p.state.state == q.state.state && same_history(neg, p.state.history, q.state.history)
    &&& !p.invalid() ==> p.evals() == q.evals() && mirrored(neg, log_of(p.state), log_of(q.state))
}
pub proof fn lemma_reason(s: Seq<TerminationReason>, t: Seq<TerminationReason>)
    requires flags(s) == flags(t),
    ensures has_reason(s, InvalidFunctionValue) == has_reason(t, InvalidFunctionValue), has_reason(s, FunTarget) == has_reason(t, FunTarget),
{
    reveal(flags); reveal(listed);
    assert(flags(s).invalid_function_value == flags(t).invalid_function_value && flags(s).fun_target == flags(t).fun_target);
    assert(s.contains(InvalidFunctionValue) == has_reason(s, InvalidFunctionValue)); assert(t.contains(InvalidFunctionValue) == has_reason(t, InvalidFunctionValue));
    assert(s.contains(FunTarget) == has_reason(s, FunTarget)); assert(t.contains(FunTarget) == has_reason(t, FunTarget));
}
/// one run of each
#[verifier::spinoff_prover] pub proof fn lemma_twin_run<A: ObjectiveFunction, B: ObjectiveFunction>(neg: bool, a: Restarter, b: Restarter, p: OneRun<A>, q: OneRun<B>)
    requires same_restarts(neg, a, b), a.configures(p.o), b.configures(q.o), p.before == q.before, p.o.initial_mean@ == q.o.initial_mean@, p.o.seed == q.o.seed, p.rng == q.rng,
        p.made_drawn(a.range_size()), q.made_drawn(b.range_size()), mirrored(neg, p.f.log(), q.f.log()), alike(neg, log_of(p.state), log_of(q.state)), clear_run(p, a.dimensions as int),
    ensures twin_one(neg, p, q),
{
    broadcast use axiom_dvector_ext;
    reveal(OneRun::made_drawn); reveal(RestartStrategy::draws);
    let range = a.range_size();
    let (x, o, r, t) = choose|x: CMAESOptions, a: CMAES<A>, d: TerminationData, t: Seq<CMAES<A>>| p.before.hands(p.o, range, x) && p.before.draws(p.o, range, p.rng, x) && a.wf() && #[trigger] a.built(x, p.f) && #[trigger] p.state.ran(a, d, t) && d.reasons == p.reasons;
    let (y, w, s, u) = choose|x: CMAESOptions, a: CMAES<B>, d: TerminationData, t: Seq<CMAES<B>>| q.before.hands(q.o, range, x) && q.before.draws(q.o, range, q.rng, x) && a.wf() && #[trigger] a.built(x, q.f) && #[trigger] q.state.ran(a, d, t) && d.reasons == q.reasons;
    assert(altered(p.o, x) && altered(q.o, y));
    assert(x.initial_step_size == y.initial_step_size && x.population_size == y.population_size && x.max_function_evals == y.max_function_evals);
    assert(same_options(neg, x, y));
    theorem_twin_built(neg, o, x, p.f, w, y, q.f);
    assert(o.parameters.dim == a.dimensions);
    theorem_twin_runs(neg, p.state, o, r, t, q.state, w, s, u);
    lemma_reason(p.reasons@, q.reasons@);
    if only_reason(Some(r), InvalidFunctionValue) { assert(p.reasons@[0] == InvalidFunctionValue); assert(p.invalid()); }
}
pub open spec fn sourced<A: ObjectiveFunction>(a: Restarter, t: Seq<OneRun<A>>, reuse: bool, made: Seq<A>) -> bool {
    a.chained(t) && a.all_configured(t) && a.supplied(t, reuse, made) && a.all_drawn(t) && forall|i: int| 0 <= i < made.len() ==> (#[trigger] made[i]).log().len() == 0
}
/// the first k runs of both are comparable
pub open spec fn comparable_restarts<A: ObjectiveFunction, B: ObjectiveFunction>(neg: bool, a: Restarter, t: Seq<OneRun<A>>, ma: Seq<A>, b: Restarter, u: Seq<OneRun<B>>, mb: Seq<B>, reuse: bool) -> bool {
    &&& same_restarts(neg, a, b) && sourced(a, t, reuse, ma) && sourced(b, u, reuse, mb)
    &&& forall|i: int| 0 <= i < t.len() && i < u.len() ==> alike(neg, log_of((#[trigger] t[i]).state), log_of(u[i].state)) && clear_run(t[i], a.dimensions as int)
}
/// the strategy goes on alike
pub proof fn lemma_twin_next(x: RestartStrategy, y: RestartStrategy, o: RestartStrategy, e: int, c: RestartControl, d: RestartControl)
    requires x.next(o, e, c), y.next(o, e, d),
    ensures x == y, c == d,
{ }
/// the account of the first k runs of each is alike
pub open spec fn twin_accounts<A: ObjectiveFunction, B: ObjectiveFunction>(neg: bool, a: Restarter, t: Seq<OneRun<A>>, b: Restarter, u: Seq<OneRun<B>>, k: int) -> bool {
    &&& forall|i: int| 0 <= i < k ==> twin_one(neg, #[trigger] t[i], u[i])
    &&& same_opt_ind(neg, best_among(a.mode, t.take(k)), best_among(b.mode, u.take(k)))
    &&& (k > 0 ==> !t[k - 1].invalid()) ==> a.strategy_after(t.take(k)) == b.strategy_after(u.take(k)) && a.rng_after(t.take(k)) == b.rng_after(u.take(k)) && total(t.take(k)) == total(u.take(k)) && (k > 0 ==> t[k - 1].control == u[k - 1].control)
}
#[verifier::spinoff_prover] pub proof fn lemma_twin_accounts<A: ObjectiveFunction, B: ObjectiveFunction>(neg: bool, a: Restarter, t: Seq<OneRun<A>>, ma: Seq<A>, b: Restarter, u: Seq<OneRun<B>>, mb: Seq<B>, reuse: bool, k: int)
    requires comparable_restarts(neg, a, t, ma, b, u, mb, reuse), 0 <= k <= t.len(), k <= u.len(), forall|i: int| 0 <= i < k - 1 ==> !(#[trigger] t[i]).invalid(),
    ensures twin_accounts(neg, a, t, b, u, k),
    decreases k,
{
    reveal(total); reveal(best_among);
    if k > 0 {
        let j = k - 1;
        lemma_twin_accounts(neg, a, t, ma, b, u, mb, reuse, j);
        assert(t.take(k).drop_last() =~= t.take(j) && u.take(k).drop_last() =~= u.take(j));
        let p = t[j]; let q = u[j];
        assert(p.before == a.strategy_after(t.take(j)) && q.before == b.strategy_after(u.take(j)) && p.after.next(p.before, p.evals(), p.control) && q.after.next(q.before, q.evals(), q.control)) by {
            reveal(Restarter::chained); reveal(went_on); assert(went_on(t, j) && went_on(u, j));
        }
        assert(a.configures(p.o) && b.configures(q.o)) by { reveal(Restarter::all_configured); }
        assert(a.drawn_from(a.rng_after(t.take(j)), p) && b.drawn_from(b.rng_after(u.take(j)), q)) by { reveal(Restarter::all_drawn); }
        assert(mirrored(neg, p.f.log(), q.f.log())) by {
            reveal(Restarter::supplied); reveal(was_supplied); assert(was_supplied(t, reuse, ma, j) && was_supplied(u, reuse, mb, j));
            if reuse && j > 0 { assert(twin_one(neg, t[j - 1], u[j - 1])); } else { assert(ma[j].log().len() == 0 && mb[j].log().len() == 0); }
        }
        lemma_twin_run(neg, a, b, p, q);
        match (p.state.history.overall_best_individual, best_among(a.mode, t.take(j))) {
            (Some(x), Some(y)) => { let x2 = q.state.history.overall_best_individual->0; let y2 = best_among(b.mode, u.take(j))->0; lemma_sg(neg, x.value); lemma_sg(neg, y.value); lemma_better(neg, a.mode, x.value, x2.value, y.value, y2.value); }
            _ => { } }
        if !p.invalid() { lemma_twin_next(p.after, q.after, p.before, p.evals(), p.control, q.control); }
    }
}
/// all but the last run of an account went on
pub proof fn lemma_gone_on<A: ObjectiveFunction>(a: Restarter, t0: Instant, t: Seq<OneRun<A>>, r: RestartTerminationReason)
    requires a.stops(t0, t, r),
    ensures forall|i: int| 0 <= i < t.len() - 1 ==> (#[trigger] t[i]).goes_on(), t.len() > 0 && !t.last().goes_on() || (forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).goes_on()),
{
    reveal(Restarter::stops); reveal(Restarter::all_go_on);
    if t.len() > 0 && !t.last().goes_on() { assert forall|i: int| 0 <= i < t.len() - 1 implies (#[trigger] t[i]).goes_on() by { assert(t.drop_last()[i] == t[i]); } }
}
/// restarts that are alike: the same number of runs, each through twin states, for the same reasons and with mirrored results
pub open spec fn twin_restarts<A: ObjectiveFunction, B: ObjectiveFunction>(neg: bool, t: Seq<OneRun<A>>, ra: RestartResults, u: Seq<OneRun<B>>, rb: RestartResults) -> bool {
    &&& t.len() == u.len() && (forall|i: int| 0 <= i < t.len() ==> twin_one(neg, #[trigger] t[i], u[i]))
    &&& ra.runs == rb.runs && ra.reason == rb.reason && same_opt_ind(neg, ra.best, rb.best) && (!(ra.reason is InvalidFunctionValue) ==> ra.function_evals == rb.function_evals)
}
#[verifier::spinoff_prover] pub proof fn theorem_twin_restarts<A: ObjectiveFunction, B: ObjectiveFunction>(neg: bool, a: Restarter, t0: Instant, t: Seq<OneRun<A>>, ma: Seq<A>, ra: RestartResults, b: Restarter, u0: Instant, u: Seq<OneRun<B>>, mb: Seq<B>, rb: RestartResults, reuse: bool)
    requires comparable_restarts(neg, a, t, ma, b, u, mb, reuse), a.account(t0, t, reuse, ma, ra), b.account(u0, u, reuse, mb, rb),
    ensures twin_restarts(neg, t, ra, u, rb),
{
    let n = if t.len() <= u.len() { t.len() as int } else { u.len() as int };
    lemma_gone_on(a, t0, t, ra.reason); lemma_gone_on(b, u0, u, rb.reason);
    lemma_twin_accounts(neg, a, t, ma, b, u, mb, reuse, n);
    assert(t.take(t.len() as int) =~= t && u.take(u.len() as int) =~= u);
    if n > 0 { assert(twin_one(neg, t[n - 1], u[n - 1])); }
    reveal(Restarter::stops); reveal(Restarter::all_allowed);
    if t.len() < u.len() { assert(b.may_run(u0, u.take(n))); if n > 0 { assert(u[n - 1].goes_on()); } assert(false); }
    if u.len() < t.len() { assert(a.may_run(t0, t.take(n))); if n > 0 { assert(t[n - 1].goes_on()); } assert(false); }
}
/// C19: restarts of the same options and seed coincide (whichever of the forms with this contract each is)
pub proof fn theorem_same_seed_same_restarts<A: ObjectiveFunction, B: ObjectiveFunction>(x: RestartOptions, y: RestartOptions, a: Restarter, t0: Instant, t: Seq<OneRun<A>>, ma: Seq<A>, ra: RestartResults, b: Restarter, u0: Instant, u: Seq<OneRun<B>>, mb: Seq<B>, rb: RestartResults, reuse: bool) /*C19*/
    requires a.of_options(x), b.of_options(y), a.seed == b.seed, a.rng.state() == seeded(a.seed), b.rng.state() == seeded(b.seed), y == (RestartOptions { seed: y.seed, enable_printing: y.enable_printing, ..x }),
        x.max_time is None, x.default_options.max_time is None, !x.parallel_update, fresh(t, ma, u, mb), alike_throughout(false, t, u, x.dimensions as int),
        a.account(t0, t, reuse, ma, ra), a.all_drawn(t), b.account(u0, u, reuse, mb, rb), b.all_drawn(u),
    ensures twin_restarts(false, t, ra, u, rb),
{
    assert(rel_opt(false, a.fun_target, b.fun_target));
    theorem_twin_restarts(false, a, t0, t, ma, ra, b, u0, u, mb, rb, reuse);
}
/// C18: so does maximizing with minimizing the negated objective
pub proof fn theorem_maximize_restarts<A: ObjectiveFunction, B: ObjectiveFunction>(x: RestartOptions, y: RestartOptions, a: Restarter, t0: Instant, t: Seq<OneRun<A>>, ma: Seq<A>, ra: RestartResults, b: Restarter, u0: Instant, u: Seq<OneRun<B>>, mb: Seq<B>, rb: RestartResults, reuse: bool) /*C18*/
    requires a.of_options(x), b.of_options(y), a.seed == b.seed, a.rng.state() == seeded(a.seed), b.rng.state() == seeded(b.seed), x.mode == Mode::Maximize,
        y == (RestartOptions { seed: y.seed, enable_printing: y.enable_printing, mode: Mode::Minimize, fun_target: y.fun_target, ..x }), match (x.fun_target, y.fun_target) { (Some(f), Some(g)) => g == fneg(f), (None, None) => true, _ => false },
        x.max_time is None, x.default_options.max_time is None, !x.parallel_update, fresh(t, ma, u, mb), alike_throughout(true, t, u, x.dimensions as int),
        a.account(t0, t, reuse, ma, ra), a.all_drawn(t), b.account(u0, u, reuse, mb, rb), b.all_drawn(u),
    ensures twin_restarts(true, t, ra, u, rb),
{
    if x.fun_target is Some { axiom_neg(x.fun_target->0); }
    assert(rel_opt(true, a.fun_target, b.fun_target));
    theorem_twin_restarts(true, a, t0, t, ma, ra, b, u0, u, mb, rb, reuse);
}
/// the objective functions have not been called before
pub open spec fn fresh<A: ObjectiveFunction, B: ObjectiveFunction>(t: Seq<OneRun<A>>, ma: Seq<A>, u: Seq<OneRun<B>>, mb: Seq<B>) -> bool {
    (forall|i: int| 0 <= i < ma.len() ==> (#[trigger] ma[i]).log().len() == 0) && (forall|i: int| 0 <= i < mb.len() ==> (#[trigger] mb[i]).log().len() == 0)
}
pub open spec fn alike_throughout<A: ObjectiveFunction, B: ObjectiveFunction>(neg: bool, t: Seq<OneRun<A>>, u: Seq<OneRun<B>>, dim: int) -> bool {
    forall|i: int| 0 <= i < t.len() && i < u.len() ==> alike(neg, log_of((#[trigger] t[i]).state), log_of(u[i].state)) && clear_run(t[i], dim)
}
} // verus!
fn main() {}

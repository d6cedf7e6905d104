// ---- the restarter ----
//@item src/restart/options.rs enum InvalidRestartOptionsError derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/restart/options.rs struct RestartOptions
//@isub 1 /RangeInclusive<f64>/RangeF/
//@item src/restart/mod.rs struct Restarter
//@isub 1 /RangeInclusive<f64>/RangeF/
//@item src/restart/mod.rs enum RestartTerminationReason derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/restart/mod.rs struct RestartResults
impl Clone for CMAESOptions { #[verifier::external_body] fn clone(&self) -> (r: CMAESOptions) ensures r == *self { unimplemented!() } }
/// creates objective functions; `made()`: those created so far
/// `makes(x)`: may create `x`
pub trait Maker<F2>: Sized { spec fn made(&self) -> Seq<F2>; spec fn makes(&self, x: F2) -> bool; fn call_(&mut self) -> (r: F2) ensures final(self).made() == old(self).made().push(r), old(self).makes(r), forall|x: F2| final(self).makes(x) == old(self).makes(x); }
/// `|| function.take().unwrap()`
pub struct Once_<F2> { pub f: Option<F2>, pub what: Ghost<F2>, pub log: Ghost<Seq<F2>> }
pub fn once_<F2>(f: Option<F2>) -> (r: Once_<F2>) requires f is Some, ensures r.made().len() == 0, forall|x: F2| r.makes(x) == (x == f->0) { let ghost w = f->0; Once_ { f: f, what: Ghost(w), log: Ghost(Seq::empty()) } }
impl<F2> Maker<F2> for Once_<F2> {
    open spec fn made(&self) -> Seq<F2> { self.log@ }
    open spec fn makes(&self, x: F2) -> bool { x == self.what@ }
    /// panics when called again
    #[verifier::external_body] fn call_(&mut self) -> (r: F2) { unimplemented!() }
}
/// `Option::unwrap_or_else(&mut maker)`
pub trait OrMade_<F2>: Sized { spec fn is_there(self) -> bool; spec fn there(self) -> F2;
    fn or_made_<G: Maker<F2>>(self, g: &mut G) -> (r: F2) ensures self.is_there() ==> r == self.there() && final(g).made() == old(g).made(), !self.is_there() ==> final(g).made() == old(g).made().push(r) && old(g).makes(r), forall|x: F2| final(g).makes(x) == old(g).makes(x); }
impl<F2> OrMade_<F2> for Option<F2> { open spec fn is_there(self) -> bool { self is Some } open spec fn there(self) -> F2 { self->0 }
    fn or_made_<G: Maker<F2>>(self, g: &mut G) -> (r: F2) { match self { Some(f) => f, None => g.call_() } } }
/// one run in the account
pub struct OneRun<F2: ObjectiveFunction> { pub before: RestartStrategy, pub after: RestartStrategy, pub o: CMAESOptions, pub f: F2, pub state: CMAES<F2>, pub reasons: Vec<TerminationReason>, pub control: RestartControl, pub rng: int }
pub open spec fn has_reason(s: Seq<TerminationReason>, x: TerminationReason) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x }
impl<F2: ObjectiveFunction> OneRun<F2> {
    pub open spec fn evals(self) -> int { self.state.sampler.function_evals as int }
    /// an object built from options the strategy hands out was run to its end
    #[verifier::opaque] pub open spec fn made(self, range: F) -> bool {
        exists|x: CMAESOptions, a: CMAES<F2>, d: TerminationData, t: Seq<CMAES<F2>>| self.before.hands(self.o, range, x) && a.wf() && #[trigger] a.built(x, self.f) && #[trigger] self.state.ran(a, d, t) && d.reasons == self.reasons
    }
    /// ... from exactly the options drawn from the generator in state `rng`
    #[verifier::opaque] pub open spec fn made_drawn(self, range: F) -> bool {
        exists|x: CMAESOptions, a: CMAES<F2>, d: TerminationData, t: Seq<CMAES<F2>>| self.before.hands(self.o, range, x) && self.before.draws(self.o, range, self.rng, x) && a.wf() && #[trigger] a.built(x, self.f) && #[trigger] self.state.ran(a, d, t) && d.reasons == self.reasons
    }
    pub open spec fn invalid(self) -> bool { has_reason(self.reasons@, TerminationReason::InvalidFunctionValue) }
    pub open spec fn on_target(self) -> bool { has_reason(self.reasons@, TerminationReason::FunTarget) }
    /// nothing ends the restarts after this run
    pub open spec fn goes_on(self) -> bool { !self.invalid() && !self.on_target() && self.control is Continue }
}
#[verifier::opaque] pub open spec fn total<F2: ObjectiveFunction>(t: Seq<OneRun<F2>>) -> int decreases t.len() { if t.len() == 0 { 0 } else { total(t.drop_last()) + t.last().evals() } }
#[verifier::opaque] pub open spec fn best_among<F2: ObjectiveFunction>(m: Mode, t: Seq<OneRun<F2>>) -> Option<Individual> decreases t.len() {
    if t.len() == 0 { None } else { match t.last().state.history.overall_best_individual { Some(b) => Some(best_of(m, best_among(m, t.drop_last()), b)), None => best_among(m, t.drop_last()) } }
}
#[verifier::opaque] pub open spec fn went_on<F2: ObjectiveFunction>(t: Seq<OneRun<F2>>, i: int) -> bool { (i > 0 ==> t[i].before == t[i - 1].after) && t[i].after.next(t[i].before, t[i].evals(), t[i].control) }
#[verifier::opaque] pub open spec fn was_supplied<F2: ObjectiveFunction>(t: Seq<OneRun<F2>>, reuse: bool, made: Seq<F2>, i: int) -> bool { t[i].f == (if reuse && i > 0 { t[i - 1].state.sampler.objective_function } else { made[i] }) }
/// the first `n` values drawn in a range, and the state then
#[verifier::opaque] pub open spec fn values_drawn(rng: int, range: RangeF, n: int) -> (Seq<F>, int) decreases n {
    if n <= 0 { (Seq::empty(), rng) } else { let (m, s) = values_drawn(rng, range, n - 1); (m.push(part_at(s, range.s, range.e)), part_left(s, range.s, range.e)) }
}
impl Restarter {
    /// the state of the generator after these runs
    pub open spec fn rng_after<F2: ObjectiveFunction>(self, t: Seq<OneRun<F2>>) -> int { if t.len() == 0 { self.rng.state() } else { t.last().before.rng_left(t.last().rng) } }
    /// the initial mean and the seed of a run come from the generator in state `rng`, and then the rest
    pub open spec fn drawn_from<F2: ObjectiveFunction>(self, rng: int, q: OneRun<F2>) -> bool {
        let (m, s) = values_drawn(rng, self.search_range, self.dimensions as int);
        q.o.initial_mean@ == m && q.o.seed == Some(word_at(s)) && q.rng == word_left(s) && q.made_drawn(self.range_size())
    }
    /// C19: whatever is drawn for the runs is a function of the state of the generator
    #[verifier::opaque] pub open spec fn all_drawn<F2: ObjectiveFunction>(self, t: Seq<OneRun<F2>>) -> bool { forall|i: int| 0 <= i < t.len() ==> self.drawn_from(self.rng_after(t.take(i)), #[trigger] t[i]) }
    pub open spec fn range_size(self) -> F { fabs(fsub(self.search_range.e, self.search_range.s)) }
    pub open spec fn same_setup(self, o: Restarter) -> bool { self == (Restarter { strategy: self.strategy, rng: self.rng, overall_best: self.overall_best, ..o }) }
    pub open spec fn in_search_range(self, m: DVector<F>) -> bool { m@.len() == self.dimensions && forall|i: int| 0 <= i < m@.len() ==> self.search_range.has(#[trigger] m@[i]) }
    /// the options handed to the strategy for a run
    pub open spec fn configures(self, x: CMAESOptions) -> bool {
        &&& x == (CMAESOptions { initial_mean: x.initial_mean, seed: x.seed, mode: self.mode, parallel_update: self.parallel_update, max_function_evals: self.max_function_evals_per_run, max_generations: self.max_generations_per_run, fun_target: self.fun_target, ..self.default_options })
        &&& self.in_search_range(x.initial_mean) && x.seed is Some
    }
    /// the strategy goes from run to run
    #[verifier::opaque] pub open spec fn chained<F2: ObjectiveFunction>(self, t: Seq<OneRun<F2>>) -> bool {
        (t.len() > 0 ==> t[0].before == self.strategy) && (forall|i: int| 0 <= i < t.len() ==> #[trigger] went_on(t, i))
    }
    pub open spec fn strategy_after<F2: ObjectiveFunction>(self, t: Seq<OneRun<F2>>) -> RestartStrategy { if t.len() == 0 { self.strategy } else { t.last().after } }
    #[verifier::opaque] pub open spec fn all_configured<F2: ObjectiveFunction>(self, t: Seq<OneRun<F2>>) -> bool { forall|i: int| 0 <= i < t.len() ==> self.configures((#[trigger] t[i]).o) }
    #[verifier::opaque] pub open spec fn all_made<F2: ObjectiveFunction>(self, t: Seq<OneRun<F2>>) -> bool { forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).made(self.range_size()) }
    /// where the objective functions come from: one created per run, or one for all
    #[verifier::opaque] pub open spec fn supplied<F2: ObjectiveFunction>(self, t: Seq<OneRun<F2>>, reuse: bool, made: Seq<F2>) -> bool {
        &&& made.len() == (if reuse && t.len() > 0 { 1 } else { t.len() as int })
        &&& forall|i: int| 0 <= i < t.len() ==> #[trigger] was_supplied(t, reuse, made, i)
    }
    /// before a run: it is allowed, and no limit has been reached
    pub open spec fn may_run<F2: ObjectiveFunction>(self, t0: Instant, t: Seq<OneRun<F2>>) -> bool {
        &&& !self.strategy_after(t).no_runs()
        &&& self.evals_left(t) && self.time_left(t0)
    }
    pub open spec fn evals_left<F2: ObjectiveFunction>(self, t: Seq<OneRun<F2>>) -> bool { self.max_function_evals matches Some(m) ==> total(t) < m }
    pub open spec fn time_left(self, t0: Instant) -> bool { self.max_time matches Some(m) ==> exists|d: Duration| #[trigger] elapsed_read(t0, d) && d.nanos() < m.nanos() }
    pub open spec fn time_up(self, t0: Instant) -> bool { self.max_time matches Some(m) && exists|d: Duration| #[trigger] elapsed_read(t0, d) && d.nanos() >= m.nanos() }
    /// every run was allowed
    #[verifier::opaque] pub open spec fn all_allowed<F2: ObjectiveFunction>(self, t0: Instant, t: Seq<OneRun<F2>>) -> bool { forall|i: int| 0 <= i < t.len() ==> self.may_run(t0, #[trigger] t.take(i)) }
    #[verifier::opaque] pub open spec fn all_go_on<F2: ObjectiveFunction>(self, t: Seq<OneRun<F2>>) -> bool { forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).goes_on() }
    /// the reason is the first that applies
    #[verifier::opaque] pub open spec fn stops<F2: ObjectiveFunction>(self, t0: Instant, t: Seq<OneRun<F2>>, r: RestartTerminationReason) -> bool {
        if t.len() > 0 && !t.last().goes_on() {
            self.all_go_on(t.drop_last()) && r == (if t.last().invalid() { RestartTerminationReason::InvalidFunctionValue } else if t.last().on_target() { RestartTerminationReason::FunTarget } else { RestartTerminationReason::MaxRuns })
        } else {
            self.all_go_on(t) && (match r {
                RestartTerminationReason::MaxRuns => self.strategy_after(t).no_runs(),
                RestartTerminationReason::MaxFunctionEvals => !self.strategy_after(t).no_runs() && !self.evals_left(t),
                RestartTerminationReason::MaxTime => !self.strategy_after(t).no_runs() && self.evals_left(t) && self.time_up(t0),
                _ => false })
        }
    }
    /// the results account for the runs
    pub open spec fn sums<F2: ObjectiveFunction>(self, t: Seq<OneRun<F2>>, r: RestartResults) -> bool { r.runs == t.len() && r.function_evals == total(t) && r.best == best_among(self.mode, t) }
    pub open spec fn account<F2: ObjectiveFunction>(self, t0: Instant, t: Seq<OneRun<F2>>, reuse: bool, made: Seq<F2>, r: RestartResults) -> bool {
        &&& self.chained(t) && self.all_made(t) && self.all_configured(t) && self.supplied(t, reuse, made)
        &&& self.all_allowed(t0, t) && self.stops(t0, t, r.reason) && self.sums(t, r)
    }
}
/// the first thing wrong with the options
pub open spec fn restart_error(o: RestartOptions) -> Option<InvalidRestartOptionsError> {
    if o.dimensions == 0 { Some(InvalidRestartOptionsError::Dimensions) } else if feq(fsub(o.search_range.e, o.search_range.s), flit(0real)) { Some(InvalidRestartOptionsError::SearchRange) } else { None }
}
impl Restarter {
    pub open spec fn of_options(self, o: RestartOptions) -> bool {
        &&& self.strategy == o.strategy && self.dimensions == o.dimensions && self.mode == o.mode && self.parallel_update == o.parallel_update && self.default_options == o.default_options && self.search_range == o.search_range
        &&& self.fun_target == o.fun_target && self.max_function_evals == o.max_function_evals && self.max_time == o.max_time && self.max_function_evals_per_run == o.max_function_evals_per_run && self.max_generations_per_run == o.max_generations_per_run
        &&& self.overall_best is None && (o.seed matches Some(s) ==> self.seed == s)
    }
}
/// `run` runs the object to its end
#[verifier::prophetic] pub open spec fn run_runs<F2: ObjectiveFunction, R: Fn(&mut CMAES<F2>) -> TerminationData>(run: R) -> bool {
    &&& forall|s: &mut CMAES<F2>| s.wf() ==> #[trigger] call_requires(run, (s,))
    &&& forall|s: &mut CMAES<F2>, d: TerminationData| #[trigger] call_ensures(run, (s,), d) ==> exists|t: Seq<CMAES<F2>>| #[trigger] final(s).ran(*s, d, t)
}

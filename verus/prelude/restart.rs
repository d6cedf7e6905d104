// ---- restarts: random draws, runs, strategies ----
/// rand_chacha's generator: the values drawn are unknown, within the documented range of the distribution, and
/// functions of the seed and of what was drawn before (`state`)
#[verifier::external_body] pub struct ChaChaRng { x: u64 }
pub uninterp spec fn seeded(seed: u64) -> int;
pub uninterp spec fn word_at(state: int) -> u64;
pub uninterp spec fn word_left(state: int) -> int;
pub uninterp spec fn unit_at(state: int) -> F;
pub uninterp spec fn unit_left(state: int) -> int;
pub uninterp spec fn part_at(state: int, s: F, e: F) -> F;
pub uninterp spec fn part_left(state: int, s: F, e: F) -> int;
pub trait Draw: Sized { spec fn drawable(self) -> bool; spec fn at(state: int) -> Self; spec fn left(state: int) -> int; }
impl Draw for u64 { open spec fn drawable(self) -> bool { true } open spec fn at(state: int) -> u64 { word_at(state) } open spec fn left(state: int) -> int { word_left(state) } }
/// the standard distribution of f64: [0, 1)
impl Draw for F { open spec fn drawable(self) -> bool { !nan(self) && 0real <= key(self) < 1real } open spec fn at(state: int) -> F { unit_at(state) } open spec fn left(state: int) -> int { unit_left(state) } }
impl ChaChaRng {
    pub uninterp spec fn state(&self) -> int;
    #[verifier::external_body] pub fn seed_from_u64(seed: u64) -> (r: ChaChaRng) ensures r.state() == seeded(seed) { unimplemented!() }
    #[verifier::external_body] pub fn gen<T: Draw>(&mut self) -> (r: T) ensures r.drawable(), r == T::at(old(self).state()), final(self).state() == T::left(old(self).state()) { unimplemented!() }
    #[verifier::external_body] pub fn gen_range(&mut self, range: RangeF) -> (r: F) ensures range.has(r), r == part_at(old(self).state(), range.s, range.e), final(self).state() == part_left(old(self).state(), range.s, range.e) { unimplemented!() }
}
/// `RangeInclusive<f64>`
#[derive(Clone, Copy)] pub struct RangeF { pub s: F, pub e: F }
impl RangeF {
    pub open spec fn has(self, x: F) -> bool { fle(self.s, x) && fle(x, self.e) }
    pub fn of(s: F, e: F) -> (r: RangeF) ensures r.s == s, r.e == e { RangeF { s: s, e: e } }
    pub fn start(&self) -> (r: &F) ensures *r == self.s { &self.s }
    pub fn end(&self) -> (r: &F) ensures *r == self.e { &self.e }
    pub fn into_inner(self) -> (r: (F, F)) ensures r == (self.s, self.e) { (self.s, self.e) }
    pub fn is_empty(&self) -> (r: bool) ensures r == !fle(self.s, self.e) { !(self.s <= self.e) }
}
/// one run: an object built from options that `hands` admits and from this objective function was run, leaving `c` and these reasons
#[verifier::prophetic] pub open spec fn one_run<F2: ObjectiveFunction, R: FnOnce(&mut CMAES<F2>) -> TerminationData>(run: R, hands: spec_fn(CMAESOptions) -> bool, f: F2, c: CMAES<F2>, reasons: Vec<TerminationReason>) -> bool {
    exists|x: CMAESOptions, s: &mut CMAES<F2>, d: TerminationData| hands(x) && (*s).wf() && #[trigger] (*s).built(x, f) && *final(s) == c && #[trigger] call_ensures(run, (s,), d) && d.reasons == reasons
}
pub open spec fn runs_any<F2: ObjectiveFunction, R: FnOnce(&mut CMAES<F2>) -> TerminationData>(run: R) -> bool {
    forall|s: &mut CMAES<F2>| s.wf() ==> #[trigger] call_requires(run, (s,))
}
//@item src/restart/options.rs enum InvalidRestartStrategyOptionsError derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/restart/strategy.rs enum RestartControl derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/restart/ipop.rs struct IPOP
//@item src/restart/ipop.rs const MAX_RUNS
//@item src/restart/local.rs struct Local
//@item src/restart/bipop.rs struct BIPOP
//@item src/restart/bipop.rs const MAX_IPOP_RUNS
//@item src/restart/strategy.rs enum RestartStrategy
/// `x` is `o` with another step size, population size and evaluation limit
pub open spec fn altered(o: CMAESOptions, x: CMAESOptions) -> bool { x == (CMAESOptions { initial_step_size: x.initial_step_size, population_size: x.population_size, max_function_evals: x.max_function_evals, ..o }) }
impl IPOP {
    /// the options of the run made in this state, from the defaults `o`
    pub open spec fn hands(self, o: CMAESOptions, range: F, x: CMAESOptions) -> bool {
        altered(o, x) && x.max_function_evals == o.max_function_evals && x.initial_step_size == fdiv(range, flit(2real)) && x.population_size == o.population_size * self.current_multiplier
    }
    /// after a run
    pub open spec fn next(self, o: IPOP, control: RestartControl) -> bool {
        &&& self.runs == o.runs + 1 && self.increase_factor == o.increase_factor && self.current_multiplier == o.current_multiplier * o.increase_factor
        &&& control is MaxRunsReached <==> self.runs >= MAX_RUNS
    }
    pub open spec fn in_range(self, o: CMAESOptions) -> bool { self.runs < usize::MAX && o.population_size * self.current_multiplier <= usize::MAX && self.current_multiplier * self.increase_factor <= usize::MAX }
}
impl Local {
    pub open spec fn hands(self, o: CMAESOptions, range: F, x: CMAESOptions) -> bool {
        altered(o, x) && x.max_function_evals == o.max_function_evals && x.population_size == o.population_size && x.initial_step_size == fmul(fmul(range, self.initial_step_size_factor), flit(1real / 100real))
    }
    pub open spec fn next(self, o: Local, control: RestartControl) -> bool {
        &&& self.runs == o.runs + 1 && self.initial_step_size_factor == o.initial_step_size_factor && self.max_runs == o.max_runs
        &&& control is MaxRunsReached <==> self.runs >= self.max_runs
    }
    pub open spec fn in_range(self, o: CMAESOptions) -> bool { self.runs < usize::MAX }
}
pub open spec fn least(a: Option<usize>, b: int) -> int { match a { Some(x) => if x < b { x as int } else { b }, None => b } }
impl BIPOP {
    pub open spec fn lr_turn(self) -> bool { self.ipop_runs != 0 && self.lr_function_evals < self.ipop_function_evals }
    pub open spec fn lr_step_size(self, range: F, r: F) -> bool {
        !nan(range) && key(range) >= 0real && !nan(self.lr_initial_step_size_factor) && key(self.lr_initial_step_size_factor) >= 0real ==>
            !nan(r) && key(range) * key(self.lr_initial_step_size_factor) / 100real <= key(r) <= key(range) * key(self.lr_initial_step_size_factor)
    }
    /// between the default and the larger of the default and half the last IPOP run's
    pub open spec fn lr_population(self, n: int, r: int) -> bool { n <= r && (r <= n || 2 * r <= n * self.last_ipop_multiplier) }
    /// what is drawn for a local run (C19; the bounds above are C15's)
    pub open spec fn lr_step_drawn(self, range: F, rng: int) -> F { fmul(fmul(range, self.lr_initial_step_size_factor), fpowf(flit(10real), fmul(fneg(flit(2real)), unit_at(rng)))) }
    pub open spec fn lr_population_drawn(self, n: int, rng: int) -> int { f_to_int(ffloor(fmul(fint(n), fmax(fpowf(fdiv(fint(self.last_ipop_multiplier as int), flit(2real)), fpowi(unit_at(rng), 2)), flit(1real))))) }
    pub open spec fn draws(self, o: CMAESOptions, range: F, rng: int, x: CMAESOptions) -> bool {
        self.lr_turn() ==> x.initial_step_size == self.lr_step_drawn(range, rng) && x.population_size == self.lr_population_drawn(o.population_size as int, unit_left(rng))
    }
    pub open spec fn rng_left(self, rng: int) -> int { if self.lr_turn() { unit_left(unit_left(rng)) } else { rng } }
    pub open spec fn hands_lr(self, o: CMAESOptions, range: F, x: CMAESOptions) -> bool {
        &&& altered(o, x) && x.max_function_evals == Some(least(o.max_function_evals, self.last_ipop_function_evals_used as int / 2) as usize)
        &&& self.lr_step_size(range, x.initial_step_size) && self.lr_population(o.population_size as int, x.population_size as int)
    }
    pub open spec fn hands_ipop(self, o: CMAESOptions, range: F, x: CMAESOptions) -> bool {
        altered(o, x) && x.max_function_evals == o.max_function_evals && x.initial_step_size == fdiv(range, flit(5real)) && x.population_size == o.population_size * self.ipop_current_multiplier
    }
    pub open spec fn hands(self, o: CMAESOptions, range: F, x: CMAESOptions) -> bool { if self.lr_turn() { self.hands_lr(o, range, x) } else { self.hands_ipop(o, range, x) } }
    pub open spec fn next_lr(self, o: BIPOP, evals: int, control: RestartControl) -> bool {
        &&& self == (BIPOP { lr_function_evals: self.lr_function_evals, ..o }) && self.lr_function_evals == (o.lr_function_evals + evals) as usize
        &&& control is Continue
    }
    pub open spec fn next_ipop(self, o: BIPOP, evals: int, control: RestartControl) -> bool {
        &&& self.ipop_runs == o.ipop_runs + 1 && self.ipop_function_evals == (o.ipop_function_evals + evals) as usize && self.last_ipop_function_evals_used == evals
        &&& self.last_ipop_multiplier == o.ipop_current_multiplier && self.ipop_current_multiplier == o.ipop_current_multiplier * o.ipop_increase_factor
        &&& self.ipop_increase_factor == o.ipop_increase_factor && self.lr_initial_step_size_factor == o.lr_initial_step_size_factor && self.lr_function_evals == o.lr_function_evals
        &&& control is MaxRunsReached <==> self.ipop_runs >= MAX_IPOP_RUNS
    }
    pub open spec fn next(self, o: BIPOP, evals: int, control: RestartControl) -> bool { if o.lr_turn() { self.next_lr(o, evals, control) } else { self.next_ipop(o, evals, control) } }
    pub open spec fn in_range(self, o: CMAESOptions) -> bool {
        &&& self.ipop_runs < usize::MAX && o.population_size * self.ipop_current_multiplier <= usize::MAX && self.ipop_current_multiplier * self.ipop_increase_factor <= usize::MAX
        &&& o.population_size * self.last_ipop_multiplier <= usize::MAX
    }
}
impl RestartStrategy {
    pub open spec fn no_runs(self) -> bool { self matches RestartStrategy::Local(s) && s.max_runs == 0 }
    pub open spec fn hands(self, o: CMAESOptions, range: F, x: CMAESOptions) -> bool {
        match self { RestartStrategy::Local(s) => s.hands(o, range, x), RestartStrategy::IPOP(s) => s.hands(o, range, x), RestartStrategy::BIPOP(s) => s.hands(o, range, x) }
    }
    pub open spec fn next(self, o: RestartStrategy, evals: int, control: RestartControl) -> bool {
        match (self, o) {
            (RestartStrategy::Local(s), RestartStrategy::Local(t)) => s.next(t, control),
            (RestartStrategy::IPOP(s), RestartStrategy::IPOP(t)) => s.next(t, control),
            (RestartStrategy::BIPOP(s), RestartStrategy::BIPOP(t)) => s.next(t, evals, control),
            _ => false }
    }
    /// the options handed out are those drawn from the generator in state `rng`
    #[verifier::opaque] pub open spec fn draws(self, o: CMAESOptions, range: F, rng: int, x: CMAESOptions) -> bool { self matches RestartStrategy::BIPOP(s) ==> s.draws(o, range, rng, x) }
    #[verifier::opaque] pub open spec fn rng_left(self, rng: int) -> int { match self { RestartStrategy::BIPOP(s) => s.rng_left(rng), _ => rng } }
    /// the sizes of the next run and the counts are within the machine's range
    pub open spec fn in_range(self, o: CMAESOptions, range: F) -> bool {
        &&& match self { RestartStrategy::Local(s) => s.in_range(o), RestartStrategy::IPOP(s) => s.in_range(o), RestartStrategy::BIPOP(s) => s.in_range(o) }
        &&& forall|x: CMAESOptions| self.hands(o, range, x) ==> #[trigger] x.sizes_in_range()
    }
}

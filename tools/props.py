"""What decides each property: Verus units (and the functions of each unit that carry the property; an
untagged failed obligation of another function does not concern it), levels, notes and assumptions."""
TRUSTED = [
    'Verus and Z3',
    'tools/vx.py: extraction from /repo/src (drops comments, attributes, cfg(test) items; rewrites f64 to the float model F; the unit source_rewritings)',
    'the float model: non-NaN f64 values are ordered as by a key into the reals; arithmetic is uninterpreted (any rounding); its axioms are discharged by SMT (float_axioms)',
]
H, S, T, M, ST, P, R, PL, C, O, W, SG, BI, RE, TW, RR = 'history', 'sampling', 'termination', 'matrix', 'state', 'params', 'ranges', 'plot', 'cmaes', 'options', 'wrappers', 'strategies', 'bipop', 'restart', 'twin', 'reruns'
SAMPLE = {'sample_internal', 'sample_round', 'sample', 'sample_parallel', 'new'}
COUNTS = 'machine counts stay in range: fewer than 2^30 generations, evaluation counts plus one generation (or one refresh or plot gap) below 2^64 (assumed in the loop of run)'
SEQ = 'the parallel evaluation is modelled as one call per point in some order (rayon is trusted to call the closure once per element)'
ARITH = 'floating-point results are uninterpreted functions of their operands, so the formulas are proved as written, not their rounding'
LA = 'nalgebra operations are uninterpreted functions of their operands with the length and entry facts listed in the prelude; dimension mismatches are excluded by preconditions'
DRAWS = 'the random generator of the restarts may draw any value within the range of its distribution (finite search ranges)'
UNWRAP = 'unwrap and expect: partial correctness (a panic ends the run)'
RCOUNTS = 'the population, multiplier and evaluation counts of the restarts stay in the machine range (assumed in the restart loop)'
MAKER = 'the objective factory is modelled as a log of the functions created'
PRINT = 'printing has no effect on the state'
MODE = {'is_better', 'choose_best', 'sort_cmp', 'partial_cmp'}
TWIN = [SEQ, COUNTS, ARITH, 'the objective answers as a function of the points asked for so far', 'no time limit; parallel_update off', 'the median (statrs) is the middle value in order or half the sum of the two middle ones; the sign of zero is disregarded',
        'the reasons are compared where no axis length is NaN and NoEffectCoord does not depend on reading its spread as a standard deviation or a variance (known finding of C09)', 'reasons are compared as sets']
RTWIN = [RCOUNTS, UNWRAP, MAKER, PRINT, 'rand_chacha: what is drawn is a function of the seed, of what was drawn before and of the range', 'restarts: no time limit, objective functions that were not called before']
# a failure in these is a failure to re-derive a theorem from the contracts, not of an obligation of the code
THEORY = {TW, RR}
MON = ' Alongside, a bounded run-time monitor evaluates the same contracts on generated runs of the real code (never counted as proved; it supplies failing inputs).'
def proof(units, note, **kw):
    return dict(units=units, level='proof', note=note + MON, **kw)
PROPS = {
    'C01': proof({H: '*', C: '*'}, 'Contracts of History::update and of a whole step, and theorem_best by induction over the steps of a run: the overall best is an evaluated point and no evaluated value is strictly better.', assumptions=[COUNTS]),
    'C02': proof({H: '*', C: '*'}, 'Contract of History::update (with get_median_value), lemma_run_history for any number of generations, and the step contract that the generation handed to it is the one just evaluated.', assumptions=[COUNTS]),
    'C03': proof({S: '*', C: '*', O: {'population_size'}}, 'Contracts of the sampler (rounds, evaluation, sorting) and of a step; theorem_counts: the evaluation count equals the number of objective calls after any run.', assumptions=[COUNTS, SEQ, 'fewer than 2^64 resampling rounds in one generation']),
    'C04': proof({S: {'meets_constraints', 'to_point', 'lemma_gather', 'lemma_select_is_filter', 'lemma_filter_len'} | SAMPLE, C: '*', O: {'bounds', 'constraints', 'max_resamples'}}, 'Contracts of Bounds, of a sampling round and of the loop over rounds (a recursive specification of what is accepted in each round).', assumptions=['constraints are a deterministic predicate of the point', 'fewer than 2^64 resampling rounds in one generation']),
    'C05': proof({T: {'check_termination_criteria'}, S: {'evaluate_points', 'evaluate_parallel', 'new_parallel'} | SAMPLE, C: '*'}, 'Contracts of the evaluation (Err exactly when some value is NaN) and of a step (Err: state, histories, plot unchanged and exactly InvalidFunctionValue; otherwise that reason is never listed).', assumptions=[SEQ, COUNTS]),
    'C06': proof({T: '*', C: '*'}, 'Contract of check_termination_criteria per reason, of the step that calls it on the updated state, and theorem_limits: a step that does not stop leaves every limit unreached.', assumptions=[COUNTS, 'the clock is an arbitrary reading']),
    'C07': proof({T: '*', C: '*'}, 'Contract of check_termination_criteria (range of the window, range of the generation), with the step contract that it judges the updated state.', assumptions=[ARITH, COUNTS]),
    'C08': proof({T: '*', C: '*'}, 'Contract of check_termination_criteria for stagnation.', assumptions=['statrs computes the median (stat_median)', COUNTS]),
    'C09': proof({T: '*', C: '*'}, 'Contract of check_termination_criteria for the shape criteria. NoEffectCoord is specified with the standard deviation or (known finding) the variance.', assumptions=[ARITH, LA, COUNTS]),
    'C10': proof({P: '*', O: '*', C: '*', T: {'get_default_tol_stagnation_option'}}, 'Contracts of every CMAESOptions setter and default, of CMAES::new (which error, in which order) and of the parameters and their accessors.', assumptions=[ARITH]),
    'C11': proof({P: '*', R: '*'}, 'Unit params: the weights and parameters are the documented formulas (uninterpreted floats, so up to rounding of equal expressions). Unit ranges: over exact reals those formulas satisfy the stated ranges, sums and orderings for every dimension and population size. What rounding does to the ranges, and the negative mass for lambda 2 and 3 (a division by cmu = 0), is covered by the monitor only.', assumptions=['unit ranges: arithmetic is exact (reals), ln is increasing with ln 1 = 0, sqrt and powi as on the reals']),
    'C12': proof({M: {'new', 'set_cov'}, ST: '*', C: '*'}, 'Contracts of State::new, State::update and CovarianceMatrix::set_cov: the new state is given by the CMA-ES equations from the old one; theorem_counts for the generation count.', assumptions=[ARITH, LA, COUNTS, 'with parallel_update the rank-mu sum is associated in some way']),
    'C13': proof({M: '*', ST: {'update'}, C: '*'}, 'Contract of set_cov: the basis in use comes from one decomposition with no eigenvalue <= 0, otherwise it is kept and the step ends with exactly PosDefCov.', assumptions=[LA, 'nalgebra computes the eigendecomposition; a NaN eigenvalue is not <= 0']),
    'C14': proof({SG: '*'}, 'Contracts of IPOP, Local, their options and RestartStrategy (what each run is handed, how the state moves on, when the restarts end), with theorem_ipop and theorem_local by induction over the runs.', assumptions=[DRAWS, UNWRAP, RCOUNTS]),
    'C15': proof({SG: '*', BI: '*'}, 'Contracts of BIPOP (which kind of run, what it is handed, the bookkeeping) and theorem_bipop by induction over the runs. The bounds of the local population and step size are discharged over exact reals (unit bipop).', assumptions=[DRAWS, UNWRAP, RCOUNTS, 'unit bipop: exact real arithmetic, powf(x, y) for x >= 0 and y >= 0 between the bounds given in the prelude']),
    'C16': proof({RE: '*', SG: {'has_zero_max_runs', 'next_run'}}, 'Contract of the restart loop: a sequence of runs exists that it allowed, made and chained, whose evaluations it sums, whose best it reports, and whose last run or state gives the reported reason. run, run_with_reuse and the parallel forms are checked against it.', assumptions=[DRAWS, UNWRAP, RCOUNTS, MAKER, PRINT, COUNTS]),
    'C17': proof({RE: '*', SG: {'next_run'}, O: {'initial_mean', 'mode', 'parallel_update', 'seed', 'population_size', 'initial_step_size', 'max_function_evals'}}, 'Contracts of RestartOptions, Restarter::new, generate_initial_mean and of the restart loop: what each run is configured with and where its objective function comes from.', assumptions=[DRAWS, UNWRAP, RCOUNTS, MAKER, PRINT, COUNTS]),
    'C18': proof({TW: '*', RR: '*', S: MODE, H: MODE, T: MODE, ST: None, M: None, P: None, C: None, RE: None, SG: None, BI: None}, 'theorem_maximize_is_minimize_negated (unit twin): any run and any run of the negated objective in the other mode, with the same options and seed, go through equal points and states in the same number of steps, end with the same reasons and report the negated values of the same individuals; theorem_maximize_restarts (unit reruns) carries this through any number of restarts of any strategy, with equal accounts and the negated best. They are derived from the contracts of Mode, a step, a run, new and the restart loop alone; the units that discharge those contracts are verified in the same check (a failure there that does not concern C18 leaves the theorem without its premise, and the monitor decides).', assumptions=TWIN + RTWIN),
    'C19': proof({TW: '*', RR: '*', S: SAMPLE, C: '*', H: None, T: None, ST: None, M: None, P: None, RE: {'seed'}, SG: None, BI: None}, 'theorem_same_seed_same_run (unit twin): any two runs (run or run_parallel, which have the same contract) of objects built from the same options that report the same seed go through equal points and states in the same number of steps, with equal results and reasons; theorem_same_seed_same_restarts (unit reruns) carries this through the restarts: whatever is drawn for them is a function of the seed of the Restarter, so two of them with equal options and seed make equal runs and give equal results (their evaluation counts are compared unless they end at an invalid value). They are derived from the contracts of a step, a run, new and the restart loop alone; the units that discharge those contracts are verified in the same check (a failure there that does not concern C19 leaves the theorem without its premise, and the monitor decides).', assumptions=TWIN + RTWIN),
    'C20': proof({PL: '*', C: '*', O: {'new', 'enable_plot'}}, 'Contracts of Plot and PlotData (every series, offset, clearing) and of when new, a step and run add points.', assumptions=[COUNTS, 'clear is called with at least one recorded point (true of every plot of a built object)']),
    'C21': proof({W: '*', C: {'new', 'into_objective_function'}}, 'Contracts of Scale and of fmin, fmax and their parallel forms. The forwarding implementations for closures, boxes and references are under contract as well (a closure: the value is one it returns; that it is called once is left to the monitor).', assumptions=[SEQ, COUNTS, 'expect panics instead of returning']),
    'C22': proof({C: '*'}, 'Contracts of get_termination_data, a step and run (a trace of steps that report nothing, then the one whose data is returned).', assumptions=[COUNTS]),
}
for i in range(3, 23):
    PROPS.setdefault('C%02d' % i, dict(units={}, level='exploration'))
KNOWN = {
    'C09': [dict(case='NoEffectCoord', what='NoEffectCoord is judged with the variance of each coordinate instead of its standard deviation (src/termination.rs, check_termination_criteria: 0.2 * sigma * cov[(i, i)]): mean 1, sigma 1e-6, variance 1e-14 reports it although 0.2 standard deviations move the mean')],
}
HOOK_COMMITS = ['5f7aba1df0a67f88282211b13451adba85609450']
NOT_APPLICABLE = {
    'C23': 'convergence on an objective class is an asymptotic statement about a stochastic process over floating point; no pre/postcondition of a function of the code expresses it and no deductive verifier here can discharge it',
}

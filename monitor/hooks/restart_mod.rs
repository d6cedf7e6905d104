/// one run of a restart strategy; returns the run's reasons and whether the strategy is finished
#[doc(hidden)]
pub fn verif_next_run<F, R: FnOnce(&mut CMAES<F>) -> TerminationData>(
    strategy: &mut RestartStrategy,
    options: CMAESOptions,
    search_range_size: f64,
    objective_function: F,
    run: R,
    seed: u64,
) -> (CMAES<F>, Vec<TerminationReason>, bool) {
    let mut rng = ChaChaRng::seed_from_u64(seed);
    let (c, r, control) = strategy.next_run(options, search_range_size, objective_function, run, &mut rng);
    (c, r, matches!(control, RestartControl::MaxRunsReached))
}

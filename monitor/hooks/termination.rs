#[doc(hidden)]
pub fn verif_check(
    current_function_evals: usize,
    time_created: Instant,
    parameters: &Parameters,
    state: &State,
    history: &History,
    individuals: &[EvaluatedPoint],
) -> Vec<TerminationReason> {
    TerminationCheck {
        current_function_evals,
        time_created,
        parameters,
        state,
        history,
        individuals,
    }
    .check_termination_criteria()
}

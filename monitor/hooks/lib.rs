// Accessors for the run-time contract monitor
#[doc(hidden)]
pub mod verif_api {
    pub use crate::history::History;
    pub use crate::matrix::CovarianceMatrix;
    pub use crate::sampling::EvaluatedPoint;
    pub use crate::state::State;
}
impl<F> CMAES<F> {
    #[doc(hidden)]
    pub fn verif_state(&self) -> &crate::state::State {
        &self.state
    }
    #[doc(hidden)]
    pub fn verif_history(&self) -> &crate::history::History {
        &self.history
    }
}
impl<F: ObjectiveFunction> CMAES<F> {
    #[doc(hidden)]
    #[allow(clippy::type_complexity)]
    pub fn verif_next(&mut self) -> (Option<Vec<(DVector<f64>, DVector<f64>, f64)>>, Option<TerminationData>) {
        match self.sample() {
            Ok(inds) => {
                let copy = inds
                    .iter()
                    .map(|p| (p.point().clone(), p.unscaled_step().clone(), p.value()))
                    .collect();
                let r = self.next_internal(&inds);
                (Some(copy), r)
            }
            Err(_) => (None, None),
        }
    }
}
impl<F: ParallelObjectiveFunction> CMAES<F> {
    #[doc(hidden)]
    #[allow(clippy::type_complexity)]
    pub fn verif_next_parallel(&mut self) -> (Option<Vec<(DVector<f64>, DVector<f64>, f64)>>, Option<TerminationData>) {
        match self.sample_parallel() {
            Ok(inds) => {
                let copy = inds
                    .iter()
                    .map(|p| (p.point().clone(), p.unscaled_step().clone(), p.value()))
                    .collect();
                let r = self.next_internal(&inds);
                (Some(copy), r)
            }
            Err(_) => (None, None),
        }
    }
}
impl<F> CMAES<F> {
    #[doc(hidden)]
    pub fn verif_state_mut(&mut self) -> &mut crate::state::State {
        &mut self.state
    }
}

impl State {
    #[doc(hidden)]
    pub fn verif_path_sigma(&self) -> &DVector<f64> {
        &self.path_sigma
    }
    #[doc(hidden)]
    pub fn verif_sqrt_inv(&self) -> &SquareMatrix<f64> {
        self.cov.sqrt_inv()
    }
    /// a state whose covariance has just been decomposed, with the given other components
    #[doc(hidden)]
    pub fn verif_synth(
        mean: DVector<f64>,
        cov: SquareMatrix<f64>,
        sigma: f64,
        path_c: DVector<f64>,
        generation: usize,
    ) -> Option<State> {
        let mut s = State::new(mean, sigma);
        s.cov.set_cov(cov, true).ok()?;
        s.path_c = path_c;
        s.generation = generation;
        Some(s)
    }
}
impl State {
    /// replaces the covariance without refreshing its decomposition
    #[doc(hidden)]
    pub fn verif_set_cov(&mut self, m: SquareMatrix<f64>) {
        let _ = self.cov.set_cov(m, false);
    }
}

impl Plot {
    /// all recorded series: evals, [best, median, sigma, axis ratio], means, sqrt eigenvalues, axis scales
    #[doc(hidden)]
    #[allow(clippy::type_complexity)]
    pub fn verif_series(&self) -> (Vec<usize>, Vec<Vec<f64>>, Vec<Vec<f64>>, Vec<Vec<f64>>, Vec<Vec<f64>>) {
        let d = &self.data;
        (
            d.function_evals().to_vec(),
            vec![
                d.best_function_value().to_vec(),
                d.median_function_value().to_vec(),
                d.sigma().to_vec(),
                d.axis_ratio().to_vec(),
            ],
            d.mean_dimensions().to_vec(),
            d.sqrt_eigenvalues().to_vec(),
            d.coord_axis_scales().to_vec(),
        )
    }
}

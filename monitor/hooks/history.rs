impl History {
    #[doc(hidden)]
    pub fn verif_synth(best: Vec<f64>, median: Vec<f64>, first_median: Option<f64>, best_median: Option<f64>) -> History {
        let mut h = History::new();
        h.best_function_values = best.into();
        h.median_function_values = median.into();
        h.first_median_function_value = first_median;
        h.best_median_function_value = best_median;
        h
    }
}

impl EvaluatedPoint {
    #[doc(hidden)]
    pub fn verif_new(point: DVector<f64>, value: f64) -> EvaluatedPoint {
        let n = point.len();
        EvaluatedPoint::new(point, &DVector::zeros(n), 1.0, |_| value).unwrap()
    }
}

// the distribution state and its accessors
//@item src/matrix.rs struct CovarianceMatrix
//@item src/state.rs struct State
impl CovarianceMatrix {
//@fn src/matrix.rs "impl CovarianceMatrix" cov
//@| ensures *r == self.cov,
//@end
//@fn src/matrix.rs "impl CovarianceMatrix" eigenvectors
//@| ensures *r == self.eigenvectors,
//@end
//@fn src/matrix.rs "impl CovarianceMatrix" sqrt_eigenvalues
//@| ensures *r == self.sqrt_eigenvalues,
//@end
//@fn src/matrix.rs "impl CovarianceMatrix" sqrt_inv
//@| ensures *r == self.sqrt_inv,
//@end
//@fn src/matrix.rs "impl CovarianceMatrix" transform
//@| ensures *r == self.transform,
//@end
}
impl State {
//@fn src/state.rs "impl State" generation
//@| ensures r == self.generation,
//@end
//@fn src/state.rs "impl State" mean
//@| ensures *r == self.mean,
//@end
//@fn src/state.rs "impl State" sigma
//@| ensures r == self.sigma,
//@end
//@fn src/state.rs "impl State" path_c
//@| ensures *r == self.path_c,
//@end
//@fn src/state.rs "impl State" cov
//@| ensures *r == self.cov.cov,
//@end
//@fn src/state.rs "impl State" cov_eigenvectors
//@| ensures *r == self.cov.eigenvectors,
//@end
//@fn src/state.rs "impl State" cov_sqrt_eigenvalues
//@| ensures *r == self.cov.sqrt_eigenvalues,
//@end
//@fn src/state.rs "impl State" cov_transform
//@| ensures *r == self.cov.transform,
//@end
//@fn src/state.rs "impl State" axis_ratio
//@ops
//@| ensures r == axis_ratio_of(*self), /*C09*/
//@end
}
pub open spec fn axis_ratio_of(s: State) -> F { fdiv(dv_max(diag_of(s.cov.sqrt_eigenvalues)), dv_min(diag_of(s.cov.sqrt_eigenvalues))) }

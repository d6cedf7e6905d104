// the eigendecomposition (nalgebra), its result uninterpreted
pub struct Eigen { pub eigenvectors: SquareMatrix<F>, pub eigenvalues: DVector<F> }
pub uninterp spec fn eigen_of(m: SquareMatrix<F>, eps: F, max_iter: int) -> Option<Eigen>;
/// every column scaled to length one
pub uninterp spec fn columns_normalized(m: SquareMatrix<F>) -> SquareMatrix<F>;
pub broadcast axiom fn axiom_eigen(m: SquareMatrix<F>, eps: F, max_iter: int) ensures #![trigger eigen_of(m, eps, max_iter)] eigen_of(m, eps, max_iter) matches Some(e) ==> rows(e.eigenvectors) == rows(m) && e.eigenvalues@.len() == rows(m);
pub broadcast axiom fn axiom_normalized(m: SquareMatrix<F>) ensures #[trigger] rows(columns_normalized(m)) == rows(m);
pub struct SymmetricEigen;
impl SymmetricEigen {
    #[verifier::external_body] pub fn try_new(m: SquareMatrix<F>, eps: F, max_iter: usize) -> (r: Option<Eigen>) ensures r == eigen_of(m, eps, max_iter as int) { unimplemented!() }
}
#[verifier::external_body] pub fn normalize_columns(m: &mut SquareMatrix<F>) ensures *final(m) == columns_normalized(*old(m)) { unimplemented!() }
//@item src/matrix.rs struct PosDefCovError
/// the decomposition in use: precision 1e-20, no limit of iterations
pub open spec fn decomposition(m: SquareMatrix<F>) -> Option<Eigen> { eigen_of(m, flit(1real / 100000000000000000000real), 0) }
pub open spec fn axis_lengths(e: Eigen) -> Seq<F> { e.eigenvalues@.map_values(|x: F| fsqrt(x)) }
pub open spec fn recip_pos() -> spec_fn(F) -> F { |d: F| if flt(flit(0real), d) { fdiv(flit(1real), d) } else { d } }
pub open spec fn positive(v: DVector<F>) -> bool { forall|i: int| 0 <= i < v@.len() ==> !fle(#[trigger] v@[i], flit(0real)) }
impl CovarianceMatrix {
    /// eigenvectors, axis lengths, transform and inverse square root of one decomposition
    pub open spec fn basis_of(self, e: Eigen) -> bool {
        let b = columns_normalized(e.eigenvectors);
        let d = mm_diag(of_seq(axis_lengths(e)));
        &&& self.eigenvectors == b && self.sqrt_eigenvalues == d
        &&& self.transform == mat_mul(b, d)
        &&& self.sqrt_inv == mat_mul(mat_mul(b, mm_map(d, recip_pos())), mm_transpose(b))
    }
    pub open spec fn initial(self, n: int) -> bool {
        self.cov == mm_identity(n) && self.eigenvectors == mm_identity(n) && self.sqrt_eigenvalues == mm_identity(n) && self.sqrt_inv == mm_identity(n) && self.transform == mm_identity(n)
    }
    pub open spec fn same_basis(self, o: Self) -> bool {
        self.eigenvectors == o.eigenvectors && self.sqrt_eigenvalues == o.sqrt_eigenvalues && self.transform == o.transform && self.sqrt_inv == o.sqrt_inv
    }
    /// the result of a refresh of the basis
    pub open spec fn refreshed(self, o: Self, ok: bool) -> bool {
        match decomposition(self.cov) {
            Some(e) => if positive(e.eigenvalues) { ok && self.basis_of(e) } else { !ok && self.same_basis(o) },
            None => !ok && self.same_basis(o),
        }
    }
    pub open spec fn wf(self, dim: int) -> bool { rows(self.cov) == dim && rows(self.eigenvectors) == dim && rows(self.sqrt_eigenvalues) == dim && rows(self.sqrt_inv) == dim && rows(self.transform) == dim && is_symmetric(self.cov) }
}

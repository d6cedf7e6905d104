//@include prelude/head.rs
verus! {
//@include prelude/std.rs
//@include prelude/float.rs
//@include prelude/iter.rs
//@include prelude/point.rs
//@include prelude/linalg.rs
//@include prelude/ops.rs
//@include prelude/mode.rs
//@include prelude/state.rs
//@include prelude/eigen.rs
impl CovarianceMatrix {
//@fn src/matrix.rs "impl CovarianceMatrix" new
//@| ensures r.initial(dim as int), /*C12 C13*/
//@|   r.wf(dim as int), /*C12*/
//@start| broadcast use axiom_identity;
//@end
//@fn src/matrix.rs "impl CovarianceMatrix" set_cov
//@| requires rows(new) == rows(old(self).cov), old(self).wf(rows(new)),
//@| ensures final(self).cov == symmetrized(new), /*C12*/
//@|   is_symmetric(final(self).cov), final(self).wf(rows(new)), /*C12*/
//@|   if update_eigen { final(self).refreshed(*old(self), r is Ok) } else { r is Ok && final(self).same_basis(*old(self)) }, /*C13*/
//@start| broadcast use axiom_symmetrized;
//@end
//@fn src/matrix.rs "impl CovarianceMatrix" update_eigendecomposition
//@ops
//@sub 1 /nalgebra::SymmetricEigen::/SymmetricEigen::/
//@sub 1 /for mut (\w+) in (\w+)\.eigenvectors\.column_iter_mut\(\) \{\s*\1\.normalize_mut\(\);\s*\}/normalize_columns(&mut \2.eigenvectors);/
//@sub 1 /(?<=sqrt_eigenvalues)(\s*)\.map\(/\1.map_(Ghost(recip_pos()), /
//@annot #\|x\|(?= \*x)#|x: &F| -> (b: bool) ensures b == fle(*x, flit(0real))#
//@annot #\|x\|(?= x\.sqrt)#|x: F| -> (y: F) ensures y == fsqrt(x)#
//@annot #\|d\|#|d: F| -> (y: F) ensures y == recip_pos()(d)#
//@| requires old(self).wf(rows(old(self).cov)),
//@| ensures final(self).cov == old(self).cov, final(self).wf(rows(old(self).cov)), /*C12 C13*/
//@|   final(self).refreshed(*old(self), r is Ok), /*C13*/
//@start| broadcast use axiom_mat_mul_rows, axiom_eigen, axiom_normalized, axiom_mm_diag, axiom_of_seq, axiom_dvector_ext;
//@tail| proof { let e_ = decomposition(self.cov)->0; assert(decomposition(self.cov) is Some);
//@tail|   let v_ = choose|v: DVector<F>| self.sqrt_eigenvalues == #[trigger] mm_diag(v) && v@ =~= axis_lengths(e_); assert(v_@ =~= axis_lengths(e_)); assert(v_@ == of_seq(axis_lengths(e_))@); }
//@end
}
} // verus!
fn main() {}

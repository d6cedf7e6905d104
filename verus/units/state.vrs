//@include prelude/head.rs
verus! {
//@include prelude/std.rs
//@include prelude/float.rs
//@include prelude/iter.rs
//@include prelude/point.rs
//@include prelude/linalg.rs
//@include prelude/ops.rs
//@include prelude/mode.rs
//@include prelude/state.rs probe
//@include prelude/eigen.rs
//@include prelude/time.rs
//@include prelude/params.rs
impl CovarianceMatrix {
//@import matrix src/matrix.rs "impl CovarianceMatrix" new
//@import matrix src/matrix.rs "impl CovarianceMatrix" set_cov
}
//@include prelude/update.rs
//@fn src/state.rs - rank_mu_update
//@sub sig 3 /\bF\b(?!>>)/G/
//@| requires weights@.len() > 0, forall|i: int| 0 <= i < weights@.len() ==> (#[trigger] weights@[i] == weights@[i]) && call_requires(map_weights, (pair(i, weights@),)),
//@| ensures exists|t: Seq<SquareMatrix<F>>| mapped(map_weights, weights@, t) && r == #[trigger] msum(t), /*C12*/
//@end
//@fn src/state.rs - rank_mu_update_parallel
//@sub sig 3 /\bF\b/G/
//@sub sig + /Send \+ Sync \+ //
//@sub 1 /\.reduce\(/.reduce_(Ghost(id), Ghost(mm_plus()), /
//@annot #\|a, b\|#|a: SquareMatrix<F>, b: SquareMatrix<F>| -> (c: SquareMatrix<F>) ensures c == mm_add(a, b)#
//@ops
//@sub sig 1 /identity: I\b/identity: I, Ghost(id): Ghost<SquareMatrix<f64>>/
//@| requires forall|i: int| 0 <= i < weights@.len() ==> (#[trigger] weights@[i] == weights@[i]) && call_requires(map_weights, (pair(i, weights@),)),
//@|   identity.requires(()), forall|x: SquareMatrix<F>| #[trigger] call_ensures(identity, (), x) ==> x == id,
//@| ensures exists|t: Seq<SquareMatrix<F>>| mapped(map_weights, weights@, t) && #[trigger] reduced(t, id, mm_plus(), r), /*C12*/
//@end
impl State {
//@fn src/state.rs "impl State" new
//@| ensures r.generation == 0, r.mean == initial_mean, r.sigma == initial_sigma, r.last_eigen_update_evals == 0, /*C12*/
//@|   r.path_c == dv_zeros(initial_mean@.len() as int), r.path_sigma == dv_zeros(initial_mean@.len() as int), /*C12*/
//@|   r.cov.initial(initial_mean@.len() as int), r.wf(initial_mean@.len() as int), /*C12*/
//@start| broadcast use shape_axioms;
//@end
//@fn src/state.rs "impl State" evals_per_eigen_update
//@sub * /\.pow\(/.upow(/
//@ops
//@| ensures r as int == per_eigen(*params), /*C12*/
//@end
//@fn src/state.rs "impl State" update
//@sub * /\.pow\(/.upow(/
//@ops
//@annot #\|\(i, p\)\|#|ip: (usize, &EvaluatedPoint)| -> (y: DVector<F>) requires ip.0 < params.weights.weights@.len() ensures y == dv_scale(params.weights.weights@[ip.0 as int], ip.1.unscaled_step)%% let (i, p) = ip; #
//@annot #\|\(i, w\): \(usize, f64\)\|#|iw: (usize, F)| -> (m: SquareMatrix<F>) requires iw.0 < individuals@.len() ensures m == rank_mu_term(*sqrt_inv_c, individuals@[iw.0 as int].unscaled_step, dim as int, iw.1)%% let (i, w) = iw; #
//@annot #\|\|(?=\s*\{\s*SquareMatrix)#|| -> (m: SquareMatrix<F>) ensures m == mm_zeros(dim as int)#
//@sub 1 /(rank_mu_update_parallel\(.*?)\)(?=\s*\} else)/\1, Ghost(mm_zeros(dim as int)))/
//@| requires old(self).wf(params.dim as int), old(self).generation < 0x3fff_ffff,
//@|   old(self).last_eigen_update_evals + per_eigen(*params) <= usize::MAX, params.dim * params.dim <= usize::MAX,
//@|   params.mu > 0, params.mu <= params.weights.weights@.len() <= individuals@.len(), params.dim > 0,
//@|   forall|i: int| 0 <= i < individuals@.len() ==> (#[trigger] individuals@[i]).unscaled_step@.len() == params.dim,
//@| ensures final(self).updated(*old(self), current_function_evals as int, *params, individuals@, r is Ok), /*C12 C13*/
//@|   final(self).wf(params.dim as int), /*C12 C13*/
//@start| broadcast use shape_axioms, axiom_reduced_rows;
//@after /\.sum::<DVector<f64>>\(\);/| proof { let s_ = Seq::new(params.mu as nat, |i: int| dv_scale(params.weights.weights@[i], individuals@[i].unscaled_step));
//@after /\.sum::<DVector<f64>>\(\);/|   let t_ = choose|t: Seq<DVector<F>>| yw == #[trigger] vsum(t) && t =~= s_; assert(yw == weighted_step(individuals@, *params)); lemma_vsum_len(s_, params.dim as int); }
//@after /let cov_new = [^;]*;/| proof { let w_ = params.weights.weights@;
//@after /let cov_new = [^;]*;/|   assert forall|s: Seq<&F>| s.len() == w_.len() && (forall|i: int| 0 <= i < s.len() ==> *#[trigger] s[i] == w_[i]) implies #[trigger] derefs(s) == w_ by { assert(derefs(s) =~= w_); }
//@after /let cov_new = [^;]*;/|   assert(hs == hs_of(*old(self), *params, self.path_sigma)); assert(cov_new == new_cov(*old(self), *params, hs, self.path_c, rank_mu_update)); }
//@after /rank_mu_update\(params\.weights\(\)\.as_slice\(\), map_weights\)\s*\};/| proof { let w_ = params.weights.weights@; let s_ = rank_mu_terms(self.cov.sqrt_inv, individuals@, *params);
//@after /rank_mu_update\(params\.weights\(\)\.as_slice\(\), map_weights\)\s*\};/|   let t_ = choose|t: Seq<SquareMatrix<F>>| #[trigger] mapped(map_weights, w_, t) && (if params.parallel_update { reduced(t, mm_zeros(dim as int), mm_plus(), rank_mu_update) } else { rank_mu_update == msum(t) });
//@after /rank_mu_update\(params\.weights\(\)\.as_slice\(\), map_weights\)\s*\};/|   assert(t_ =~= s_); assert(rank_mu(self.cov.sqrt_inv, individuals@, *params, rank_mu_update)); if !params.parallel_update { lemma_msum_rows(s_, dim as int); } assert(rows(rank_mu_update) == dim); }
//@tail| proof { let o_ = *old(self); let hs_ = hs_of(o_, *params, self.path_sigma); assert(self.cov.cov == symmetrized(new_cov(o_, *params, hs_, self.path_c, rank_mu_update)));
//@tail|   assert(self.cov_updated(o_, *params, individuals@, hs_)); }
//@end
}
} // verus!
fn main() {}

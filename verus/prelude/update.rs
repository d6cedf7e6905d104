// ---- the CMA-ES update equations, in terms of the state before ----
pub open spec fn pair(i: int, w: Seq<F>) -> (usize, F) { (i as usize, w[i]) }
pub open spec fn mapped<G: Fn((usize, F)) -> SquareMatrix<F>>(f: G, w: Seq<F>, t: Seq<SquareMatrix<F>>) -> bool {
    t.len() == w.len() && forall|i: int| 0 <= i < w.len() ==> call_ensures(f, (pair(i, w),), #[trigger] t[i])
}
pub open spec fn one() -> F { flit(1real) }
pub open spec fn two() -> F { flit(2real) }
pub open spec fn per_eigen(p: Parameters) -> int {
    f_to_int(fceil(fdiv(fmul(fmul(flit(1real / 2real), fint(p.dim as int)), fint(p.lambda as int)), fmul(fadd(p.c1, p.cmu), fint((p.dim * p.dim) as usize as int)))))
}
/// weighted step of the mu best
pub open spec fn weighted_step(ind: Seq<EvaluatedPoint>, p: Parameters) -> DVector<F> {
    vsum(Seq::new(p.mu as nat, |i: int| dv_scale(p.weights.weights@[i], ind[i].unscaled_step)))
}
pub open spec fn rank_mu_weight(sqrt_inv: SquareMatrix<F>, y: DVector<F>, dim: int, w: F) -> F {
    if flt(w, flit(0real)) { fmul(w, fdiv(fint(dim), fpowi(dv_norm(mat_vec(sqrt_inv, y)), 2))) } else { w }
}
pub open spec fn rank_mu_term(sqrt_inv: SquareMatrix<F>, y: DVector<F>, dim: int, w: F) -> SquareMatrix<F> {
    outer(dv_scale(rank_mu_weight(sqrt_inv, y, dim, w), y), transposed(y))
}
pub open spec fn rank_mu_terms(sqrt_inv: SquareMatrix<F>, ind: Seq<EvaluatedPoint>, p: Parameters) -> Seq<SquareMatrix<F>> {
    Seq::new(p.weights.weights@.len(), |i: int| rank_mu_term(sqrt_inv, ind[i].unscaled_step, p.dim as int, p.weights.weights@[i]))
}
pub open spec fn rank_mu(sqrt_inv: SquareMatrix<F>, ind: Seq<EvaluatedPoint>, p: Parameters, r: SquareMatrix<F>) -> bool {
    if p.parallel_update { reduced(rank_mu_terms(sqrt_inv, ind, p), mm_zeros(p.dim as int), mm_plus(), r) } else { r == msum(rank_mu_terms(sqrt_inv, ind, p)) }
}
/// expected length of a standard normal vector
pub open spec fn chi(p: Parameters) -> F {
    let n = fint(p.dim as int);
    fmul(fsqrt(n), fadd(fsub(one(), fdiv(one(), fmul(flit(4real), n))), fdiv(one(), fmul(flit(21real), fint((p.dim * p.dim) as usize as int)))))
}
pub open spec fn new_path_sigma(o: State, p: Parameters, yw: DVector<F>) -> DVector<F> {
    dv_add(dv_scale(fsub(one(), p.cs), o.path_sigma), mat_vec(mm_scale(fsqrt(fmul(fmul(p.cs, fsub(two(), p.cs)), p.mu_eff)), o.cov.sqrt_inv), yw))
}
pub open spec fn hs_of(o: State, p: Parameters, path_sigma: DVector<F>) -> F {
    if flt(fdiv(dv_norm(path_sigma), fsqrt(fsub(one(), fpowi(fsub(one(), p.cs), 2 * (o.generation + 1))))),
        fmul(fadd(flit(14real / 10real), fdiv(two(), fadd(fint(p.dim as int), one()))), chi(p))) { one() } else { flit(0real) }
}
pub open spec fn new_path_c(o: State, p: Parameters, hs: F, yw: DVector<F>) -> DVector<F> {
    dv_add(dv_scale(fsub(one(), p.cc), o.path_c), dv_scale(fmul(hs, fsqrt(fmul(fmul(p.cc, fsub(two(), p.cc)), p.mu_eff))), yw))
}
pub open spec fn new_sigma(o: State, p: Parameters, path_sigma: DVector<F>) -> F {
    fmul(o.sigma, fexp(fmul(fdiv(p.cs, p.damp_s), fsub(fdiv(dv_norm(path_sigma), chi(p)), one()))))
}
pub open spec fn new_cov(o: State, p: Parameters, hs: F, path_c: DVector<F>, r: SquareMatrix<F>) -> SquareMatrix<F> {
    let delta_hs = fmul(fmul(fsub(one(), hs), p.cc), fsub(two(), p.cc));
    let keep = fsub(fsub(fadd(one(), fmul(p.c1, delta_hs)), p.c1), fmul(p.cmu, fsum(p.weights.weights@)));
    mm_add(mm_add(mm_scale(keep, o.cov.cov), outer(dv_scale(p.c1, path_c), transposed(path_c))), mm_scale(p.cmu, r))
}
impl State {
    pub open spec fn wf(self, dim: int) -> bool {
        self.mean@.len() == dim && self.path_c@.len() == dim && self.path_sigma@.len() == dim && self.cov.wf(dim)
    }
    pub open spec fn refresh_due(self, evals: int, p: Parameters) -> bool { evals >= self.last_eigen_update_evals + per_eigen(p) }
    pub open spec fn cov_updated(self, o: State, p: Parameters, ind: Seq<EvaluatedPoint>, hs: F) -> bool {
        exists|r: SquareMatrix<F>| rank_mu(o.cov.sqrt_inv, ind, p, r) && self.cov.cov == symmetrized(#[trigger] new_cov(o, p, hs, self.path_c, r))
    }
    /// one update from state `o`; `ok`: the covariance was positive definite (or not decomposed)
    pub open spec fn updated(self, o: State, evals: int, p: Parameters, ind: Seq<EvaluatedPoint>, ok: bool) -> bool {
        let yw = weighted_step(ind, p);
        let hs = hs_of(o, p, self.path_sigma);
        &&& self.mean == dv_add(o.mean, dv_scale(fmul(p.cm, o.sigma), yw))
        &&& self.path_sigma == new_path_sigma(o, p, yw)
        &&& self.path_c == new_path_c(o, p, hs, yw)
        &&& self.sigma == new_sigma(o, p, self.path_sigma)
        &&& self.cov_updated(o, p, ind, hs)
        &&& if o.refresh_due(evals, p) { self.cov.refreshed(o.cov, ok) } else { ok && self.cov.same_basis(o.cov) }
        &&& self.last_eigen_update_evals == (if ok && o.refresh_due(evals, p) { evals } else { o.last_eigen_update_evals as int })
        &&& self.generation == o.generation + (if ok { 1int } else { 0int })
    }
}

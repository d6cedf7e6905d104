// ---- the CMA-ES weights and strategy parameters ----
//@item src/parameters/weights.rs struct InitialWeights
pub open spec fn raw_weight(lambda: int, i: int) -> F { fsub(fln(fdiv(fadd(fint(lambda), flit(1real)), flit(2real))), fln(fint(i))) }
pub open spec fn raw_weights(lambda: int, setting: Weights) -> Seq<F> {
    match setting {
        Weights::Uniform => Seq::new((lambda / 2) as nat, |k: int| flit(1real)),
        Weights::Positive => Seq::new((lambda / 2) as nat, |k: int| raw_weight(lambda, k + 1)),
        Weights::Negative => Seq::new(lambda as nat, |k: int| raw_weight(lambda, k + 1)),
    }
}
pub open spec fn squares(w: Seq<F>) -> Seq<F> { Seq::new(w.len(), |k: int| fpowi(w[k], 2)) }
/// variance effective mass: square of the sum divided by the sum of squares
pub open spec fn eff_mass(w: Seq<F>) -> F { fdiv(fpowi(fsum(w), 2), fsum(squares(w))) }
pub open spec fn is_pos() -> spec_fn(F) -> bool { |x: F| flt(flit(0real), x) }
pub open spec fn is_neg() -> spec_fn(F) -> bool { |x: F| flt(x, flit(0real)) }
/// positive weights divided by their sum
pub open spec fn normalized_pos(w: Seq<F>) -> Seq<F> { Seq::new(w.len(), |k: int| if is_pos()(w[k]) { fdiv(w[k], fsum(w.filter(is_pos()))) } else { w[k] }) }
/// negative weights scaled to the total magnitude `a`
pub open spec fn normalized_neg(w: Seq<F>, a: F) -> Seq<F> { Seq::new(w.len(), |k: int| if is_neg()(w[k]) { fdiv(fmul(w[k], a), fabs(fsum(w.filter(is_neg())))) } else { w[k] }) }
/// smallest of the three documented bounds of the total magnitude of the negative weights
pub open spec fn neg_mass(mu_eff: F, mu_eff_minus: F, dim: int, c1: F, cmu: F) -> F {
    let a_mu = fadd(flit(1real), fdiv(c1, cmu));
    let a_mu_eff = fadd(flit(1real), fdiv(fmul(flit(2real), mu_eff_minus), fadd(mu_eff, flit(2real))));
    let a_pos_def = fdiv(fsub(fsub(flit(1real), c1), cmu), fmul(fint(dim), cmu));
    fmin(a_mu, fmin(a_mu_eff, a_pos_def))
}
pub open spec fn final_weights(w: Seq<F>, mu: int, dim: int, c1: F, cmu: F) -> Seq<F> {
    let p = normalized_pos(w);
    if w.len() > mu { normalized_neg(p, neg_mass(eff_mass(w.take(mu)), eff_mass(w.skip(mu)), dim, c1, cmu)) } else { p }
}
impl InitialWeights {
    pub open spec fn wf(self) -> bool { self.mu <= self.weights@.len() }
}
// learning rates
pub open spec fn cc_of(dim: int, mu_eff: F) -> F {
    let n = fint(dim);
    fdiv(fadd(flit(4real), fdiv(mu_eff, n)), fadd(fadd(n, flit(4real)), fdiv(fmul(flit(2real), mu_eff), n)))
}
pub open spec fn c1_of(dim: int, mu_eff: F) -> F { fdiv(flit(2real), fadd(fpowi(fadd(fint(dim), flit(13real / 10real)), 2), mu_eff)) }
pub open spec fn cmu_of(dim: int, mu_eff: F, c1: F) -> F {
    fmin(fsub(flit(1real), c1), fdiv(fmul(flit(2real), fadd(fsub(mu_eff, flit(2real)), fdiv(flit(1real), mu_eff))),
        fadd(fpowi(fadd(fint(dim), flit(2real)), 2), fdiv(fmul(flit(2real), mu_eff), flit(2real)))))
}
pub open spec fn cs_of(dim: int, mu_eff: F) -> F { fdiv(fadd(mu_eff, flit(2real)), fadd(fadd(fint(dim), mu_eff), flit(5real))) }
pub open spec fn damp_of(dim: int, mu_eff: F, cs: F) -> F {
    fadd(fadd(flit(1real), cs), fmul(flit(2real), fmax(fsub(fsqrt(fdiv(fsub(mu_eff, flit(1real)), fadd(fint(dim), flit(1real)))), flit(1real)), flit(0real))))
}
impl Parameters {
    /// every derived parameter follows its definition
    pub open spec fn defined(self) -> bool {
        let raw = raw_weights(self.lambda as int, self.weights.setting);
        &&& self.mu == self.lambda / 2
        &&& self.mu_eff == eff_mass(raw.take(self.mu as int))
        &&& self.cc == cc_of(self.dim as int, self.mu_eff) && self.c1 == c1_of(self.dim as int, self.mu_eff)
        &&& self.cmu == cmu_of(self.dim as int, self.mu_eff, self.c1) && self.cs == cs_of(self.dim as int, self.mu_eff)
        &&& self.damp_s == damp_of(self.dim as int, self.mu_eff, self.cs)
        &&& self.weights.weights@ == final_weights(raw, self.mu as int, self.dim as int, self.c1, self.cmu)
    }
    /// every option arrives unchanged
    pub open spec fn carries(self, o: CMAESOptions, seed: u64, t: TerminationParameters) -> bool {
        &&& self.mode == o.mode && self.dim == o.initial_mean@.len() && self.lambda == o.population_size && self.initial_sigma == o.initial_step_size
        &&& self.weights.setting == o.weights && self.cm == o.cm && self.termination == t && self.seed == seed && self.parallel_update == o.parallel_update
    }
}
pub open spec fn default_tol_stagnation(dim: int, lambda: int) -> int { 100 + f_to_int(fceil(fdiv(fmul(flit(100real), fpowf(fint(dim), flit(3real / 2real))), fint(lambda)))) }
impl TerminationParameters {
    pub open spec fn of_options(self, o: CMAESOptions) -> bool {
        &&& self.max_function_evals == o.max_function_evals && self.max_generations == o.max_generations && self.max_time == o.max_time && self.fun_target == o.fun_target
        &&& self.tol_fun == o.tol_fun && self.tol_fun_rel == o.tol_fun_rel && self.tol_fun_hist == o.tol_fun_hist && self.tol_x_up == o.tol_x_up && self.tol_condition_cov == o.tol_condition_cov
        &&& self.tol_x == (match o.tol_x { Some(x) => x, None => fmul(flit(1real / 1000000000000real), o.initial_step_size) })
        &&& self.tol_stagnation == (match o.tol_stagnation { Some(x) => x as int, None => default_tol_stagnation(o.initial_mean@.len() as int, o.population_size as int) })
    }
}

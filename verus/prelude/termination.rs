// ---- termination criteria ----
//@item src/termination.rs enum TerminationReason derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/termination.rs struct TerminationCheck
use TerminationReason::*;

// ---- range of a sequence of values ----
pub open spec fn max_upto(s: Seq<F>, n: int, x: F) -> bool { (exists|k: int| 0 <= k < n && #[trigger] s[k] == x) && forall|i: int| 0 <= i < n ==> fle(#[trigger] s[i], x) }
pub open spec fn min_upto(s: Seq<F>, n: int, x: F) -> bool { (exists|k: int| 0 <= k < n && #[trigger] s[k] == x) && forall|i: int| 0 <= i < n ==> fle(x, #[trigger] s[i]) }
/// `r` is the maximum minus the minimum
#[verifier::opaque] pub open spec fn is_range(s: Seq<F>, r: F) -> bool { exists|hi: F, lo: F| max_upto(s, s.len() as int, hi) && min_upto(s, s.len() as int, lo) && r == #[trigger] fsub(hi, lo) }
pub open spec fn no_nan(s: Seq<F>) -> bool { forall|i: int| 0 <= i < s.len() ==> !nan(#[trigger] s[i]) }
/// trusted: the median of the values (statrs)
pub uninterp spec fn stat_median(s: Seq<F>) -> F;
pub open spec fn stagnation_window(opt: int, generation: int) -> Option<int> {
    let g = if generation / 5 < MAX_HISTORY_LENGTH { generation / 5 } else { MAX_HISTORY_LENGTH as int };
    if g < opt { None } else { Some(g) }
}
/// 30% of the window
pub open spec fn part(w: int) -> int { f_to_int(fmul(fint(w), flit(3real / 10real))) }
pub broadcast axiom fn axiom_part(w: int) ensures #![trigger part(w)] 0 <= w <= MAX_HISTORY_LENGTH ==> 0 <= part(w) <= w;
/// the values (newest first) got worse (or no better) over the window
#[verifier::opaque] pub open spec fn regressed(m: Mode, h: Seq<F>, w: int) -> bool {
    better(m, stat_median(h.take(w).skip(w - part(w))), stat_median(h.take(part(w))))
}

/// the reasons listed, each as a flag
pub struct Flags { pub max_function_evals: bool, pub max_generations: bool, pub max_time: bool, pub fun_target: bool, pub tol_fun: bool, pub tol_fun_rel: bool, pub tol_fun_hist: bool, pub tol_x: bool, pub tol_stagnation: bool, pub tol_x_up: bool, pub tol_condition_cov: bool, pub no_effect_axis: bool, pub no_effect_coord: bool, pub invalid_function_value: bool, pub pos_def_cov: bool }
#[verifier::opaque] pub open spec fn listed(s: Seq<TerminationReason>, x: TerminationReason) -> bool { s.contains(x) }
#[verifier::opaque] pub open spec fn flags(s: Seq<TerminationReason>) -> Flags {
    Flags { max_function_evals: listed(s, MaxFunctionEvals), max_generations: listed(s, MaxGenerations), max_time: listed(s, MaxTime), fun_target: listed(s, FunTarget), tol_fun: listed(s, TolFun), tol_fun_rel: listed(s, TolFunRel), tol_fun_hist: listed(s, TolFunHist), tol_x: listed(s, TolX), tol_stagnation: listed(s, TolStagnation), tol_x_up: listed(s, TolXUp), tol_condition_cov: listed(s, TolConditionCov), no_effect_axis: listed(s, NoEffectAxis), no_effect_coord: listed(s, NoEffectCoord), invalid_function_value: listed(s, InvalidFunctionValue), pos_def_cov: listed(s, PosDefCov) }
}
pub open spec fn no_flags() -> Flags { Flags { max_function_evals: false, max_generations: false, max_time: false, fun_target: false, tol_fun: false, tol_fun_rel: false, tol_fun_hist: false, tol_x: false, tol_stagnation: false, tol_x_up: false, tol_condition_cov: false, no_effect_axis: false, no_effect_coord: false, invalid_function_value: false, pos_def_cov: false } }
pub open spec fn past_window(dim: usize, lambda: usize) -> int { 10 + f_to_int(fceil(fdiv(fmul(flit(30real), fint(dim as int)), fint(lambda as int)))) }
pub open spec fn values(p: Seq<EvaluatedPoint>) -> Seq<F> { p.map_values(|q: EvaluatedPoint| q.value) }
impl<'a> TerminationCheck<'a> {
    pub open spec fn wf(self) -> bool {
        let p = *self.parameters;
        let s = *self.state;
        &&& p.dim > 0 && p.lambda > 0 && past_window(p.dim, p.lambda) <= usize::MAX
        &&& s.mean@.len() == p.dim && rows(s.cov.cov) == p.dim && rows(s.cov.eigenvectors) == p.dim && rows(s.cov.sqrt_eigenvalues) == p.dim
        &&& self.individuals@.len() > 0 && (forall|i: int| 0 <= i < self.individuals@.len() ==> !nan(#[trigger] self.individuals@[i].value))
        &&& self.history.wf() && self.history.overall_best_individual is Some
    }
    /// `verdict`: enough generations are recorded, and the range of the best values in the window (`hist`) and the range of the current values (`both`) are below `tol`
    #[verifier::opaque] pub open spec fn below(self, tol: F, both: bool, verdict: bool) -> bool {
        let h = self.history.best_function_values@;
        let n = past_window(self.parameters.dim, self.parameters.lambda);
        if h.len() < n { !verdict } else { exists|rh: F, rc: F| #[trigger] is_range(h.take(n), rh) && #[trigger] is_range(values(self.individuals@), rc) && (verdict <==> flt(rh, tol) && (both ==> flt(rc, tol))) }
    }
    pub open spec fn fun_rel_tolerance(self) -> F {
        fmul(self.parameters.termination.tol_fun_rel, fabs(fsub(self.history.first_median_function_value.unwrap(), self.history.best_median_function_value.unwrap())))
    }
    #[verifier::opaque] pub open spec fn target_reached(self, t: F) -> bool { exists|i: int| 0 <= i < self.individuals@.len() && better(self.parameters.mode, #[trigger] self.individuals@[i].value, t) }
    #[verifier::opaque] pub open spec fn stagnated(self) -> bool {
        match stagnation_window(self.parameters.termination.tol_stagnation as int, self.state.generation as int) {
            None => false,
            Some(w) => self.history.best_function_values@.len() >= w && self.history.median_function_values@.len() >= w
                && regressed(self.parameters.mode, self.history.best_function_values@, w) && regressed(self.parameters.mode, self.history.median_function_values@, w),
        }
    }
    #[verifier::opaque] pub open spec fn small_x(self) -> bool {
        let s = *self.state;
        let tol = self.parameters.termination.tol_x;
        &&& forall|i: int| 0 <= i < self.parameters.dim ==> flt(fabs(fmul(s.sigma, fsqrt(#[trigger] entry(s.cov.cov, i, i)))), tol)
        &&& forall|i: int| 0 <= i < s.path_c@.len() ==> flt(fabs(fmul(s.sigma, #[trigger] s.path_c@[i])), tol)
    }
    /// some largest axis length
    pub open spec fn largest_axis(self, m: F) -> bool {
        let d = diag_of(self.state.cov.sqrt_eigenvalues)@;
        (exists|k: int| 0 <= k < d.len() && #[trigger] d[k] == m) && (no_nan(d) ==> forall|i: int| 0 <= i < d.len() ==> fle(#[trigger] d[i], m))
    }
    #[verifier::opaque] pub open spec fn grown(self, verdict: bool) -> bool {
        exists|m: F| #[trigger] self.largest_axis(m) && (verdict <==> flt(self.parameters.termination.tol_x_up, fdiv(fmul(self.state.sigma, m), self.parameters.initial_sigma)))
    }
    #[verifier::opaque] pub open spec fn ill_conditioned(self) -> bool {
        let c = fpowi(axis_ratio_of(*self.state), 2);
        !fnormal(c) || flt(self.parameters.termination.tol_condition_cov, c)
    }
    #[verifier::opaque] pub open spec fn no_effect_axis(self) -> bool {
        let s = *self.state;
        let k = s.generation as int % self.parameters.dim as int;
        dv_eq(s.mean, dv_add(s.mean, dv_scale(fmul(fmul(flit(1real / 10real), s.sigma), entry(s.cov.sqrt_eigenvalues, k, k)), column_of(s.cov.eigenvectors, k))))
    }
    /// moving coordinate i of the mean by 0.2 sigma spread leaves it unchanged
    pub open spec fn still(self, i: int, spread: F) -> bool { feq(self.state.mean@[i], fadd(self.state.mean@[i], fmul(fmul(flit(1real / 5real), self.state.sigma), spread))) }
    /// with the standard deviation of each coordinate or (known finding) its variance
    #[verifier::opaque] pub open spec fn no_effect_coord(self, verdict: bool) -> bool {
        if verdict { exists|i: int| 0 <= i < self.parameters.dim && (self.still(i, fsqrt(#[trigger] entry(self.state.cov.cov, i, i))) || self.still(i, entry(self.state.cov.cov, i, i))) }
        else { forall|i: int| 0 <= i < self.parameters.dim ==> !(self.still(i, fsqrt(#[trigger] entry(self.state.cov.cov, i, i))) && self.still(i, entry(self.state.cov.cov, i, i))) }
    }
}

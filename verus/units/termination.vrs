//@include prelude/head.rs
verus! {
//@include prelude/std.rs
//@include prelude/float.rs
//@include prelude/iter.rs
//@include prelude/point.rs
//@include prelude/linalg.rs
//@include prelude/ops.rs
//@include prelude/mode.rs
//@include prelude/state.rs
//@include prelude/history.rs
//@include prelude/history_get.rs probe
//@include prelude/time.rs
//@include prelude/params.rs
//@include prelude/termination.rs
//@fn src/utils.rs - range
//@ops
//@sub sig 1 /<I: IntoIterator<Item = f64>>/ /
//@sub sig 1 /iter: I\b/iter: It<f64>/
//@sub 1 /let mut iter = iter\.into_iter\(\);/let mut iter = iter;/
//@sub 1 /for x in iter \{/loop { let x = match iter.next() { Some(x_) => x_, None => break };/
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@| requires iter.fresh(), no_nan(iter.all()),
//@| ensures r is None <==> iter.all().len() == 0, r matches Some(x) ==> is_range(iter.all(), x), /*C07*/
//@loop 0| invariant 1 <= iter.pos() <= iter.all().len(), max_upto(all0, iter.pos(), max), min_upto(all0, iter.pos(), min), no_nan(iter.all()), iter.all() == all0,
//@loop 0| ensures iter.pos() == iter.all().len(),
//@loop 0| decreases iter.all().len() - iter.pos(),
//@start| let ghost all0 = iter.all(); reveal(is_range);
//@end

// ---- TolStagnation ----
pub struct Data { pub v: Vec<F> }
impl Data {
    pub fn new(v: Vec<F>) -> (r: Data) ensures r.v@ == v@ { Data { v } }
    #[verifier::external_body] pub fn median(&self) -> (r: F) ensures r == stat_median(self.v@) { unimplemented!() }
}
//@fn src/termination.rs - get_tol_stagnation_generations
//@ops
//@| ensures match r { Some(g) => stagnation_window(tol_stagnation_option as int, current_generation as int) == Some(g as int), None => stagnation_window(tol_stagnation_option as int, current_generation as int) is None }, /*C08*/
//@end
// ---- the criteria ----
pub open spec fn with_flag(g: Flags, x: TerminationReason) -> Flags {
    Flags { max_function_evals: g.max_function_evals || x == MaxFunctionEvals, max_generations: g.max_generations || x == MaxGenerations, max_time: g.max_time || x == MaxTime, fun_target: g.fun_target || x == FunTarget, tol_fun: g.tol_fun || x == TolFun, tol_fun_rel: g.tol_fun_rel || x == TolFunRel, tol_fun_hist: g.tol_fun_hist || x == TolFunHist, tol_x: g.tol_x || x == TolX, tol_stagnation: g.tol_stagnation || x == TolStagnation, tol_x_up: g.tol_x_up || x == TolXUp, tol_condition_cov: g.tol_condition_cov || x == TolConditionCov, no_effect_axis: g.no_effect_axis || x == NoEffectAxis, no_effect_coord: g.no_effect_coord || x == NoEffectCoord, invalid_function_value: g.invalid_function_value || x == InvalidFunctionValue, pos_def_cov: g.pos_def_cov || x == PosDefCov }
}
pub proof fn lemma_flags_empty(s: Seq<TerminationReason>) requires s.len() == 0 ensures flags(s) == no_flags() { reveal(flags); reveal(listed); }
pub open spec fn same_but(a: Flags, b: Flags, m: Flags) -> bool {
(m.max_function_evals || a.max_function_evals == b.max_function_evals) && (m.max_generations || a.max_generations == b.max_generations) && (m.max_time || a.max_time == b.max_time) && (m.fun_target || a.fun_target == b.fun_target) && (m.tol_fun || a.tol_fun == b.tol_fun) && (m.tol_fun_rel || a.tol_fun_rel == b.tol_fun_rel) && (m.tol_fun_hist || a.tol_fun_hist == b.tol_fun_hist) && (m.tol_x || a.tol_x == b.tol_x) && (m.tol_stagnation || a.tol_stagnation == b.tol_stagnation) && (m.tol_x_up || a.tol_x_up == b.tol_x_up) && (m.tol_condition_cov || a.tol_condition_cov == b.tol_condition_cov) && (m.no_effect_axis || a.no_effect_axis == b.no_effect_axis) && (m.no_effect_coord || a.no_effect_coord == b.no_effect_coord) && (m.invalid_function_value || a.invalid_function_value == b.invalid_function_value) && (m.pos_def_cov || a.pos_def_cov == b.pos_def_cov)
}
/// the contract of the statements that are not in this copy of the function
#[verifier::external_body] pub fn other_statement(v: &mut Vec<TerminationReason>, m: Ghost<Flags>)
    ensures same_but(flags(final(v)@), flags(old(v)@), m@)
{ unimplemented!() }
pub proof fn lemma_push_listed(s: Seq<TerminationReason>, x: TerminationReason, y: TerminationReason)
    ensures listed(s.push(x), y) == (listed(s, y) || y == x),
{ reveal(listed); vstd::seq_lib::lemma_seq_contains_after_push(s, x, y); }
pub proof fn lemma_flags_are(s: Seq<TerminationReason>)
    ensures flags(s).max_function_evals == listed(s, MaxFunctionEvals), flags(s).max_generations == listed(s, MaxGenerations), flags(s).max_time == listed(s, MaxTime), flags(s).fun_target == listed(s, FunTarget), flags(s).tol_fun == listed(s, TolFun), flags(s).tol_fun_rel == listed(s, TolFunRel), flags(s).tol_fun_hist == listed(s, TolFunHist), flags(s).tol_x == listed(s, TolX), flags(s).tol_stagnation == listed(s, TolStagnation), flags(s).tol_x_up == listed(s, TolXUp), flags(s).tol_condition_cov == listed(s, TolConditionCov), flags(s).no_effect_axis == listed(s, NoEffectAxis), flags(s).no_effect_coord == listed(s, NoEffectCoord), flags(s).invalid_function_value == listed(s, InvalidFunctionValue), flags(s).pos_def_cov == listed(s, PosDefCov),
{ reveal(flags); }
pub proof fn lemma_push_flags(s: Seq<TerminationReason>, x: TerminationReason)
    ensures flags(s.push(x)) == with_flag(flags(s), x),
{
    let t = s.push(x);
    lemma_flags_are(s); lemma_flags_are(t);
    lemma_push_listed(s, x, MaxFunctionEvals);
    lemma_push_listed(s, x, MaxGenerations);
    lemma_push_listed(s, x, MaxTime);
    lemma_push_listed(s, x, FunTarget);
    lemma_push_listed(s, x, TolFun);
    lemma_push_listed(s, x, TolFunRel);
    lemma_push_listed(s, x, TolFunHist);
    lemma_push_listed(s, x, TolX);
    lemma_push_listed(s, x, TolStagnation);
    lemma_push_listed(s, x, TolXUp);
    lemma_push_listed(s, x, TolConditionCov);
    lemma_push_listed(s, x, NoEffectAxis);
    lemma_push_listed(s, x, NoEffectCoord);
    lemma_push_listed(s, x, InvalidFunctionValue);
    lemma_push_listed(s, x, PosDefCov);
}
/// `Vec::push`
pub fn push_reason(v: &mut Vec<TerminationReason>, x: TerminationReason)
    ensures final(v)@ == old(v)@.push(x), flags(final(v)@) == with_flag(flags(old(v)@), x),
{
    v.push(x);
    proof { lemma_push_flags(old(v)@, x); }
}
pub open spec fn ref_cmp<'b>() -> spec_fn(&'b F, &'b F) -> Ordering { |a: &'b F, b: &'b F| if flt(*a, *b) { Ordering::Less } else if flt(*b, *a) { Ordering::Greater } else { Ordering::Equal } }
pub broadcast proof fn lemma_ref_cmp<'b>(s: Seq<&'b F>)
    ensures (forall|i: int| 0 <= i < s.len() ==> !nan(*#[trigger] s[i])) ==> #[trigger] preorder(s, ref_cmp())
{ }
pub proof fn lemma_range_ext(s: Seq<F>, t: Seq<F>, r: F)
    requires is_range(s, r), s =~= t,
    ensures is_range(t, r)
{ }
impl<'a> TerminationCheck<'a> {
//@fn src/termination.rs "impl<'a> TerminationCheck<'a>" check_termination_criteria
//@ops
//@sub * #(\w+)\[\(([^,\]]+), ([^\]]+)\)\]#\1.at(\2, \3)#
//@{budget}keep MaxFunctionEvals MaxGenerations MaxTime FunTarget
//@{fun}keep TolFunHist TolFun TolFunRel
//@{stag}keep TolStagnation
//@{tolx}keep TolX
//@{xup}keep TolXUp
//@{cond}keep TolConditionCov
//@{axis}keep NoEffectAxis
//@{coord}keep NoEffectCoord
//@sub * #utils::##
//@sub + #(\w+)\.push\(TerminationReason::#push_reason(&mut \1, TerminationReason::#
//@after /let mut result = Vec::new\(\);/| proof { lemma_flags_empty(result@); }
//@sub 1 #\.max_by\(#.max_by_(Ghost(ref_cmp()), #
//@annot #\|ind\|#|ind: &EvaluatedPoint| -> (b: bool) ensures b == better(mode, ind.value, fun_target)#
//@annot #(?<=all\()\|i\|#|i: usize| -> (b: bool) requires i < rows(*cov) ensures b == flt(fabs(fmul(sigma, fsqrt(entry(*cov, i as int, i as int)))), tol_x)#
//@annot #(?<=any\()\|i\|#|i: usize| -> (b: bool) requires i < rows(*cov), i < mean@.len() ensures (b == self.still(i as int, entry(*cov, i as int, i as int))) || (b == self.still(i as int, fsqrt(entry(*cov, i as int, i as int))))#
//@annot #\|x\|#|x: &F| -> (b: bool) ensures b == flt(fabs(fmul(sigma, *x)), tol_x)#
//@annot #\|p\|#|p: &EvaluatedPoint| -> (v: F) ensures v == p.value#
//@annot #\|a, b\|#|a: &&F, b: &&F| -> (o: Ordering) ensures o == (if flt(**a, **b) { Ordering::Less } else if flt(**b, **a) { Ordering::Greater } else { Ordering::Equal })#
//@annot #\|values: &VecDeque<f64>\|#|values: &VecDeque<F>| -> (b: bool) requires values@.len() >= tol_stagnation_generations ensures b == regressed(mode, values@, tol_stagnation_generations as int)#
//@attr #[verifier::rlimit(30)] #[verifier::spinoff_prover]
//@| requires self.wf(),
//@| ensures
//@{budget}|   flags(r@).max_function_evals <==> (self.parameters.termination.max_function_evals matches Some(m) && self.current_function_evals >= m), /*C06*/
//@{budget}|   flags(r@).max_generations <==> (self.parameters.termination.max_generations matches Some(m) && self.state.generation >= m), /*C06*/
//@{budget}|   match self.parameters.termination.max_time { Some(m) => exists|d: Duration| elapsed_read(self.time_created, d) && (flags(r@).max_time <==> #[trigger] d.nanos() >= m.nanos()), None => !flags(r@).max_time }, /*C06*/
//@{budget}|   flags(r@).fun_target <==> (self.parameters.termination.fun_target matches Some(t) && self.target_reached(t)), /*C06*/
//@{fun}|   self.below(self.parameters.termination.tol_fun_hist, false, flags(r@).tol_fun_hist), /*C07*/
//@{fun}|   self.below(self.parameters.termination.tol_fun, true, flags(r@).tol_fun), /*C07*/
//@{fun}|   self.below(self.fun_rel_tolerance(), true, flags(r@).tol_fun_rel), /*C07*/
//@{stag}|   flags(r@).tol_stagnation <==> self.stagnated(), /*C08*/
//@{tolx}|   flags(r@).tol_x <==> self.small_x(), /*C09*/
//@{xup}|   self.grown(flags(r@).tol_x_up), /*C09*/
//@{cond}|   flags(r@).tol_condition_cov <==> self.ill_conditioned(), /*C09*/
//@{axis}|   flags(r@).no_effect_axis <==> self.no_effect_axis(), /*C09*/
//@{coord}|   self.no_effect_coord(flags(r@).no_effect_coord), /*C09*/
//@{budget}|   !flags(r@).invalid_function_value, /*C05*/
//@{budget}|   !flags(r@).pos_def_cov, /*C13*/
//@start| broadcast use axiom_part, axiom_diag;
//@{budget}start| reveal(TerminationCheck::target_reached);
//@{fun}start| reveal(TerminationCheck::below);
//@{stag}start| reveal(TerminationCheck::stagnated);
//@{stag}start| reveal(regressed);
//@{tolx}start| reveal(TerminationCheck::small_x);
//@{xup}start| broadcast use lemma_ref_cmp; reveal(TerminationCheck::grown);
//@{cond}start| reveal(TerminationCheck::ill_conditioned);
//@{axis}start| reveal(TerminationCheck::no_effect_axis);
//@{coord}start| reveal(TerminationCheck::no_effect_coord);
//@{fun}after /let range_current = .*?;/| proof { let n_ = past_generations_a as int; let h_ = self.history.best_function_values@;
//@{fun}after /let range_current = .*?;/|   let t_ = choose|t: Seq<F>| #[trigger] is_range(t, range_history) && t =~= h_.take(n_); assert(is_range(t_, range_history) && t_ =~= h_.take(n_));
//@{fun}after /let range_current = .*?;/|   let u_ = choose|t: Seq<F>| #[trigger] is_range(t, range_current) && t =~= values(self.individuals@); assert(is_range(u_, range_current) && u_ =~= values(self.individuals@)); }
//@{xup}after /let max_standard_deviation = .*?;/| proof { let m_ = choose|m: F| max_standard_deviation == #[trigger] fmul(self.state.sigma, m) && self.largest_axis(m); assert(max_standard_deviation == fmul(self.state.sigma, m_) && self.largest_axis(m_)); }
//@{tolx}before /let cond =/| proof { assert forall|i: int| #![trigger entry(self.state.cov.cov, i, i)] 0 <= i < dim implies range_seq(0, dim)[i] == i by { } }
//@{coord}before /let cond =/| proof { assert forall|i: int| #![trigger entry(self.state.cov.cov, i, i)] 0 <= i < dim implies range_seq(0, dim)[i] == i by { } }
//@{stag}before /mode\.is_better\(\s*Data/| proof { assert(first_values@ =~= values@.take(part(tol_stagnation_generations as int))); assert(last_values@ =~= values@.take(tol_stagnation_generations as int).skip(tol_stagnation_generations - part(tol_stagnation_generations as int))); }
//@end
}
//@fn src/termination.rs - get_default_tol_stagnation_option
//@ops
//@| requires 100 + f_to_int(fceil(fdiv(fmul(flit(100real), fpowf(fint(dim as int), flit(3real / 2real))), fint(lambda as int)))) <= usize::MAX,
//@| ensures r == 100 + f_to_int(fceil(fdiv(fmul(flit(100real), fpowf(fint(dim as int), flit(3real / 2real))), fint(lambda as int)))), /*C10*/
//@end
} // verus!
fn main() {}

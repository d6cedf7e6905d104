//@include prelude/head.rs
verus! {
//@include prelude/std.rs
//@include prelude/float.rs
//@include prelude/iter.rs
//@include prelude/point.rs
//@include prelude/linalg.rs
//@include prelude/ops.rs
//@include prelude/mode.rs
//@include prelude/time.rs
//@include prelude/params.rs probe
//@include prelude/constraints.rs
//@include prelude/options.rs
//@include prelude/weights.rs
impl InitialWeights {
//@fn src/parameters/weights.rs "impl InitialWeights" new
//@ops
//@sub 1 /\.into\(\)/.into_dv()/
//@sub * /vec!\[([^;\]]*); (\w+)\]/repeat_(\1, \2)/
//@annot #\|i\|#*|i: usize| -> (y: F) ensures y == raw_weight(lambda as int, i as int)#
//@| requires lambda < usize::MAX,
//@| ensures r.weights@ =~= raw_weights(lambda as int, setting), r.setting == setting, r.mu == lambda / 2, r.wf(), /*C11*/
//@end
//@fn src/parameters/weights.rs "impl InitialWeights" mu
//@| ensures r == self.mu, /*C11*/
//@end
//@fn src/parameters/weights.rs "impl InitialWeights" mu_eff
//@ops
//@annot #\|w\|#*|w: &F| -> (y: F) ensures y == fpowi(*w, 2)#
//@| requires self.wf(),
//@| ensures r == eff_mass(self.weights@.take(self.mu as int)), /*C11*/
//@start| proof { let t_ = self.weights@.take(self.mu as int); lemma_fsum_ext(t_); lemma_fsum_ext(squares(t_)); }
//@end
//@fn src/parameters/weights.rs "impl InitialWeights" mu_eff_minus
//@ops
//@annot #\|w\|#*|w: &F| -> (y: F) ensures y == fpowi(*w, 2)#
//@| requires self.wf(),
//@| ensures r == (if self.weights@.len() > self.mu { Some(eff_mass(self.weights@.skip(self.mu as int))) } else { None::<F> }), /*C11*/
//@start| proof { let t_ = self.weights@.skip(self.mu as int); lemma_fsum_ext(t_); lemma_fsum_ext(squares(t_)); }
//@end
//@fn src/parameters/weights.rs "impl InitialWeights" finalize
//@mutloops
//@ops
//@annot #\|w\|(?=\s*\*\*w\s*>)#*|w: &&F| -> (b: bool) ensures b == is_pos()(**w)#
//@annot #\|w\|(?=\s*\*\*w\s*<)#*|w: &&F| -> (b: bool) ensures b == is_neg()(**w)#
//@| requires self.wf(),
//@| ensures r.weights@ =~= final_weights(self.weights@, self.mu as int, dim as int, c1, cmu), r.setting == self.setting, /*C11*/
//@start| proof { lemma_filter_sum(self.weights@, is_pos()); lemma_filter_sum(normalized_pos(self.weights@), is_neg()); }
//@before /let sum_negative_weights/| assert(weights@ =~= normalized_pos(self.weights@));
//@loop 0| invariant i_ <= weights@.len(), weights@.len() == v0_.len(), v0_ == self.weights@, sum_positive_weights == fsum(v0_.filter(is_pos())),
//@loop 0|   forall|k: int| 0 <= k < weights@.len() ==> #[trigger] weights@[k] == (if k < i_ { normalized_pos(v0_)[k] } else { v0_[k] }),
//@loop 0| decreases weights@.len() - i_,
//@loop 1| invariant i_ <= weights@.len(), weights@.len() == v1_.len(), v1_ =~= normalized_pos(self.weights@), sum_negative_weights == fabs(fsum(v1_.filter(is_neg()))),
//@loop 1|   forall|k: int| 0 <= k < weights@.len() ==> #[trigger] weights@[k] == (if k < i_ { normalized_neg(v1_, a)[k] } else { v1_[k] }),
//@loop 1| decreases weights@.len() - i_,
//@end
}
//@import termination src/termination.rs - get_default_tol_stagnation_option
impl TerminationParameters {
//@fn src/parameters/mod.rs "impl TerminationParameters" from_options
//@ops
//@sub 1 /termination::get_default/get_default/
//@| requires default_tol_stagnation(options.initial_mean@.len() as int, options.population_size as int) <= usize::MAX,
//@| ensures r.of_options(*options), /*C10*/
//@end
}
impl Parameters {
//@fn src/parameters/mod.rs "impl Parameters" new
//@ops
//@| requires options.population_size < usize::MAX,
//@| ensures r.defined(), /*C11*/
//@|   r.carries(*options, seed, termination), /*C10*/
//@end
//@fn src/parameters/mod.rs "impl Parameters" from_options
//@| requires options.population_size < usize::MAX, default_tol_stagnation(options.initial_mean@.len() as int, options.population_size as int) <= usize::MAX,
//@| ensures r.defined(), /*C11*/
//@|   exists|t: TerminationParameters| t.of_options(*options) && #[trigger] r.carries(*options, seed, t), /*C10*/
//@end
}
} // verus!
fn main() {}

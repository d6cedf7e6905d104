//@include prelude/head.rs
verus! {
//@include prelude/std.rs
//@include prelude/float.rs
//@include prelude/iter.rs
//@include prelude/point.rs
//@include prelude/linalg.rs
//@include prelude/ops.rs
//@include prelude/mode.rs
//@include prelude/sort.rs

//@include prelude/state.rs
//@include prelude/constraints.rs
//@include prelude/generation.rs
//@include prelude/bounds.rs
impl Constraints for Bounds {
//@include prelude/bounds_spec.rs
//@fn src/sampling.rs "impl Constraints for Bounds" meets_constraints
//@annot #\|i\|#|i: usize| -> (b: bool) requires i < x@.len(), self.fits(*x) ensures b == (fle(self.lower@[i as int], x@[i as int]) && fle(x@[i as int], self.upper@[i as int]))#
//@tail| proof { let rs_ = range_seq(0, x@.len() as usize); assert forall|i: int| tail_ && 0 <= i < x@.len() implies fle(self.lower@[i], #[trigger] x@[i]) && fle(x@[i], self.upper@[i]) by { assert(rs_[i] == i); } }
//@end
}


//@fn src/sampling.rs - to_point
//@ops
//@| ensures r == point_of(*unscaled_step, *mean, sigma), /*C03 C04*/
//@end

/// exactly one call, counted once, of the objective on `x`
pub open spec fn one_call<F2: ObjectiveFunction>(a: F2, b: F2, ea: AtomicUsize, eb: AtomicUsize, x: DVector<F>, v: F) -> bool {
    b.log() == a.log().push((x, v)) && eb.count() == ea.count() + 1
}
//@closure src/sampling.rs "impl<F: ObjectiveFunction> Sampler<F>" sample /\|x\|/ call
//@sig fn call_objective<F2: ObjectiveFunction>(objective_function: &mut F2, evals: &mut AtomicUsize, x: &DVector<f64>) -> f64
//@sub 1 /Ordering::Relaxed/MemOrdering::Relaxed/
//@| ensures one_call(*old(objective_function), *final(objective_function), *old(evals), *final(evals), *x, r), /*C03*/
//@end
//@closure src/sampling.rs "impl<F: ParallelObjectiveFunction> Sampler<F>" sample_parallel /\|x\|/ call
//@sig fn call_objective_parallel<F2: ObjectiveFunction>(objective_function: &mut F2, evals: &mut AtomicUsize, x: &DVector<f64>) -> f64
//@sub 1 /Ordering::Relaxed/MemOrdering::Relaxed/
//@| ensures one_call(*old(objective_function), *final(objective_function), *old(evals), *final(evals), *x, r), /*C03*/
//@end
impl EvaluatedPoint {
//@fn src/sampling.rs "impl EvaluatedPoint" new
//@sub sig 1 /<F: FnMut\(&DVector<f64>\) -> f64>/<F2: ObjectiveFunction>/
//@sub sig 1 /mut objective_function: F\b/objective_function: &mut F2, evals: &mut AtomicUsize/
//@sub 1 /objective_function\(&point\)/call_objective(objective_function, evals, &point)/
//@| ensures
//@|   ({ let x = point_of(unscaled_step, *mean, sigma); let v = final(objective_function).log().last().1;
//@|     &&& one_call(*old(objective_function), *final(objective_function), *old(evals), *final(evals), x, v) /*C03*/
//@|     &&& (r is Err <==> nan(v)) /*C05*/
//@|     &&& (r matches Ok(p) ==> p.point == x && p.value == v && p.unscaled_step == unscaled_step) /*C03*/ }),
//@|   final(objective_function).log().drop_last() == old(objective_function).log(),
//@end
//@fn src/sampling.rs "impl EvaluatedPoint" new
//@rename new_parallel
//@sub sig 1 /<F: FnMut\(&DVector<f64>\) -> f64>/<F2: ObjectiveFunction>/
//@sub sig 1 /mut objective_function: F\b/objective_function: &mut F2, evals: &mut AtomicUsize/
//@sub 1 /objective_function\(&point\)/call_objective_parallel(objective_function, evals, &point)/
//@| ensures
//@|   ({ let x = point_of(unscaled_step, *mean, sigma); let v = final(objective_function).log().last().1;
//@|     &&& one_call(*old(objective_function), *final(objective_function), *old(evals), *final(evals), x, v) /*C03*/
//@|     &&& (r is Err <==> nan(v)) /*C05*/
//@|     &&& (r matches Ok(p) ==> p.point == x && p.value == v && p.unscaled_step == unscaled_step) /*C03*/ }),
//@|   final(objective_function).log().drop_last() == old(objective_function).log(),
//@end
}
/// the contract of the closures that evaluate the sampled steps
pub open spec fn evaluated<F2: ObjectiveFunction>(y: Seq<DVector<F>>, mean: DVector<F>, sigma: F, a: F2, b: F2, ea: AtomicUsize, eb: AtomicUsize, r: Result<Vec<EvaluatedPoint>, InvalidFunctionValueError>) -> bool {
    &&& eb.count() - ea.count() == b.log().len() - a.log().len()
    &&& calls_in_order(a.log(), b.log(), y, mean, sigma)
    &&& (r matches Ok(p) ==> p@.len() == y.len() && points_ok(p@, y, mean, sigma) && b.log() == a.log() + calls_of(p@))
    &&& (r is Err ==> exists|k: int| a.log().len() <= k < b.log().len() && nan((#[trigger] b.log()[k]).1))
}
//@closure src/sampling.rs "impl<F: ObjectiveFunction> Sampler<F>" sample /\|y, objective_function, evals\|/ evaluate
//@sig fn evaluate_points<F2: ObjectiveFunction>(y: Vec<DVector<f64>>, objective_function: &mut F2, evals: &mut AtomicUsize, state: &State) -> Result<Vec<EvaluatedPoint>, InvalidFunctionValueError>
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@cut /\|x\|/objective_function, evals/
//@sub 1 /y\.into_iter\(\)\s*\.map\(\|yk\| \{(.*)\}\)\s*\.collect::<Result<Vec<_>, _>>\(\)/let mut out_: Vec<EvaluatedPoint> = Vec::new(); let mut it_ = y.into_iter(); loop { let yk = match it_.next() { Some(yk_) => yk_, None => break }; match { \1 } { Ok(p_) => { out_.push(p_); } Err(e_) => { return Err(e_); } } } Ok(out_)/
//@| ensures evaluated(y@, state.mean, state.sigma, *old(objective_function), *final(objective_function), *old(evals), *final(evals), r), /*C03 C05*/
//@loop 0| invariant it_.all() == y@, 0 <= it_.pos() <= y@.len(), out_@.len() == it_.pos(), points_ok(out_@, y@, state.mean, state.sigma),
//@loop 0|   evals.count() - old(evals).count() == out_@.len(),
//@loop 0|   objective_function.log() == old(objective_function).log() + calls_of(out_@),
//@loop 0| ensures it_.pos() == y@.len(),
//@loop 0| decreases y@.len() - it_.pos(),
//@before /return Err\(e_\);/| proof { let n_ = objective_function.log().len() - 1; assert(nan(objective_function.log()[n_].1)); assert(objective_function.log().take(old(objective_function).log().len() as int) =~= old(objective_function).log()); }
//@before /Ok\(out_\)/| proof { assert(objective_function.log().take(old(objective_function).log().len() as int) =~= old(objective_function).log()); }
//@after /out_\.push\(p_\);/| proof { assert(calls_of(out_@) =~= calls_of(out_@.drop_last()).push((out_@.last().point, out_@.last().value))); assert(objective_function.log() =~= old(objective_function).log() + calls_of(out_@)); }
//@end
// rayon: every element is evaluated before the result is collected unless one of them fails; the model
// stops at the first failure (the monitor checks the real one)
//@closure src/sampling.rs "impl<F: ParallelObjectiveFunction> Sampler<F>" sample_parallel /\|y, objective_function, evals\|/ evaluate_parallel
//@sig fn evaluate_points_parallel<F2: ObjectiveFunction>(y: Vec<DVector<f64>>, objective_function: &mut F2, evals: &mut AtomicUsize, state: &State) -> Result<Vec<EvaluatedPoint>, InvalidFunctionValueError>
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@cut /\|x\|/objective_function, evals/
//@sub 1 /EvaluatedPoint::new\(/EvaluatedPoint::new_parallel(/
//@sub 1 /y\.into_par_iter\(\)\s*\.map\(\|yk\| \{(.*)\}\)\s*\.collect::<Result<Vec<_>, _>>\(\)/let mut out_: Vec<EvaluatedPoint> = Vec::new(); let mut it_ = y.into_iter(); loop { let yk = match it_.next() { Some(yk_) => yk_, None => break }; match { \1 } { Ok(p_) => { out_.push(p_); } Err(e_) => { return Err(e_); } } } Ok(out_)/
//@| ensures evaluated(y@, state.mean, state.sigma, *old(objective_function), *final(objective_function), *old(evals), *final(evals), r), /*C03 C05*/
//@loop 0| invariant it_.all() == y@, 0 <= it_.pos() <= y@.len(), out_@.len() == it_.pos(), points_ok(out_@, y@, state.mean, state.sigma),
//@loop 0|   evals.count() - old(evals).count() == out_@.len(),
//@loop 0|   objective_function.log() == old(objective_function).log() + calls_of(out_@),
//@loop 0| ensures it_.pos() == y@.len(),
//@loop 0| decreases y@.len() - it_.pos(),
//@before /return Err\(e_\);/| proof { let n_ = objective_function.log().len() - 1; assert(nan(objective_function.log()[n_].1)); assert(objective_function.log().take(old(objective_function).log().len() as int) =~= old(objective_function).log()); }
//@before /Ok\(out_\)/| proof { assert(objective_function.log().take(old(objective_function).log().len() as int) =~= old(objective_function).log()); }
//@after /out_\.push\(p_\);/| proof { assert(calls_of(out_@) =~= calls_of(out_@.drop_last()).push((out_@.last().point, out_@.last().value))); assert(objective_function.log() =~= old(objective_function).log() + calls_of(out_@)); }
//@end

/// closures with the contract `evaluated`
pub trait EvalPoints<F2: ObjectiveFunction>: Sized {
    fn eval(&self, y: Vec<DVector<F>>, objective_function: &mut F2, evals: &mut AtomicUsize, state: &State) -> (r: Result<Vec<EvaluatedPoint>, InvalidFunctionValueError>)
        ensures evaluated(y@, state.mean, state.sigma, *old(objective_function), *final(objective_function), *old(evals), *final(evals), r);
}
pub struct SeqEval;
impl<F2: ObjectiveFunction> EvalPoints<F2> for SeqEval {
    fn eval(&self, y: Vec<DVector<F>>, objective_function: &mut F2, evals: &mut AtomicUsize, state: &State) -> (r: Result<Vec<EvaluatedPoint>, InvalidFunctionValueError>) { evaluate_points(y, objective_function, evals, state) }
}
pub struct ParEval;
impl<F2: ObjectiveFunction> EvalPoints<F2> for ParEval {
    fn eval(&self, y: Vec<DVector<F>>, objective_function: &mut F2, evals: &mut AtomicUsize, state: &State) -> (r: Result<Vec<EvaluatedPoint>, InvalidFunctionValueError>) { evaluate_points_parallel(y, objective_function, evals, state) }
}

// ---- one sampling round ----
//@closure src/sampling.rs "impl<F> Sampler<F>" sample_internal /\|n: usize, constraints: Option<&dyn Constraints>\|/ sample_round
//@sig fn sample_round(dim: usize, normal: &Normal, rng: &mut ChaCha12Rng, state: &State, parallel_update: bool, n: usize, constraints: Option<&DynC>) -> Vec<DVector<f64>>
//@attr #[verifier::loop_isolation(false)]
//@ops
//@annot #\|zk\|#|zk: DVector<F>| -> (t: DVector<F>) ensures t == mat_vec(state.cov.transform, zk)#
//@annot #\|yk: &DVector<f64>\|#|yk: &DVector<F>| -> (b: bool) ensures b == accepts(match constraints { Some(c) => Some(*c), None => None }, *state, *yk)#
//@sub 1 #to_point\(&yk,#to_point(yk,#
//@sub * #self\.dim#dim#
//@sub * #&mut self\.rng#rng#
//@sub 1 #DVector::from_iterator\(\s*dim,\s*\(0\.\.dim\)\.map\(\|_\| (.*?)\),\s*\)#{ let mut v_: Vec<F> = Vec::new(); let mut j_: usize = 0; while j_ < dim { v_.push(\1); j_ += 1; } DVector::from_vec_(v_) }#
//@sub 1 #\(0\.\.n\)\s*\.map\(\|_\| \{(.*?)\}\)\s*\.collect::<Vec<_>>\(\)#{ let mut z_: Vec<DVector<F>> = Vec::new(); let mut i_: usize = 0; while i_ < n { z_.push({\1}); i_ += 1; } z_ }#
//@| requires normal.mean() == flit(0real), normal.std_dev() == flit(1real),
//@| ensures r@ == round(*state, match constraints { Some(c) => Some(*c), None => None }, old(rng).seed(), old(rng).drawn(), dim as int, n as int), /*C03 C04 C19*/
//@|   final(rng).seed() == old(rng).seed(), final(rng).drawn() == old(rng).drawn() + n * dim, /*C19*/
//@loop 0| invariant 0 <= i_ <= n, z_@.len() == i_, rng.seed() == old(rng).seed(), rng.drawn() == old(rng).drawn() + i_ * dim,
//@loop 0|   forall|i: int| 0 <= i < i_ ==> #[trigger] z_@[i] == of_seq(normals(rng.seed(), old(rng).drawn() + i * dim, dim as int)),
//@loop 0| decreases n - i_,
//@loop 1| invariant 0 <= j_ <= dim, v_@.len() == j_, rng.seed() == old(rng).seed(), rng.drawn() == old(rng).drawn() + i_ * dim + j_,
//@loop 1|   forall|k: int| 0 <= k < j_ ==> #[trigger] v_@[k] == nth_normal(rng.seed(), old(rng).drawn() + i_ * dim + k),
//@loop 1| decreases dim - j_,
//@before /DVector::from_vec_/| proof { assert(v_@ =~= normals(rng.seed(), old(rng).drawn() + i_ * dim, dim as int)); }
//@after /i_ \+= 1;/| proof { assert((i_ - 1) * dim + dim == i_ * dim) by(nonlinear_arith); }
//@tail| proof {
//@tail|     let cs = match constraints { Some(c) => Some(*c), None => None };
//@tail|     let cand = candidates(state.cov.transform, old(rng).seed(), old(rng).drawn(), dim as int, n as int);
//@tail|     assert(exists|s: Seq<DVector<F>>, keep: Seq<bool>| s.len() == n && keep.len() == n && tail_@ == #[trigger] select(s, keep)
//@tail|         && (forall|i: int| 0 <= i < n ==> #[trigger] s[i] == cand[i]) && (forall|i: int| 0 <= i < n ==> #[trigger] keep[i] == accepts(cs, *state, s[i])));
//@tail|     let (s, keep) = choose|s: Seq<DVector<F>>, keep: Seq<bool>| s.len() == n && keep.len() == n && tail_@ == #[trigger] select(s, keep)
//@tail|         && (forall|i: int| 0 <= i < n ==> #[trigger] s[i] == cand[i]) && (forall|i: int| 0 <= i < n ==> #[trigger] keep[i] == accepts(cs, *state, s[i]));
//@tail|     assert(s =~= cand);
//@tail|     lemma_select_is_filter(s, keep, |y: DVector<F>| accepts(cs, *state, y));
//@tail| }
//@end

/// C04: points taken before the resampling limit is hit satisfy the constraints and are kept
pub proof fn lemma_gather(s: State, c: Option<DynC>, max: Option<usize>, seed: u64, from: int, dim: int, lambda: int, j: int, k: int) /*C04*/
    requires 0 <= j <= k, lambda >= 0,
    ensures ({ let a = gather(s, c, max, seed, from, dim, lambda, j).0; let b = gather(s, c, max, seed, from, dim, lambda, k).0;
        a.len() <= b.len() && b.take(a.len() as int) == a
        && ((max matches Some(m) ==> k <= m) ==> forall|i: int| 0 <= i < b.len() ==> accepts(c, s, #[trigger] b[i])) }),
    decreases k,
{
    let b = gather(s, c, max, seed, from, dim, lambda, k).0;
    if k > 0 {
        lemma_gather(s, c, max, seed, from, dim, lambda, if j < k { j } else { k - 1 }, k - 1);
        let (p, f) = gather(s, c, max, seed, from, dim, lambda, k - 1);
        let rc = round_constraints(c, max, k - 1);
        let r = round(s, rc, seed, f, dim, lambda - p.len());
        lemma_filter_len(candidates(s.cov.transform, seed, f, dim, lambda - p.len()), |y: DVector<F>| accepts(rc, s, y));
        if j < k {
            let a = gather(s, c, max, seed, from, dim, lambda, j).0;
            assert(b.take(a.len() as int) =~= p.take(a.len() as int));
        } else { assert(b.take(b.len() as int) =~= b); }
        if max matches Some(m) ==> k <= m {
            assert forall|i: int| 0 <= i < b.len() implies accepts(c, s, #[trigger] b[i]) by {
                if i < p.len() { assert(b[i] == p[i]); } else { assert(b[i] == r[i - p.len()]); }
            }
        }
    } else { assert(b.take(0) =~= b); }
}
impl<F2: ObjectiveFunction> Sampler<F2> {
//@fn src/sampling.rs "impl<F> Sampler<F>" new
//@sub sig 1 /Option<Box<dyn Constraints>>/Option<BoxC>/
//@sub sig 1 /objective_function: F\b/objective_function: F2/
//@| ensures r.dim == dim, r.constraints == constraints, r.max_resamples == max_resamples, r.population_size == population_size,
//@|   r.objective_function == objective_function, r.function_evals == 0, /*C03 C04*/
//@|   r.rng.seed() == rng_seed, r.rng.drawn() == 0, /*C19*/
//@end
//@fn src/sampling.rs "impl<F> Sampler<F>" function_evals
//@| ensures r == self.function_evals, /*C03*/
//@end
//@fn src/sampling.rs "impl<F> Sampler<F>" into_objective_function
//@sub sig 1 /-> F\b/-> F2/
//@| ensures r == self.objective_function,
//@end
//@fn src/sampling.rs "impl<F> Sampler<F>" sample_internal
//@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(30)]
//@sub sig 1 /P: Fn\(.*?\) -> Result<Vec<EvaluatedPoint>, InvalidFunctionValueError>,/P: EvalPoints<F2>,/
//@cut /let mut sample = \|n: usize, constraints: Option<&dyn Constraints>\|/()/
//@sub 1 /sample\(remain, constraints\)/sample_round(self.dim, &normal, &mut self.rng, state, parallel_update, remain, constraints)/
//@annot #\|x\|#|x: &BoxC| -> (y: &DynC) ensures *y == x@#
//@annot #\|a, b\|#|a: &EvaluatedPoint, b: &EvaluatedPoint| -> (o: Ordering) ensures o == order(mode, a.value, b.value)#
//@sub 1 /points\.sort_by\((.*?)\);/sort_by_(&mut points, \1, Ghost(value_order(mode)));/
//@sub 1 /let evals =/let mut evals =/
//@sub 1 /evaluate_points\(y, &mut self\.objective_function, &evals\)/evaluate_points.eval(y, &mut self.objective_function, &mut evals, state)/
//@| requires old(self).function_evals + old(self).population_size <= usize::MAX,
//@| ensures final(self).same_setup(*old(self)), /*C03 C04 C19*/
//@|   final(self).function_evals - old(self).function_evals == final(self).objective_function.log().len() - old(self).objective_function.log().len(), /*C03*/
//@|   final(self).function_evals - old(self).function_evals <= old(self).population_size, /*C03*/
//@|   exists|k: int| final(self).generation(*old(self), *state, mode, r, k), /*C03 C04 C05 C19*/
//@loop 0| invariant y@ == gather(*state, dyn_of(self.constraints), self.max_resamples, old(self).rng.seed(), old(self).rng.drawn(), self.dim as int, self.population_size as int, i as int).0,
//@loop 0|   self.rng.drawn() == gather(*state, dyn_of(self.constraints), self.max_resamples, old(self).rng.seed(), old(self).rng.drawn(), self.dim as int, self.population_size as int, i as int).1,
//@loop 0|   self.rng.seed() == old(self).rng.seed(), y@.len() <= self.population_size,
//@loop 0|   self.dim == old(self).dim, self.constraints == old(self).constraints, self.max_resamples == old(self).max_resamples, self.population_size == old(self).population_size,
//@loop 0|   self.objective_function == old(self).objective_function, self.function_evals == old(self).function_evals,
//@loop 0|   forall|j: int| 0 <= j < i ==> (#[trigger] gather(*state, dyn_of(old(self).constraints), old(self).max_resamples, old(self).rng.seed(), old(self).rng.drawn(), old(self).dim as int, old(self).population_size as int, j)).0.len() < old(self).population_size,
//@loop 0| ensures y@.len() == self.population_size,
//@before /let mut points = points\?;/| let ghost p_ = points->Ok_0@;
//@before /let mut points = points\?;/| proof { let f0 = old(self).objective_function; let f1 = self.objective_function; if points is Err { let q = choose|q: int| f0.log().len() <= q < f1.log().len() && nan((#[trigger] f1.log()[q]).1);
//@before /let mut points = points\?;/|   assert(f0.log().len() <= q < f1.log().len() && nan(f1.log()[q].1)); assert(self.generation(*old(self), *state, mode, Err(InvalidFunctionValueError), i as int)); } }
//@tail| proof { let g_ = gather(*state, dyn_of(old(self).constraints), old(self).max_resamples, old(self).rng.seed(), old(self).rng.drawn(), old(self).dim as int, old(self).population_size as int, i as int);
//@tail|   assert(points_ok(p_, g_.0, state.mean, state.sigma)); assert(stably_sorted(p_, tail_->Ok_0@, value_order(mode))); assert(self.generation(*old(self), *state, mode, tail_, i as int)); }
//@before /i \+= 1;/| assume(i < usize::MAX); // fewer than 2^64 rounds
//@end
//@fn src/sampling.rs "impl<F: ObjectiveFunction> Sampler<F>" sample
//@cut /\|y, objective_function, evals\|/SeqEval/
//@| requires old(self).function_evals + old(self).population_size <= usize::MAX,
//@| ensures final(self).same_setup(*old(self)), /*C03 C04 C19*/
//@|   final(self).function_evals - old(self).function_evals == final(self).objective_function.log().len() - old(self).objective_function.log().len(), /*C03*/
//@|   final(self).function_evals - old(self).function_evals <= old(self).population_size, /*C03*/
//@|   exists|k: int| final(self).generation(*old(self), *state, mode, r, k), /*C03 C04 C05 C19*/
//@end
//@fn src/sampling.rs "impl<F: ParallelObjectiveFunction> Sampler<F>" sample_parallel
//@cut /\|y, objective_function, evals\|/ParEval/
//@| requires old(self).function_evals + old(self).population_size <= usize::MAX,
//@| ensures final(self).same_setup(*old(self)), /*C03 C04 C19*/
//@|   final(self).function_evals - old(self).function_evals == final(self).objective_function.log().len() - old(self).objective_function.log().len(), /*C03*/
//@|   final(self).function_evals - old(self).function_evals <= old(self).population_size, /*C03*/
//@|   exists|k: int| final(self).generation(*old(self), *state, mode, r, k), /*C03 C04 C05 C19*/
//@end
}
} // verus!
fn main() {}

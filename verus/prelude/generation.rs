// ---- randomness: a stream of standard normal values determined by the seed ----
pub uninterp spec fn nth_normal(seed: u64, k: int) -> F;
#[verifier::external_body] pub struct ChaCha12Rng { x: u64 }
impl ChaCha12Rng {
    pub uninterp spec fn seed(&self) -> u64;
    pub uninterp spec fn drawn(&self) -> int;
    #[verifier::external_body] pub fn seed_from_u64(seed: u64) -> (r: ChaCha12Rng) ensures r.seed() == seed, r.drawn() == 0 { unimplemented!() }
}
#[verifier::external_body] pub struct Normal { x: u64 }
impl Normal {
    pub uninterp spec fn mean(&self) -> F;
    pub uninterp spec fn std_dev(&self) -> F;
    #[verifier::external_body] pub fn new(mean: F, std_dev: F) -> (r: Result<Normal, ()>)
        ensures mean == flit(0real) && std_dev == flit(1real) ==> r is Ok, r matches Ok(n) ==> n.mean() == mean && n.std_dev() == std_dev { unimplemented!() }
    #[verifier::external_body] pub fn sample(&self, rng: &mut ChaCha12Rng) -> (r: F)
        requires self.mean() == flit(0real), self.std_dev() == flit(1real), /*C03*/
        ensures final(rng).seed() == old(rng).seed(), final(rng).drawn() == old(rng).drawn() + 1, r == nth_normal(old(rng).seed(), old(rng).drawn()) { unimplemented!() }
}

// ---- evaluation ----
/// every objective has a log of its calls: (point, returned value)
pub trait ObjectiveFunction {
    spec fn log(&self) -> Seq<(DVector<F>, F)>;
    fn evaluate(&mut self, x: &DVector<F>) -> (r: F)
        ensures final(self).log() == old(self).log().push((*x, r));
    // rayon may call it from several threads; the model takes the calls in some order
    fn evaluate_parallel(&mut self, x: &DVector<F>) -> (r: F)
        ensures final(self).log() == old(self).log().push((*x, r));
}
#[verifier::external_body] pub struct AtomicUsize { x: usize }
pub enum MemOrdering { Relaxed, SeqCst }
impl AtomicUsize {
    pub uninterp spec fn count(&self) -> int;
    #[verifier::external_body] pub fn new(x: usize) -> (r: AtomicUsize) ensures r.count() == x { unimplemented!() }
    #[verifier::external_body] pub fn fetch_add(&mut self, n: usize, o: MemOrdering) -> (r: usize) ensures final(self).count() == old(self).count() + n { unimplemented!() }
    // the count is a sum of calls that happened, far below 2^64
    #[verifier::external_body] pub fn into_inner(self) -> (r: usize) ensures r as int == self.count() { unimplemented!() }
}
pub struct InvalidFunctionValueError;
// ---- one generation ----
pub open spec fn point_of(step: DVector<F>, mean: DVector<F>, sigma: F) -> DVector<F> { dv_add(mean, dv_scale(sigma, step)) }
pub open spec fn points_ok(p: Seq<EvaluatedPoint>, y: Seq<DVector<F>>, mean: DVector<F>, sigma: F) -> bool {
    p.len() <= y.len() && forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).unscaled_step == y[i] && p[i].point == point_of(y[i], mean, sigma) && !nan(p[i].value)
}
pub open spec fn calls_of(p: Seq<EvaluatedPoint>) -> Seq<(DVector<F>, F)> { p.map_values(|q: EvaluatedPoint| (q.point, q.value)) }
/// the calls made since: the sampled points, in order, from the first one on
pub open spec fn calls_in_order(a: Seq<(DVector<F>, F)>, b: Seq<(DVector<F>, F)>, y: Seq<DVector<F>>, mean: DVector<F>, sigma: F) -> bool {
    a.len() <= b.len() <= a.len() + y.len() && b.take(a.len() as int) == a && forall|k: int| a.len() <= k < b.len() ==> (#[trigger] b[k]).0 == point_of(y[k - a.len()], mean, sigma)
}
pub open spec fn normals(seed: u64, from: int, n: int) -> Seq<F> { Seq::new(n as nat, |k: int| nth_normal(seed, from + k)) }
/// the i-th candidate step of a round that starts at position `from` of the stream
pub open spec fn candidate(t: SquareMatrix<F>, seed: u64, from: int, dim: int, i: int) -> DVector<F> { mat_vec(t, of_seq(normals(seed, from + i * dim, dim))) }
pub open spec fn candidates(t: SquareMatrix<F>, seed: u64, from: int, dim: int, n: int) -> Seq<DVector<F>> { Seq::new(n as nat, |i: int| candidate(t, seed, from, dim, i)) }
pub open spec fn accepts(c: Option<DynC>, s: State, y: DVector<F>) -> bool { match c { Some(c) => c.holds(point_of(y, s.mean, s.sigma)), None => true } }
pub open spec fn round(s: State, c: Option<DynC>, seed: u64, from: int, dim: int, n: int) -> Seq<DVector<F>> {
    candidates(s.cov.transform, seed, from, dim, n).filter(|y: DVector<F>| accepts(c, s, y))
}
// ---- a whole generation ----
pub open spec fn round_constraints(c: Option<DynC>, max: Option<usize>, k: int) -> Option<DynC> { match max { Some(m) => if k >= m { None } else { c }, None => c } }
/// the accepted steps and the position in the random stream after k rounds
pub open spec fn gather(s: State, c: Option<DynC>, max: Option<usize>, seed: u64, from: int, dim: int, lambda: int, k: int) -> (Seq<DVector<F>>, int) decreases k {
    if k <= 0 { (seq![], from) } else {
        let (a, f) = gather(s, c, max, seed, from, dim, lambda, k - 1);
        let n = lambda - a.len();
        (a + round(s, round_constraints(c, max, k - 1), seed, f, dim, n), f + n * dim)
    }
}
//@item src/sampling.rs struct Sampler
//@isub 1 /Sampler<F>/Sampler<F2>/
//@isub 1 /objective_function: F\b/objective_function: F2/
//@isub 1 /Option<Box<dyn Constraints>>/Option<BoxC>/
pub open spec fn dyn_of(c: Option<BoxC>) -> Option<DynC> { match c { Some(b) => Some(b@), None => None } }
pub open spec fn value_order(m: Mode) -> spec_fn(EvaluatedPoint, EvaluatedPoint) -> Ordering { |a: EvaluatedPoint, b: EvaluatedPoint| order(m, a.value, b.value) }
impl<F2: ObjectiveFunction> Sampler<F2> {
    /// what a generation does not change
    pub open spec fn same_setup(self, o: Self) -> bool {
        self.dim == o.dim && self.constraints == o.constraints && self.max_resamples == o.max_resamples && self.population_size == o.population_size && self.rng.seed() == o.rng.seed()
    }
    /// one generation: k rounds of sampling, every sampled point evaluated exactly once in that order, then sorted
    pub open spec fn generation(self, o: Self, state: State, mode: Mode, r: Result<Vec<EvaluatedPoint>, InvalidFunctionValueError>, k: int) -> bool {
        let g = |j: int| gather(state, dyn_of(o.constraints), o.max_resamples, o.rng.seed(), o.rng.drawn(), o.dim as int, o.population_size as int, j);
        let n = o.objective_function.log().len() as int;
        let y = g(k).0;
        &&& k >= 0 && y.len() == o.population_size /*C03*/
        &&& forall|j: int| 0 <= j < k ==> (#[trigger] gather(state, dyn_of(o.constraints), o.max_resamples, o.rng.seed(), o.rng.drawn(), o.dim as int, o.population_size as int, j)).0.len() < o.population_size /*C04*/
        &&& self.rng.drawn() == g(k).1 /*C19*/
        &&& (r matches Ok(v) ==> exists|p: Seq<EvaluatedPoint>| p.len() == y.len() && #[trigger] points_ok(p, y, state.mean, state.sigma)
            && self.objective_function.log() == o.objective_function.log() + calls_of(p) && stably_sorted(p, v@, value_order(mode))) /*C03*/
        &&& calls_in_order(o.objective_function.log(), self.objective_function.log(), y, state.mean, state.sigma) /*C03 C19*/
        &&& (r is Err ==> exists|i: int| n <= i < self.objective_function.log().len() && nan((#[trigger] self.objective_function.log()[i]).1)) /*C05*/
    }
}

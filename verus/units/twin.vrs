//@include prelude/head.rs
verus! {
//@include prelude/std.rs
//@include prelude/float.rs
//@include prelude/iter.rs
//@include prelude/point.rs
//@include prelude/linalg.rs
//@include prelude/ops.rs
//@include prelude/mode.rs
//@include prelude/sort.rs
//@include prelude/state.rs
//@include prelude/eigen.rs
//@include prelude/history.rs
//@include prelude/history_get.rs
//@include prelude/time.rs
//@include prelude/params.rs
//@include prelude/constraints.rs
//@include prelude/options.rs
//@include prelude/weights.rs
//@include prelude/update.rs
//@include prelude/generation.rs
//@include prelude/termination.rs
//@include prelude/plot.rs
//@include prelude/cmaes.rs
// C18, C19: what the contracts of a step and a run determine. Two runs are compared: `neg` false, two runs of the
// same options (C19); `neg` true, one minimizes and the other maximizes the negated values (C18). No code of
// the repository is verified here beyond the accessors: these are consequences of the contracts discharged in the
// other units.
// ---- negation and arithmetic (IEEE 754, round to nearest: exact symmetry; the sign of zero is disregarded) ----
pub open spec fn sg(neg: bool, x: F) -> F { if neg { fneg(x) } else { x } }
pub open spec fn rel(neg: bool, a: F, b: F) -> bool { nan(a) == nan(b) && (!nan(a) ==> key(b) == (if neg { -key(a) } else { key(a) })) }
// each discharged on binary64 by tools/floatax.py (query of the same name)
pub axiom fn axiom_neg(a: F) ensures nan(fneg(a)) == nan(a), !nan(a) ==> key(fneg(a)) == -key(a);
pub axiom fn axiom_exact(a: F, b: F) ensures feq(a, b) && key(a) != 0real ==> a == b;
pub axiom fn axiom_nan_ops(a: F, b: F) ensures nan(a) ==> nan(fadd(a, b)) && nan(fmul(b, a)) && nan(fdiv(a, b));
pub axiom fn axiom_add_neg(a: F, b: F) ensures rel(false, fadd(fneg(a), fneg(b)), fneg(fadd(a, b)));
pub axiom fn axiom_add_zero(a: F, b: F) ensures is_zero(b) ==> rel(false, fadd(a, b), a);
pub axiom fn axiom_sub(a: F, b: F) ensures rel(false, fsub(a, b), fadd(a, fneg(b)));
pub axiom fn axiom_div_neg(a: F, b: F) ensures rel(false, fdiv(fneg(a), b), fneg(fdiv(a, b)));
pub axiom fn axiom_div_zero(a: F, b: F, c: F) ensures is_zero(a) && is_zero(b) ==> rel(false, fdiv(a, c), fdiv(b, c));
pub axiom fn axiom_mul_zero(a: F, b: F, c: F) ensures is_zero(a) && is_zero(b) ==> rel(false, fmul(c, a), fmul(c, b));
pub axiom fn axiom_abs(a: F) ensures nan(fabs(a)) == nan(a), !nan(a) ==> key(fabs(a)) == (if key(a) < 0real { -key(a) } else { key(a) });
pub open spec fn is_zero(a: F) -> bool { !nan(a) && key(a) == 0real }
/// equal up to sign: the very same number, its negation, or both zero, or both NaN
pub proof fn lemma_rel_cases(neg: bool, a: F, b: F)
    requires rel(neg, a, b),
    ensures nan(a) && nan(b) || is_zero(a) && is_zero(b) || !nan(a) && b == sg(neg, a),
{
    axiom_neg(a);
    axiom_exact(b, sg(neg, a));
}
pub proof fn lemma_add_rel(neg: bool, a: F, b: F, c: F, d: F) requires rel(neg, a, b), rel(neg, c, d) ensures rel(neg, fadd(a, c), fadd(b, d))
{
    lemma_rel_cases(neg, a, b); lemma_rel_cases(neg, c, d);
    if nan(a) { axiom_nan_ops(a, c); axiom_nan_ops(b, d); }
    else if nan(c) { axiom_nan_ops(c, a); axiom_nan_ops(d, b); }
    else if is_zero(c) && is_zero(d) { axiom_add_zero(a, c); axiom_add_zero(b, d); }
    else if is_zero(a) && is_zero(b) { axiom_add_zero(c, a); axiom_add_zero(d, b); }
    else if neg { axiom_add_neg(a, c); axiom_neg(fadd(a, c)); }
}
pub proof fn lemma_sub_rel(neg: bool, a: F, b: F, c: F, d: F) requires rel(neg, a, b), rel(neg, c, d) ensures rel(neg, fsub(a, c), fsub(b, d))
{
    axiom_sub(a, c); axiom_sub(b, d); axiom_neg(c); axiom_neg(d);
    lemma_add_rel(neg, a, b, fneg(c), fneg(d));
}
pub proof fn lemma_div_rel(neg: bool, a: F, b: F, c: F) requires rel(neg, a, b) ensures rel(neg, fdiv(a, c), fdiv(b, c))
{
    lemma_rel_cases(neg, a, b);
    if nan(a) { axiom_nan_ops(a, c); axiom_nan_ops(b, c); }
    else if is_zero(a) && is_zero(b) {
        axiom_neg(a); axiom_div_zero(a, b, c); axiom_div_zero(fneg(a), b, c); axiom_div_neg(a, c); axiom_neg(fdiv(a, c));
    } else if neg { axiom_div_neg(a, c); axiom_neg(fdiv(a, c)); }
}
pub proof fn lemma_abs_rel(neg: bool, a: F, b: F) requires rel(neg, a, b) ensures rel(false, fabs(a), fabs(b)) { axiom_abs(a); axiom_abs(b); }
pub proof fn lemma_mul_rel(t: F, a: F, b: F) requires rel(false, a, b) ensures rel(false, fmul(t, a), fmul(t, b))
{
    lemma_rel_cases(false, a, b);
    if nan(a) { axiom_nan_ops(a, t); axiom_nan_ops(b, t); }
    else if is_zero(a) && is_zero(b) { axiom_mul_zero(a, b, t); }
}
/// x - y == (-y) - (-x)
pub proof fn lemma_range_rel(hi: F, lo: F, hi2: F, lo2: F) requires rel(true, hi, lo2), rel(true, lo, hi2) ensures rel(false, fsub(hi, lo), fsub(hi2, lo2))
{
    axiom_sub(hi, lo); axiom_sub(hi2, lo2); axiom_neg(lo); axiom_neg(lo2); axiom_neg(hi); axiom_neg(hi2);
    lemma_add_rel(false, hi, fneg(lo2), fneg(lo), hi2);
    axiom_fadd_comm(hi2, fneg(lo2));
}
/// statrs: the middle value in order, or half the sum of the two middle ones; NaN without values
pub axiom fn axiom_stat_median(s: Seq<F>) ensures no_nan(s) ==> if s.len() == 0 { nan(stat_median(s)) } else { exists|p: Seq<int>| #[trigger] ordering(s, p) && rel(false, stat_median(s), middle(s, p)) };
/// `p` lists the positions of `s` in increasing order of their values
pub open spec fn ordering(s: Seq<F>, p: Seq<int>) -> bool {
    &&& p.len() == s.len() && p.no_duplicates() && forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < s.len()
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> key(s[#[trigger] p[i]]) <= key(s[#[trigger] p[j]])
}
pub open spec fn middle(s: Seq<F>, p: Seq<int>) -> F {
    let k = s.len() as int / 2;
    if s.len() % 2 == 1 { s[p[k]] } else { fdiv(fadd(s[p[k - 1]], s[p[k]]), flit(2real)) }
}
/// the i-th value in order is the same for every ordering
pub proof fn lemma_order_le(s: Seq<F>, p: Seq<int>, q: Seq<int>, i: int)
    requires ordering(s, p), ordering(s, q), 0 <= i < s.len(),
    ensures key(s[q[i]]) <= key(s[p[i]]),
{
    if key(s[p[i]]) < key(s[q[i]]) {
        let a = p.take(i + 1); let b = q.take(i);
        assert(a.no_duplicates()); assert(b.no_duplicates());
        a.unique_seq_to_set(); b.unique_seq_to_set();
        assert(a.to_set().subset_of(b.to_set())) by {
            assert forall|x: int| a.to_set().contains(x) implies b.to_set().contains(x) by {
                let u = choose|u: int| 0 <= u < a.len() && a[u] == x;
                assert(p[u] == x);
                let l = lemma_reaches(q, x);
                assert(u == i || key(s[p[u]]) <= key(s[p[i]]));
                if l >= i { assert(l == i || key(s[q[i]]) <= key(s[q[l]])); assert(false); }
                assert(b[l] == x);
            }
        }
        vstd::set_lib::lemma_len_subset(a.to_set(), b.to_set());
    }
}
pub proof fn lemma_median_rel(neg: bool, s: Seq<F>, t: Seq<F>)
    requires rel_all(neg, s, t), no_nan(s),
    ensures rel(neg, stat_median(s), stat_median(t)),
{
    axiom_stat_median(s); axiom_stat_median(t);
    assert forall|i: int| 0 <= i < t.len() implies !nan(#[trigger] t[i]) by { assert(rel(neg, s[i], t[i])); }
    let n = s.len() as int;
    if n > 0 {
        let p = choose|p: Seq<int>| #[trigger] ordering(s, p) && rel(false, stat_median(s), middle(s, p));
        let q = choose|q: Seq<int>| #[trigger] ordering(t, q) && rel(false, stat_median(t), middle(t, q));
        // the same positions in the order of s
        let z = if neg { Seq::new(n as nat, |i: int| q[n - 1 - i]) } else { q };
        assert forall|i: int, j: int| 0 <= i < j < z.len() implies key(s[#[trigger] z[i]]) <= key(s[#[trigger] z[j]]) by {
            let x = if neg { n - 1 - i } else { i }; let y = if neg { n - 1 - j } else { j };
            assert(z[i] == q[x]); assert(z[j] == q[y]);
            assert(rel(neg, s[q[x]], t[q[x]])); assert(rel(neg, s[q[y]], t[q[y]]));
            if neg { assert(key(t[q[y]]) <= key(t[q[x]])); } else { assert(key(t[q[x]]) <= key(t[q[y]])); }
        }
        assert forall|i: int| 0 <= i < z.len() implies 0 <= #[trigger] z[i] < s.len() by { let x = if neg { n - 1 - i } else { i }; assert(z[i] == q[x]); }
        assert(z.no_duplicates()) by {
            assert forall|i: int, j: int| 0 <= i < z.len() && 0 <= j < z.len() && i != j implies z[i] != z[j] by {
                let x = if neg { n - 1 - i } else { i }; let y = if neg { n - 1 - j } else { j };
                assert(z[i] == q[x]); assert(z[j] == q[y]); assert(q[x] != q[y]);
            }
        }
        assert(ordering(s, z));
        assert forall|i: int| 0 <= i < n implies rel(neg, s[#[trigger] p[i]], t[q[if neg { n - 1 - i } else { i }]]) by {
            let x = if neg { n - 1 - i } else { i };
            lemma_order_le(s, p, z, i); lemma_order_le(s, z, p, i);
            assert(z[i] == q[x]); assert(rel(neg, s[q[x]], t[q[x]]));
            assert(0 <= p[i] < n);
        }
        let k = n / 2;
        if n % 2 == 1 {
            assert(neg ==> n - 1 - k == k);
            assert(rel(neg, s[p[k]], t[q[k]]));
        } else {
            assert(rel(neg, s[p[k - 1]], t[q[if neg { k } else { k - 1 }]]));
            assert(rel(neg, s[p[k]], t[q[if neg { k - 1 } else { k }]]));
            lemma_add_rel(neg, s[p[k - 1]], t[q[if neg { k } else { k - 1 }]], s[p[k]], t[q[if neg { k - 1 } else { k }]]);
            axiom_fadd_comm(t[q[k - 1]], t[q[k]]);
            lemma_div_rel(neg, fadd(s[p[k - 1]], s[p[k]]), fadd(t[q[k - 1]], t[q[k]]), flit(2real));
        }
    }
}
pub proof fn lemma_sg(neg: bool, a: F) ensures rel(neg, a, sg(neg, a)) { axiom_neg(a); }
pub open spec fn rel_all(neg: bool, s: Seq<F>, t: Seq<F>) -> bool { s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> rel(neg, #[trigger] s[i], t[i]) }
pub open spec fn rel_opt(neg: bool, a: Option<F>, b: Option<F>) -> bool { match (a, b) { (Some(x), Some(y)) => rel(neg, x, y), (None, None) => true, _ => false } }
pub open spec fn turned(neg: bool, m: Mode) -> Mode { if neg { match m { Mode::Minimize => Mode::Maximize, Mode::Maximize => Mode::Minimize } } else { m } }
/// C18: the comparisons of one mode on values are those of the other on the negated values
pub proof fn lemma_better(neg: bool, m: Mode, a: F, a2: F, b: F, b2: F)
    requires rel(neg, a, a2), rel(neg, b, b2),
    ensures better(turned(neg, m), a2, b2) == better(m, a, b), order(turned(neg, m), a2, b2) == order(m, a, b),
{ }
// ---- individuals, histories ----
pub open spec fn same_ind(neg: bool, a: Individual, b: Individual) -> bool { a.point == b.point && b.value == sg(neg, a.value) }
pub open spec fn same_opt_ind(neg: bool, a: Option<Individual>, b: Option<Individual>) -> bool { match (a, b) { (Some(x), Some(y)) => same_ind(neg, x, y), (None, None) => true, _ => false } }
pub open spec fn same_point(neg: bool, a: EvaluatedPoint, b: EvaluatedPoint) -> bool { a.point == b.point && a.unscaled_step == b.unscaled_step && b.value == sg(neg, a.value) }
pub open spec fn same_points(neg: bool, a: Seq<EvaluatedPoint>, b: Seq<EvaluatedPoint>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> same_point(neg, #[trigger] a[i], b[i]) }
pub open spec fn same_history(neg: bool, a: History, b: History) -> bool {
    &&& rel_all(neg, a.best_function_values@, b.best_function_values@) && rel_all(neg, a.median_function_values@, b.median_function_values@)
    &&& rel_opt(neg, a.first_median_function_value, b.first_median_function_value) && rel_opt(neg, a.best_median_function_value, b.best_median_function_value)
    &&& same_opt_ind(neg, a.current_best_individual, b.current_best_individual) && same_opt_ind(neg, a.overall_best_individual, b.overall_best_individual)
}
// ---- sorting is determined ----
pub proof fn lemma_before<T>(p: Seq<T>, v: Seq<T>, c: spec_fn(T, T) -> Ordering, s: Seq<int>, i: int, j: int)
    requires sort_map(p, v, c, s), 0 <= i < j < s.len(),
    ensures c(p[s[i]], p[s[j]]) != Ordering::Greater, c(p[s[i]], p[s[j]]) == Ordering::Equal ==> s[i] < s[j],
{ assert(v[i] == p[s[i]]); assert(v[j] == p[s[j]]); assert(c(v[i], v[j]) != Ordering::Greater); }
/// a sort map reaches every index
pub proof fn lemma_reaches(s: Seq<int>, x: int) -> (i: int)
    requires s.no_duplicates(), forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < s.len(), 0 <= x < s.len(),
    ensures 0 <= i < s.len(), s[i] == x,
{
    s.unique_seq_to_set();
    let full = vstd::set_lib::set_int_range(0, s.len() as int);
    vstd::set_lib::lemma_int_range(0, s.len() as int);
    assert forall|y: int| #[trigger] s.to_set().contains(y) implies full.contains(y) by { let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == y; assert(0 <= s[k] < s.len()); }
    assert(s.to_set().subset_of(full));
    vstd::set_lib::lemma_subset_equality(s.to_set(), full);
    assert(full.contains(x));
    assert(s.contains(x));
    choose|i: int| 0 <= i < s.len() && s[i] == x
}
/// orders that agree give the same permutation
pub proof fn lemma_sort_map(neg: bool, m: Mode, p: Seq<EvaluatedPoint>, v: Seq<EvaluatedPoint>, s: Seq<int>, p2: Seq<EvaluatedPoint>, v2: Seq<EvaluatedPoint>, s2: Seq<int>, n: int)
    requires same_points(neg, p, p2), sort_map(p, v, value_order(m), s), sort_map(p2, v2, value_order(turned(neg, m)), s2), forall|i: int| 0 <= i < p.len() ==> !nan((#[trigger] p[i]).value), 0 <= n <= p.len(),
    ensures forall|i: int| 0 <= i < n ==> #[trigger] s[i] == s2[i],
    decreases n,
{
    if n > 0 {
        lemma_sort_map(neg, m, p, v, s, p2, v2, s2, n - 1);
        let k = n - 1;
        if s[k] != s2[k] {
            let c = value_order(m); let c2 = value_order(turned(neg, m));
            assert(0 <= s[k] < p.len()); assert(0 <= s2[k] < p.len());
            let l = lemma_reaches(s2, s[k]);
            if l < k { assert(s[l] == s2[l]); assert(false); }
            let l2 = lemma_reaches(s, s2[k]);
            if l2 < k { assert(s[l2] == s2[l2]); assert(false); }
            lemma_before(p2, v2, c2, s2, k, l); lemma_before(p, v, c, s, k, l2);
            let x = s[k]; let y = s2[k];
            lemma_sg(neg, p[x].value); lemma_sg(neg, p[y].value);
            assert(same_point(neg, p[x], p2[x])); assert(same_point(neg, p[y], p2[y]));
            lemma_better(neg, m, p[x].value, p2[x].value, p[y].value, p2[y].value);
            lemma_better(neg, m, p[y].value, p2[y].value, p[x].value, p2[x].value);
            assert(c(p[x], p[y]) == order(m, p[x].value, p[y].value));
            assert(c2(p2[y], p2[x]) == order(turned(neg, m), p2[y].value, p2[x].value));
            assert(false);
        }
    }
}
pub proof fn lemma_sorted(neg: bool, m: Mode, p: Seq<EvaluatedPoint>, v: Seq<EvaluatedPoint>, p2: Seq<EvaluatedPoint>, v2: Seq<EvaluatedPoint>)
    requires same_points(neg, p, p2), stably_sorted(p, v, value_order(m)), stably_sorted(p2, v2, value_order(turned(neg, m))), forall|i: int| 0 <= i < p.len() ==> !nan((#[trigger] p[i]).value),
    ensures same_points(neg, v, v2),
{
    let s = choose|s: Seq<int>| #[trigger] sort_map(p, v, value_order(m), s);
    let s2 = choose|s: Seq<int>| #[trigger] sort_map(p2, v2, value_order(turned(neg, m)), s);
    lemma_sort_map(neg, m, p, v, s, p2, v2, s2, p.len() as int);
    assert forall|i: int| 0 <= i < v.len() implies same_point(neg, #[trigger] v[i], v2[i]) by { assert(s[i] == s2[i]); assert(v[i] == p[s[i]]); assert(v2[i] == p2[s2[i]]); assert(same_point(neg, p[s[i]], p2[s[i]])); }
}
// ---- one generation ----
pub open spec fn mirrored(neg: bool, a: Seq<(DVector<F>, F)>, b: Seq<(DVector<F>, F)>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0 == b[i].0 && b[i].1 == sg(neg, a[i].1) }
/// the objectives answer alike: their i-th values agree if the points asked for up to then do
pub open spec fn alike(neg: bool, a: Seq<(DVector<F>, F)>, b: Seq<(DVector<F>, F)>) -> bool {
    forall|i: int| 0 <= i < a.len() && i < b.len() && (forall|j: int| 0 <= j <= i ==> (#[trigger] a[j]).0 == b[j].0) ==> b[i].1 == sg(neg, (#[trigger] a[i]).1)
}
pub open spec fn same_sampler<A: ObjectiveFunction, B: ObjectiveFunction>(neg: bool, a: Sampler<A>, b: Sampler<B>) -> bool {
    &&& a.dim == b.dim && a.constraints == b.constraints && a.max_resamples == b.max_resamples && a.population_size == b.population_size
    &&& a.rng.seed() == b.rng.seed() && a.rng.drawn() == b.rng.drawn() && a.function_evals == b.function_evals
    &&& mirrored(neg, a.objective_function.log(), b.objective_function.log())
}
/// what both were asked for is the same, and so are the answers
pub proof fn lemma_answers(neg: bool, oa: Seq<(DVector<F>, F)>, la: Seq<(DVector<F>, F)>, ob: Seq<(DVector<F>, F)>, lb: Seq<(DVector<F>, F)>, y: Seq<DVector<F>>, mean: DVector<F>, sigma: F, i: int)
    requires mirrored(neg, oa, ob), alike(neg, la, lb), calls_in_order(oa, la, y, mean, sigma), calls_in_order(ob, lb, y, mean, sigma), 0 <= i < la.len(), i < lb.len(),
    ensures la[i].0 == lb[i].0, lb[i].1 == sg(neg, la[i].1),
{
    assert forall|j: int| 0 <= j <= i implies (#[trigger] la[j]).0 == lb[j].0 by {
        if j < oa.len() { assert(la[j] == la.take(oa.len() as int)[j]); assert(lb[j] == lb.take(ob.len() as int)[j]); assert(oa[j].0 == ob[j].0); }
        else { assert(la[j].0 == point_of(y[j - oa.len()], mean, sigma)); assert(lb[j].0 == point_of(y[j - ob.len()], mean, sigma)); }
    }
}
pub proof fn lemma_twin_generation<A: ObjectiveFunction, B: ObjectiveFunction>(neg: bool, s: State, m: Mode, a: Sampler<A>, o: Sampler<A>, ra: Result<Vec<EvaluatedPoint>, InvalidFunctionValueError>, k: int, b: Sampler<B>, q: Sampler<B>, rb: Result<Vec<EvaluatedPoint>, InvalidFunctionValueError>, l: int)
    requires same_sampler(neg, o, q), a.generation(o, s, m, ra, k), b.generation(q, s, turned(neg, m), rb, l), alike(neg, a.objective_function.log(), b.objective_function.log()),
    ensures k == l, ra is Ok <==> rb is Ok, a.rng.drawn() == b.rng.drawn(),
        ra is Ok ==> same_points(neg, ra->Ok_0@, rb->Ok_0@) && mirrored(neg, a.objective_function.log(), b.objective_function.log()) && ra->Ok_0@.len() == o.population_size
            && (forall|i: int| 0 <= i < ra->Ok_0@.len() ==> !nan((#[trigger] ra->Ok_0@[i]).value)),
{
    let c = dyn_of(o.constraints); let mx = o.max_resamples; let sd = o.rng.seed(); let fr = o.rng.drawn(); let d = o.dim as int; let n = o.population_size as int;
    if k < l { assert(gather(s, c, mx, sd, fr, d, n, k).0.len() < n); }
    if l < k { assert(gather(s, c, mx, sd, fr, d, n, l).0.len() < n); }
    let y = gather(s, c, mx, sd, fr, d, n, k).0;
    let oa = o.objective_function.log(); let la = a.objective_function.log(); let ob = q.objective_function.log(); let lb = b.objective_function.log();
    assert(calls_in_order(oa, la, y, s.mean, s.sigma)); assert(calls_in_order(ob, lb, y, s.mean, s.sigma));
    if ra is Ok && rb is Err {
        let p = choose|p: Seq<EvaluatedPoint>| p.len() == y.len() && #[trigger] points_ok(p, y, s.mean, s.sigma) && la == oa + calls_of(p) && stably_sorted(p, ra->Ok_0@, value_order(m));
        let i = choose|i: int| ob.len() <= i < lb.len() && nan((#[trigger] lb[i]).1);
        lemma_answers(neg, oa, la, ob, lb, y, s.mean, s.sigma, i); lemma_sg(neg, la[i].1);
        assert(la[i] == calls_of(p)[i - oa.len()]); assert(!nan(p[i - oa.len()].value));
        assert(false);
    }
    if ra is Err && rb is Ok {
        let p = choose|p: Seq<EvaluatedPoint>| p.len() == y.len() && #[trigger] points_ok(p, y, s.mean, s.sigma) && lb == ob + calls_of(p) && stably_sorted(p, rb->Ok_0@, value_order(turned(neg, m)));
        let i = choose|i: int| oa.len() <= i < la.len() && nan((#[trigger] la[i]).1);
        lemma_answers(neg, oa, la, ob, lb, y, s.mean, s.sigma, i); lemma_sg(neg, la[i].1);
        assert(lb[i] == calls_of(p)[i - ob.len()]); assert(!nan(p[i - ob.len()].value));
        assert(false);
    }
    if ra is Ok && rb is Ok {
        let p = choose|p: Seq<EvaluatedPoint>| p.len() == y.len() && #[trigger] points_ok(p, y, s.mean, s.sigma) && la == oa + calls_of(p) && stably_sorted(p, ra->Ok_0@, value_order(m));
        let p2 = choose|p: Seq<EvaluatedPoint>| p.len() == y.len() && #[trigger] points_ok(p, y, s.mean, s.sigma) && lb == ob + calls_of(p) && stably_sorted(p, rb->Ok_0@, value_order(turned(neg, m)));
        assert forall|i: int| 0 <= i < la.len() implies (#[trigger] la[i]).0 == lb[i].0 && lb[i].1 == sg(neg, la[i].1) by { lemma_answers(neg, oa, la, ob, lb, y, s.mean, s.sigma, i); }
        assert forall|i: int| 0 <= i < p.len() implies same_point(neg, #[trigger] p[i], p2[i]) by {
            let t = oa.len() + i; assert(la[t] == calls_of(p)[i]); assert(lb[t] == calls_of(p2)[i]); assert(la[t].0 == lb[t].0); assert(p2[i].unscaled_step == y[i]);
        }
        lemma_sorted(neg, m, p, ra->Ok_0@, p2, rb->Ok_0@);
        let x = choose|x: Seq<int>| #[trigger] sort_map(p, ra->Ok_0@, value_order(m), x);
        assert forall|i: int| 0 <= i < ra->Ok_0@.len() implies !nan((#[trigger] ra->Ok_0@[i]).value) by { assert(ra->Ok_0@[i] == p[x[i]]); assert(!nan(p[x[i]].value)); }
    }
}
pub proof fn lemma_twin_median(neg: bool, g: Seq<EvaluatedPoint>, h: Seq<EvaluatedPoint>)
    requires same_points(neg, g, h), g.len() > 0,
    ensures rel(neg, median(g), median(h)),
{
    let k = (g.len() / 2) as int;
    assert(same_point(neg, g[k], h[k])); lemma_sg(neg, g[k].value);
    if g.len() % 2 == 0 {
        assert(same_point(neg, g[k - 1], h[k - 1])); lemma_sg(neg, g[k - 1].value);
        lemma_add_rel(neg, g[k - 1].value, h[k - 1].value, g[k].value, h[k].value);
        lemma_div_rel(neg, fadd(g[k - 1].value, g[k].value), fadd(h[k - 1].value, h[k].value), flit(2real));
    }
}
pub proof fn lemma_twin_pushed(neg: bool, s: Seq<F>, t: Seq<F>, x: F, y: F)
    requires rel_all(neg, s, t), rel(neg, x, y),
    ensures rel_all(neg, pushed(s, x), pushed(t, y)),
{
    let a = pushed(s, x); let b = pushed(t, y);
    assert forall|i: int| 0 <= i < a.len() implies rel(neg, #[trigger] a[i], b[i]) by { if i > 0 { assert(a[i] == s[i - 1]); assert(b[i] == t[i - 1]); } }
}
pub proof fn lemma_twin_history(neg: bool, m: Mode, a: History, o: History, g: Seq<EvaluatedPoint>, b: History, q: History, h: Seq<EvaluatedPoint>)
    requires same_history(neg, o, q), same_points(neg, g, h), g.len() > 0, a.extended(o, m, g), b.extended(q, turned(neg, m), h), o.wf(), q.wf(), a.wf(), b.wf(),
        forall|i: int| 0 <= i < g.len() ==> !nan((#[trigger] g[i]).value), o.overall_best_individual matches Some(x) ==> !nan(x.value),
    ensures same_history(neg, a, b), a.overall_best_individual matches Some(x) && !nan(x.value),
{
    lemma_twin_median(neg, g, h);
    assert(same_point(neg, g[0], h[0])); lemma_sg(neg, g[0].value);
    lemma_twin_pushed(neg, o.best_function_values@, q.best_function_values@, g[0].value, h[0].value);
    lemma_twin_pushed(neg, o.median_function_values@, q.median_function_values@, median(g), median(h));
    assert(a.best_function_values@ == pushed(o.best_function_values@, g[0].value)); assert(b.best_function_values@ == pushed(q.best_function_values@, h[0].value));
    assert(a.median_function_values@ == pushed(o.median_function_values@, median(g))); assert(b.median_function_values@ == pushed(q.median_function_values@, median(h)));
    assert(a.median_function_values@[0] == median(g)); assert(b.median_function_values@[0] == median(h));
    if let Some(x) = o.overall_best_individual {
        let x2 = q.overall_best_individual->0;
        lemma_sg(neg, x.value);
        lemma_better(neg, m, g[0].value, h[0].value, x.value, x2.value);
    }
}
// ---- the state ----
pub open spec fn same_params(neg: bool, p: Parameters, q: Parameters) -> bool {
    q == (Parameters { mode: turned(neg, p.mode), termination: TerminationParameters { fun_target: q.termination.fun_target, ..p.termination }, ..p }) && rel_opt(neg, p.termination.fun_target, q.termination.fun_target)
}
pub proof fn lemma_twin_state(neg: bool, p: Parameters, q: Parameters, o: State, evals: int, a: State, g: Seq<EvaluatedPoint>, ok: bool, b: State, h: Seq<EvaluatedPoint>, ok2: bool)
    requires same_params(neg, p, q), same_points(neg, g, h), !p.parallel_update, a.updated(o, evals, p, g, ok), b.updated(o, evals, q, h, ok2), p.mu <= g.len(), p.weights.weights@.len() <= g.len(),
    ensures a == b, ok == ok2,
{
    assert forall|i: int| 0 <= i < g.len() implies (#[trigger] g[i]).unscaled_step == h[i].unscaled_step by { assert(same_point(neg, g[i], h[i])); }
    assert(Seq::new(p.mu as nat, |i: int| dv_scale(p.weights.weights@[i], g[i].unscaled_step)) =~= Seq::new(q.mu as nat, |i: int| dv_scale(q.weights.weights@[i], h[i].unscaled_step)));
    assert(weighted_step(g, p) == weighted_step(h, q));
    assert(rank_mu_terms(o.cov.sqrt_inv, g, p) =~= rank_mu_terms(o.cov.sqrt_inv, h, q));
    assert(a.path_sigma == b.path_sigma); assert(a.path_c == b.path_c); assert(a.mean == b.mean); assert(a.sigma == b.sigma);
    assert(a.cov.cov == b.cov.cov);
    assert(a.cov =~= b.cov);
    assert(a =~= b);
}
// ---- the termination criteria ----
pub open spec fn values_of(g: Seq<EvaluatedPoint>) -> Seq<F> { values(g) }
pub proof fn lemma_twin_range(neg: bool, s: Seq<F>, t: Seq<F>, r: F, u: F)
    requires rel_all(neg, s, t), is_range(s, r), is_range(t, u),
    ensures rel(false, r, u),
{
    reveal(is_range);
    let (hi, lo) = choose|hi: F, lo: F| max_upto(s, s.len() as int, hi) && min_upto(s, s.len() as int, lo) && r == #[trigger] fsub(hi, lo);
    let (hi2, lo2) = choose|hi: F, lo: F| max_upto(t, t.len() as int, hi) && min_upto(t, t.len() as int, lo) && u == #[trigger] fsub(hi, lo);
    let i = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == hi; let j = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == lo;
    let i2 = choose|k: int| 0 <= k < t.len() && #[trigger] t[k] == hi2; let j2 = choose|k: int| 0 <= k < t.len() && #[trigger] t[k] == lo2;
    assert(rel(neg, s[i], t[i])); assert(rel(neg, s[j], t[j])); assert(rel(neg, s[i2], t[i2])); assert(rel(neg, s[j2], t[j2]));
    assert(fle(s[i2], hi)); assert(fle(s[j2], hi)); assert(fle(lo, s[i2])); assert(fle(lo, s[j2]));
    assert(fle(t[i], hi2)); assert(fle(t[j], hi2)); assert(fle(lo2, t[i])); assert(fle(lo2, t[j]));
    if neg { lemma_range_rel(hi, lo, hi2, lo2); } else { lemma_sub_rel(false, hi, hi2, lo, lo2); }
}
/// what two checks that are to agree have in common
pub open spec fn same_check(neg: bool, c: TerminationCheck, d: TerminationCheck) -> bool {
    &&& c.current_function_evals == d.current_function_evals && same_params(neg, *c.parameters, *d.parameters) && *c.state == *d.state && same_history(neg, *c.history, *d.history)
    &&& same_points(neg, c.individuals@, d.individuals@) && c.individuals@.len() > 0 && (forall|i: int| 0 <= i < c.individuals@.len() ==> !nan((#[trigger] c.individuals@[i]).value))
    &&& c.history.wf() && d.history.wf() && c.history.overall_best_individual is Some && d.history.overall_best_individual is Some
    &&& c.parameters.termination.max_time is None
}
/// moving coordinate i of the mean by 0.2 sigma spread leaves it unchanged
pub open spec fn unmoved(s: State, i: int, spread: F) -> bool { feq(s.mean@[i], fadd(s.mean@[i], fmul(fmul(flit(1real / 5real), s.sigma), spread))) }
/// no axis length is NaN, and NoEffectCoord does not depend on how its spread is read (known finding of C09)
pub open spec fn clear(s: State, dim: int) -> bool {
    no_nan(diag_of(s.cov.sqrt_eigenvalues)@) && forall|i: int| 0 <= i < dim ==> unmoved(s, i, fsqrt(#[trigger] entry(s.cov.cov, i, i))) == unmoved(s, i, entry(s.cov.cov, i, i))
}
pub open spec fn agree(w: Criteria, f: Flags, g: Flags) -> bool {
    match w {
        Criteria::Limits => f.max_function_evals == g.max_function_evals && f.max_generations == g.max_generations && f.max_time == g.max_time && f.fun_target == g.fun_target,
        Criteria::Values => f.tol_fun_hist == g.tol_fun_hist && f.tol_fun == g.tol_fun && f.tol_fun_rel == g.tol_fun_rel,
        Criteria::Stagnation => f.tol_stagnation == g.tol_stagnation,
        Criteria::Shape => f.tol_x == g.tol_x && f.tol_x_up == g.tol_x_up && f.tol_condition_cov == g.tol_condition_cov && f.no_effect_axis == g.no_effect_axis && f.no_effect_coord == g.no_effect_coord,
        Criteria::Listing => f.invalid_function_value == g.invalid_function_value && f.pos_def_cov == g.pos_def_cov,
    }
}
pub proof fn lemma_twin_target(neg: bool, c: TerminationCheck, d: TerminationCheck, x: F, y: F)
    requires same_check(neg, c, d), rel(neg, x, y),
    ensures c.target_reached(x) == d.target_reached(y),
{
    reveal(TerminationCheck::target_reached);
    let m = c.parameters.mode;
    assert forall|i: int| 0 <= i < c.individuals@.len() implies better(m, (#[trigger] c.individuals@[i]).value, x) == better(turned(neg, m), d.individuals@[i].value, y) by {
        assert(same_point(neg, c.individuals@[i], d.individuals@[i])); lemma_sg(neg, c.individuals@[i].value);
        lemma_better(neg, m, c.individuals@[i].value, d.individuals@[i].value, x, y);
    }
    if c.target_reached(x) { let i = choose|i: int| 0 <= i < c.individuals@.len() && better(m, (#[trigger] c.individuals@[i]).value, x); assert(better(turned(neg, m), d.individuals@[i].value, y)); }
    if d.target_reached(y) { let i = choose|i: int| 0 <= i < d.individuals@.len() && better(turned(neg, m), (#[trigger] d.individuals@[i]).value, y); let e = c.individuals@[i]; assert(better(m, e.value, x)); }
}
pub proof fn lemma_twin_below(neg: bool, c: TerminationCheck, d: TerminationCheck, tol: F, tol2: F, both: bool, v: bool, v2: bool)
    requires same_check(neg, c, d), rel(false, tol, tol2), c.below(tol, both, v), d.below(tol2, both, v2), past_window(c.parameters.dim, c.parameters.lambda) >= 0,
    ensures v == v2,
{
    reveal(TerminationCheck::below);
    let h = c.history.best_function_values@; let h2 = d.history.best_function_values@;
    let n = past_window(c.parameters.dim, c.parameters.lambda);
    if h.len() >= n {
        let (rh, rc) = choose|rh: F, rc: F| #[trigger] is_range(h.take(n), rh) && #[trigger] is_range(values(c.individuals@), rc) && (v <==> flt(rh, tol) && (both ==> flt(rc, tol)));
        let (rh2, rc2) = choose|rh: F, rc: F| #[trigger] is_range(h2.take(n), rh) && #[trigger] is_range(values(d.individuals@), rc) && (v2 <==> flt(rh, tol2) && (both ==> flt(rc, tol2)));
        assert forall|i: int| 0 <= i < n implies rel(neg, #[trigger] h.take(n)[i], h2.take(n)[i]) by { assert(rel(neg, h[i], h2[i])); }
        let s = values(c.individuals@); let t = values(d.individuals@);
        assert forall|i: int| 0 <= i < s.len() implies rel(neg, #[trigger] s[i], t[i]) by { assert(same_point(neg, c.individuals@[i], d.individuals@[i])); lemma_sg(neg, s[i]); }
        lemma_twin_range(neg, h.take(n), h2.take(n), rh, rh2);
        lemma_twin_range(neg, s, t, rc, rc2);
    }
}
pub proof fn lemma_twin_regressed(neg: bool, m: Mode, s: Seq<F>, t: Seq<F>, w: int)
    requires rel_all(neg, s, t), no_nan(s), 0 <= w <= s.len(), s.len() <= MAX_HISTORY_LENGTH,
    ensures regressed(m, s, w) == regressed(turned(neg, m), t, w),
{
    reveal(regressed);
    broadcast use axiom_part;
    let k = part(w);
    let a = s.take(w).skip(w - k); let b = s.take(k); let a2 = t.take(w).skip(w - k); let b2 = t.take(k);
    assert forall|i: int| 0 <= i < a.len() implies rel(neg, #[trigger] a[i], a2[i]) && !nan(a[i]) by { let j = w - k + i; assert(rel(neg, s[j], t[j])); assert(!nan(s[j])); }
    assert forall|i: int| 0 <= i < b.len() implies rel(neg, #[trigger] b[i], b2[i]) && !nan(b[i]) by { assert(rel(neg, s[i], t[i])); assert(!nan(s[i])); }
    lemma_median_rel(neg, a, a2); lemma_median_rel(neg, b, b2);
    lemma_better(neg, m, stat_median(a), stat_median(a2), stat_median(b), stat_median(b2));
}
pub proof fn lemma_twin_criteria(neg: bool, c: TerminationCheck, d: TerminationCheck, f: Flags, g: Flags, w: Criteria)
    requires same_check(neg, c, d), c.reported_as(f, w), d.reported_as(g, w), clear(*c.state, c.parameters.dim as int), past_window(c.parameters.dim, c.parameters.lambda) >= 0,
    ensures agree(w, f, g),
{
    let p = c.parameters.termination; let q = d.parameters.termination;
    match w {
        Criteria::Limits => { if p.fun_target is Some { lemma_twin_target(neg, c, d, p.fun_target->0, q.fun_target->0); } },
        Criteria::Values => {
            let fm = c.history.first_median_function_value.unwrap(); let fm2 = d.history.first_median_function_value.unwrap();
            let bm = c.history.best_median_function_value.unwrap(); let bm2 = d.history.best_median_function_value.unwrap();
            lemma_sub_rel(neg, fm, fm2, bm, bm2); lemma_abs_rel(neg, fsub(fm, bm), fsub(fm2, bm2)); lemma_mul_rel(p.tol_fun_rel, fabs(fsub(fm, bm)), fabs(fsub(fm2, bm2)));
            lemma_twin_below(neg, c, d, p.tol_fun_hist, q.tol_fun_hist, false, f.tol_fun_hist, g.tol_fun_hist);
            lemma_twin_below(neg, c, d, p.tol_fun, q.tol_fun, true, f.tol_fun, g.tol_fun);
            lemma_twin_below(neg, c, d, c.fun_rel_tolerance(), d.fun_rel_tolerance(), true, f.tol_fun_rel, g.tol_fun_rel);
        },
        Criteria::Stagnation => {
            reveal(TerminationCheck::stagnated);
            let win = stagnation_window(p.tol_stagnation as int, c.state.generation as int);
            if let Some(n) = win {
                let h = c.history.best_function_values@; let h2 = d.history.best_function_values@; let k = c.history.median_function_values@; let k2 = d.history.median_function_values@;
                if h.len() >= n { lemma_twin_regressed(neg, c.parameters.mode, h, h2, n); lemma_twin_regressed(neg, c.parameters.mode, k, k2, n); }
            }
        },
        Criteria::Shape => {
            reveal(TerminationCheck::small_x); reveal(TerminationCheck::grown); reveal(TerminationCheck::ill_conditioned); reveal(TerminationCheck::no_effect_axis); reveal(TerminationCheck::no_effect_coord);
            let x = choose|m: F| #[trigger] c.largest_axis(m) && (f.tol_x_up <==> flt(p.tol_x_up, fdiv(fmul(c.state.sigma, m), c.parameters.initial_sigma)));
            let y = choose|m: F| #[trigger] d.largest_axis(m) && (g.tol_x_up <==> flt(q.tol_x_up, fdiv(fmul(d.state.sigma, m), d.parameters.initial_sigma)));
            let e = diag_of(c.state.cov.sqrt_eigenvalues)@;
            let i = choose|k: int| 0 <= k < e.len() && #[trigger] e[k] == x; let j = choose|k: int| 0 <= k < e.len() && #[trigger] e[k] == y;
            assert(fle(e[i], y)); assert(fle(e[j], x));
            lemma_mul_rel(c.state.sigma, x, y); lemma_div_rel(false, fmul(c.state.sigma, x), fmul(c.state.sigma, y), c.parameters.initial_sigma);
            let s = *c.state;
            assert forall|i: int| 0 <= i < c.parameters.dim implies c.still(i, fsqrt(#[trigger] entry(s.cov.cov, i, i))) == c.still(i, entry(s.cov.cov, i, i)) by {
                assert(unmoved(s, i, fsqrt(entry(s.cov.cov, i, i))) == unmoved(s, i, entry(s.cov.cov, i, i)));
            }
        },
        Criteria::Listing => { },
    }
}
/// conversion to usize saturates at zero
pub axiom fn axiom_to_int(a: F) ensures f_to_int(a) >= 0;
// ---- one step ----
pub open spec fn twins<A: ObjectiveFunction, B: ObjectiveFunction>(neg: bool, a: CMAES<A>, b: CMAES<B>) -> bool {
    &&& a.wf() && b.wf() && same_params(neg, a.parameters, b.parameters) && a.state == b.state && same_history(neg, a.history, b.history) && same_sampler(neg, a.sampler, b.sampler)
    &&& (a.history.overall_best_individual matches Some(x) ==> !nan(x.value))
}
/// what is compared when a run ended at an invalid value
pub open spec fn same_so_far<A: ObjectiveFunction, B: ObjectiveFunction>(neg: bool, a: CMAES<A>, b: CMAES<B>) -> bool { a.state == b.state && same_history(neg, a.history, b.history) }
pub open spec fn same_reasons(r: Option<TerminationData>, s: Option<TerminationData>) -> bool { (r is Some <==> s is Some) && flags(reasons_of(r)) == flags(reasons_of(s)) }
pub open spec fn gen_ok<A: ObjectiveFunction>(a: CMAES<A>, o: CMAES<A>, g: Vec<EvaluatedPoint>, k: int) -> bool { a.sampler.generation(o.sampler, o.state, o.parameters.mode, Ok::<Vec<EvaluatedPoint>, InvalidFunctionValueError>(g), k) }
pub proof fn lemma_listed(r: Option<TerminationData>)
    requires r matches Some(d) ==> d.reasons@.len() > 0,
    ensures r is Some <==> flags(reasons_of(r)) != no_flags(), only_reason(r, InvalidFunctionValue) ==> flags(reasons_of(r)) == (Flags { invalid_function_value: true, ..no_flags() }),
        only_reason(r, PosDefCov) ==> flags(reasons_of(r)) == (Flags { pos_def_cov: true, ..no_flags() }),
{
    reveal(flags); reveal(listed);
    let s = reasons_of(r);
    if r is Some { assert(s.contains(s[0])); let x = s[0]; assert(flags(s) != no_flags()) by { match x { MaxFunctionEvals => {}, _ => {} } } } else { assert(flags(s) =~= no_flags()); }
    if only_reason(r, InvalidFunctionValue) { assert(s =~= seq![InvalidFunctionValue]); assert(s[0] == InvalidFunctionValue); assert(s.contains(InvalidFunctionValue)); assert(flags(s) =~= (Flags { invalid_function_value: true, ..no_flags() })); }
    if only_reason(r, PosDefCov) { assert(s =~= seq![PosDefCov]); assert(s[0] == PosDefCov); assert(s.contains(PosDefCov)); assert(flags(s) =~= (Flags { pos_def_cov: true, ..no_flags() })); }
}
/// the hypotheses on a pair of steps
pub open spec fn comparable<A: ObjectiveFunction, B: ObjectiveFunction>(neg: bool, a: CMAES<A>, o: CMAES<A>, r: Option<TerminationData>, b: CMAES<B>, q: CMAES<B>, s: Option<TerminationData>) -> bool {
    &&& twins(neg, o, q) && a.all_aspects(o, r) && b.all_aspects(q, s) && alike(neg, a.sampler.objective_function.log(), b.sampler.objective_function.log())
    &&& o.parameters.termination.max_time is None && !o.parameters.parallel_update
}
#[verifier::spinoff_prover] pub proof fn lemma_twin_sample<A: ObjectiveFunction, B: ObjectiveFunction>(neg: bool, a: CMAES<A>, o: CMAES<A>, r: Option<TerminationData>, b: CMAES<B>, q: CMAES<B>, s: Option<TerminationData>)
    requires comparable(neg, a, o, r, b, q, s),
    ensures only_reason(r, InvalidFunctionValue) <==> only_reason(s, InvalidFunctionValue), !only_reason(r, InvalidFunctionValue) ==> same_sampler(neg, a.sampler, b.sampler),
        forall|g: Vec<EvaluatedPoint>, k: int, h: Vec<EvaluatedPoint>, l: int| #[trigger] gen_ok(a, o, g, k) && #[trigger] gen_ok(b, q, h, l) ==> same_points(neg, g@, h@) && g@.len() == o.parameters.lambda && (forall|i: int| 0 <= i < g@.len() ==> !nan((#[trigger] g@[i]).value)),
{
    let m = o.parameters.mode;
    let (ra, k) = choose|res: Result<Vec<EvaluatedPoint>, InvalidFunctionValueError>, k: int| #[trigger] a.sampler.generation(o.sampler, o.state, m, res, k) && (res is Err <==> only_reason(r, InvalidFunctionValue)) && (res is Err ==> a.ended_invalid(o, r));
    let (rb, l) = choose|res: Result<Vec<EvaluatedPoint>, InvalidFunctionValueError>, k: int| #[trigger] b.sampler.generation(q.sampler, q.state, turned(neg, m), res, k) && (res is Err <==> only_reason(s, InvalidFunctionValue)) && (res is Err ==> b.ended_invalid(q, s));
    assert(a.sample_step(o, r)); assert(b.sample_step(q, s));
    lemma_twin_generation(neg, o.state, m, a.sampler, o.sampler, ra, k, b.sampler, q.sampler, rb, l);
    assert forall|g: Vec<EvaluatedPoint>, k: int, h: Vec<EvaluatedPoint>, l: int| #[trigger] gen_ok(a, o, g, k) && #[trigger] gen_ok(b, q, h, l) implies same_points(neg, g@, h@) && g@.len() == o.parameters.lambda && (forall|i: int| 0 <= i < g@.len() ==> !nan((#[trigger] g@[i]).value)) by {
        lemma_twin_generation(neg, o.state, m, a.sampler, o.sampler, Ok::<Vec<EvaluatedPoint>, InvalidFunctionValueError>(g), k, b.sampler, q.sampler, Ok::<Vec<EvaluatedPoint>, InvalidFunctionValueError>(h), l);
    }
}
#[verifier::spinoff_prover] pub proof fn lemma_twin_update<A: ObjectiveFunction, B: ObjectiveFunction>(neg: bool, a: CMAES<A>, o: CMAES<A>, r: Option<TerminationData>, b: CMAES<B>, q: CMAES<B>, s: Option<TerminationData>)
    requires comparable(neg, a, o, r, b, q, s), !only_reason(r, InvalidFunctionValue), !only_reason(s, InvalidFunctionValue), same_sampler(neg, a.sampler, b.sampler),
        forall|g: Vec<EvaluatedPoint>, k: int, h: Vec<EvaluatedPoint>, l: int| #[trigger] gen_ok(a, o, g, k) && #[trigger] gen_ok(b, q, h, l) ==> same_points(neg, g@, h@) && g@.len() == o.parameters.lambda && (forall|i: int| 0 <= i < g@.len() ==> !nan((#[trigger] g@[i]).value)),
    ensures twins(neg, a, b), a.advanced(o) == b.advanced(q), a.history.overall_best_individual is Some,
{
    let m = o.parameters.mode;
    let (g, k) = choose|g: Vec<EvaluatedPoint>, k: int| #[trigger] a.sampler.generation(o.sampler, o.state, m, Ok::<Vec<EvaluatedPoint>, InvalidFunctionValueError>(g), k) && a.history.extended(o.history, m, g@);
    let (h, l) = choose|g: Vec<EvaluatedPoint>, k: int| #[trigger] b.sampler.generation(q.sampler, q.state, turned(neg, m), Ok::<Vec<EvaluatedPoint>, InvalidFunctionValueError>(g), k) && b.history.extended(q.history, turned(neg, m), g@);
    assert(gen_ok(a, o, g, k)); assert(gen_ok(b, q, h, l));
    lemma_twin_history(neg, m, a.history, o.history, g@, b.history, q.history, h@);
    let (g1, k1) = choose|g: Vec<EvaluatedPoint>, k: int| #[trigger] a.sampler.generation(o.sampler, o.state, m, Ok::<Vec<EvaluatedPoint>, InvalidFunctionValueError>(g), k) && a.state.updated(o.state, a.sampler.function_evals as int, o.parameters, g@, a.advanced(o));
    let (h1, l1) = choose|g: Vec<EvaluatedPoint>, k: int| #[trigger] b.sampler.generation(q.sampler, q.state, turned(neg, m), Ok::<Vec<EvaluatedPoint>, InvalidFunctionValueError>(g), k) && b.state.updated(q.state, b.sampler.function_evals as int, q.parameters, g@, b.advanced(q));
    assert(gen_ok(a, o, g1, k1)); assert(gen_ok(b, q, h1, l1));
    lemma_twin_state(neg, o.parameters, q.parameters, o.state, a.sampler.function_evals as int, a.state, g1@, a.advanced(o), b.state, h1@, b.advanced(q));
}
#[verifier::spinoff_prover] pub proof fn lemma_twin_judged<A: ObjectiveFunction, B: ObjectiveFunction>(neg: bool, a: CMAES<A>, o: CMAES<A>, r: Option<TerminationData>, b: CMAES<B>, q: CMAES<B>, s: Option<TerminationData>, w: Criteria)
    requires comparable(neg, a, o, r, b, q, s), twins(neg, a, b), a.advanced(o), b.advanced(q), a.history.overall_best_individual is Some, clear(a.state, a.parameters.dim as int),
        forall|g: Vec<EvaluatedPoint>, k: int, h: Vec<EvaluatedPoint>, l: int| #[trigger] gen_ok(a, o, g, k) && #[trigger] gen_ok(b, q, h, l) ==> same_points(neg, g@, h@) && g@.len() == o.parameters.lambda && (forall|i: int| 0 <= i < g@.len() ==> !nan((#[trigger] g@[i]).value)),
    ensures agree(w, flags(reasons_of(r)), flags(reasons_of(s))),
{
    let m = o.parameters.mode;
    assert(a.termination_step(o, r, w)); assert(b.termination_step(q, s, w));
    let (g, k) = choose|g: Vec<EvaluatedPoint>, k: int| #[trigger] a.sampler.generation(o.sampler, o.state, m, Ok::<Vec<EvaluatedPoint>, InvalidFunctionValueError>(g), k) && a.judged(g@, r, w);
    let (h, l) = choose|g: Vec<EvaluatedPoint>, k: int| #[trigger] b.sampler.generation(q.sampler, q.state, turned(neg, m), Ok::<Vec<EvaluatedPoint>, InvalidFunctionValueError>(g), k) && b.judged(g@, s, w);
    assert(gen_ok(a, o, g, k)); assert(gen_ok(b, q, h, l));
    let x = choose|x: &[EvaluatedPoint]| x@ == g@ && #[trigger] a.check(x).reported_as(flags(reasons_of(r)), w);
    let y = choose|x: &[EvaluatedPoint]| x@ == h@ && #[trigger] b.check(x).reported_as(flags(reasons_of(s)), w);
    axiom_to_int(fceil(fdiv(fmul(flit(30real), fint(a.parameters.dim as int)), fint(a.parameters.lambda as int))));
    lemma_twin_criteria(neg, a.check(x), b.check(y), flags(reasons_of(r)), flags(reasons_of(s)), w);
}
/// C18 C19: from twin states, a step of each leads to twin states, and both stop, for the same reasons, or neither does
#[verifier::spinoff_prover] pub proof fn theorem_twin_step<A: ObjectiveFunction, B: ObjectiveFunction>(neg: bool, a: CMAES<A>, o: CMAES<A>, r: Option<TerminationData>, b: CMAES<B>, q: CMAES<B>, s: Option<TerminationData>)
    requires twins(neg, o, q), a.stepped(o, r), b.stepped(q, s), alike(neg, a.sampler.objective_function.log(), b.sampler.objective_function.log()),
        o.parameters.termination.max_time is None, !o.parameters.parallel_update, clear(a.state, a.parameters.dim as int),
    ensures same_reasons(r, s), if only_reason(r, InvalidFunctionValue) { same_so_far(neg, a, b) } else { twins(neg, a, b) }, only_reason(r, InvalidFunctionValue) <==> only_reason(s, InvalidFunctionValue),
{
    reveal(CMAES::stepped);
    assert(a.all_aspects(o, r)); assert(b.all_aspects(q, s));
    lemma_listed(r); lemma_listed(s);
    lemma_twin_sample(neg, a, o, r, b, q, s);
    if !only_reason(r, InvalidFunctionValue) {
        lemma_twin_update(neg, a, o, r, b, q, s);
        if a.advanced(o) {
            lemma_twin_judged(neg, a, o, r, b, q, s, Criteria::Limits); lemma_twin_judged(neg, a, o, r, b, q, s, Criteria::Values); lemma_twin_judged(neg, a, o, r, b, q, s, Criteria::Stagnation);
            lemma_twin_judged(neg, a, o, r, b, q, s, Criteria::Shape); lemma_twin_judged(neg, a, o, r, b, q, s, Criteria::Listing);
            assert(flags(reasons_of(r)) =~= flags(reasons_of(s)));
        }
    }
}
// ---- a whole run ----
pub proof fn lemma_step_log<A: ObjectiveFunction>(a: CMAES<A>, o: CMAES<A>, r: Option<TerminationData>)
    requires a.stepped(o, r),
    ensures a.parameters == o.parameters, ({ let x = o.sampler.objective_function.log(); let y = a.sampler.objective_function.log(); x.len() <= y.len() && y.take(x.len() as int) == x }),
{
    reveal(CMAES::stepped);
    assert(a.all_aspects(o, r)); assert(a.sample_step(o, r));
    let (res, k) = choose|res: Result<Vec<EvaluatedPoint>, InvalidFunctionValueError>, k: int| #[trigger] a.sampler.generation(o.sampler, o.state, o.parameters.mode, res, k) && (res is Err <==> only_reason(r, InvalidFunctionValue)) && (res is Err ==> a.ended_invalid(o, r));
    assert(a.sampler.generation(o.sampler, o.state, o.parameters.mode, res, k));
}
pub open spec fn log_of<A: ObjectiveFunction>(a: CMAES<A>) -> Seq<(DVector<F>, F)> { a.sampler.objective_function.log() }
/// the log of a run only grows
pub proof fn lemma_run_log<A: ObjectiveFunction>(a: CMAES<A>, o: CMAES<A>, r: TerminationData, t: Seq<CMAES<A>>, i: int)
    requires a.ran(o, r, t), 0 <= i < t.len(),
    ensures t[i].parameters == o.parameters, log_of(t[i]).len() <= log_of(a).len(), log_of(a).take(log_of(t[i]).len() as int) == log_of(t[i]),
    decreases t.len() - i,
{
    lemma_run_params(a, o, r, t, i);
    let x = log_of(t[i]);
    if i == t.len() - 1 { assert(log_of(a).take(x.len() as int) =~= x); }
    else {
        lemma_run_log(a, o, r, t, i + 1);
        if i + 1 < t.len() - 1 { assert(t.drop_last()[i + 1].stepped(t.drop_last()[i], None)); lemma_step_log(t[i + 1], t[i], None); } else { lemma_step_log(t[i + 1], t[i], Some(r)); }
        let y = log_of(t[i + 1]);
        assert(log_of(a).take(x.len() as int) =~= log_of(a).take(y.len() as int).take(x.len() as int));
    }
}
pub proof fn lemma_run_params<A: ObjectiveFunction>(a: CMAES<A>, o: CMAES<A>, r: TerminationData, t: Seq<CMAES<A>>, i: int)
    requires a.ran(o, r, t), 0 <= i < t.len(),
    ensures t[i].parameters == o.parameters,
    decreases i,
{
    if i > 0 {
        lemma_run_params(a, o, r, t, i - 1);
        if i < t.len() - 1 { assert(t.drop_last()[i].stepped(t.drop_last()[i - 1], None)); lemma_step_log(t[i], t[i - 1], None); } else { lemma_step_log(t[i], t[i - 1], Some(r)); }
    }
}
/// the hypotheses on a pair of runs
pub open spec fn comparable_runs<A: ObjectiveFunction, B: ObjectiveFunction>(neg: bool, a: CMAES<A>, o: CMAES<A>, r: TerminationData, t: Seq<CMAES<A>>, b: CMAES<B>, q: CMAES<B>, s: TerminationData, u: Seq<CMAES<B>>) -> bool {
    &&& twins(neg, o, q) && a.ran(o, r, t) && b.ran(q, s, u) && alike(neg, log_of(a), log_of(b)) && o.parameters.termination.max_time is None && !o.parameters.parallel_update
    &&& forall|i: int| 0 <= i < t.len() ==> clear((#[trigger] t[i]).state, o.parameters.dim as int)
}
pub proof fn lemma_alike<A: ObjectiveFunction, B: ObjectiveFunction>(neg: bool, a: CMAES<A>, o: CMAES<A>, r: TerminationData, t: Seq<CMAES<A>>, b: CMAES<B>, q: CMAES<B>, s: TerminationData, u: Seq<CMAES<B>>, i: int, j: int)
    requires a.ran(o, r, t), b.ran(q, s, u), alike(neg, log_of(a), log_of(b)), 0 <= i < t.len(), 0 <= j < u.len(),
    ensures alike(neg, log_of(t[i]), log_of(u[j])),
{
    lemma_run_log(a, o, r, t, i); lemma_run_log(b, q, s, u, j);
    let x = log_of(t[i]); let y = log_of(u[j]); let la = log_of(a); let lb = log_of(b);
    assert forall|k: int| 0 <= k < x.len() && k < y.len() && (forall|l: int| 0 <= l <= k ==> (#[trigger] x[l]).0 == y[l].0) implies y[k].1 == sg(neg, (#[trigger] x[k]).1) by {
        assert forall|l: int| 0 <= l <= k implies (#[trigger] la[l]).0 == lb[l].0 by { assert(la.take(x.len() as int)[l] == x[l]); assert(lb.take(y.len() as int)[l] == y[l]); assert(x[l].0 == y[l].0); }
        assert(la.take(x.len() as int)[k] == x[k]); assert(lb.take(y.len() as int)[k] == y[k]);
        assert(lb[k].1 == sg(neg, la[k].1));
    }
}
/// neither has stopped before step i, and they are twins there
pub proof fn lemma_twin_upto<A: ObjectiveFunction, B: ObjectiveFunction>(neg: bool, a: CMAES<A>, o: CMAES<A>, r: TerminationData, t: Seq<CMAES<A>>, b: CMAES<B>, q: CMAES<B>, s: TerminationData, u: Seq<CMAES<B>>, i: int)
    requires comparable_runs(neg, a, o, r, t, b, q, s, u), 0 <= i <= t.len() - 2, i <= u.len() - 2,
    ensures twins(neg, t[i], u[i]),
    decreases i,
{
    if i > 0 {
        lemma_twin_upto(neg, a, o, r, t, b, q, s, u, i - 1);
        assert(t.drop_last()[i].stepped(t.drop_last()[i - 1], None)); assert(u.drop_last()[i].stepped(u.drop_last()[i - 1], None));
        lemma_alike(neg, a, o, r, t, b, q, s, u, i, i); lemma_run_params(a, o, r, t, i - 1); lemma_run_params(a, o, r, t, i);
        theorem_twin_step(neg, t[i], t[i - 1], None, u[i], u[i - 1], None);
    }
}
/// twin runs: the same number of steps through twin states, the same reasons, mirrored results
pub open spec fn twin_runs<A: ObjectiveFunction, B: ObjectiveFunction>(neg: bool, r: TerminationData, t: Seq<CMAES<A>>, s: TerminationData, u: Seq<CMAES<B>>) -> bool {
    &&& t.len() == u.len() && (forall|i: int| 0 <= i <= t.len() - 2 ==> twins(neg, #[trigger] t[i], u[i])) && flags(r.reasons@) == flags(s.reasons@)
    &&& if only_reason(Some(r), InvalidFunctionValue) { same_so_far(neg, t.last(), u.last()) } else { twins(neg, t.last(), u.last()) }
    &&& r.final_mean == s.final_mean && same_opt_ind(neg, r.current_best, s.current_best) && same_opt_ind(neg, r.overall_best, s.overall_best)
}
#[verifier::spinoff_prover] pub proof fn theorem_twin_runs<A: ObjectiveFunction, B: ObjectiveFunction>(neg: bool, a: CMAES<A>, o: CMAES<A>, r: TerminationData, t: Seq<CMAES<A>>, b: CMAES<B>, q: CMAES<B>, s: TerminationData, u: Seq<CMAES<B>>)
    requires comparable_runs(neg, a, o, r, t, b, q, s, u),
    ensures twin_runs(neg, r, t, s, u),
{
    let n = if t.len() <= u.len() { t.len() as int } else { u.len() as int };
    lemma_twin_upto(neg, a, o, r, t, b, q, s, u, n - 2);
    lemma_alike(neg, a, o, r, t, b, q, s, u, n - 1, n - 1); lemma_run_params(a, o, r, t, n - 2); lemma_run_params(a, o, r, t, n - 1);
    let x: Option<TerminationData> = if t.len() == n { Some(r) } else { None }; let y: Option<TerminationData> = if u.len() == n { Some(s) } else { None };
    if x is None { assert(t.drop_last()[n - 1].stepped(t.drop_last()[n - 2], None)); }
    if y is None { assert(u.drop_last()[n - 1].stepped(u.drop_last()[n - 2], None)); }
    theorem_twin_step(neg, t[n - 1], t[n - 2], x, u[n - 1], u[n - 2], y);
    assert(t.len() == u.len());
    assert forall|i: int| 0 <= i <= t.len() - 2 implies twins(neg, #[trigger] t[i], u[i]) by { lemma_twin_upto(neg, a, o, r, t, b, q, s, u, i); }
    assert(t.last().describes(r) && u.last().describes(s)) by { reveal(CMAES::stepped); assert(t.last().all_aspects(t[n - 2], Some(r))); assert(u.last().all_aspects(u[n - 2], Some(s))); }
}
// ---- built objects ----
/// the same options, the mode turned and the target negated
pub open spec fn same_options(neg: bool, a: CMAESOptions, b: CMAESOptions) -> bool {
    &&& a.initial_mean == b.initial_mean && a.initial_step_size == b.initial_step_size && a.population_size == b.population_size && a.weights == b.weights && a.cm == b.cm
    &&& a.constraints == b.constraints && a.max_resamples == b.max_resamples && a.parallel_update == b.parallel_update && b.mode == turned(neg, a.mode)
    &&& a.max_function_evals == b.max_function_evals && a.max_generations == b.max_generations && a.max_time == b.max_time && rel_opt(neg, a.fun_target, b.fun_target)
    &&& a.tol_fun == b.tol_fun && a.tol_fun_rel == b.tol_fun_rel && a.tol_fun_hist == b.tol_fun_hist && a.tol_x == b.tol_x && a.tol_stagnation == b.tol_stagnation && a.tol_x_up == b.tol_x_up && a.tol_condition_cov == b.tol_condition_cov
}
/// C19: built objects that report the same seed are twins (the seed is the only difference there can be)
#[verifier::spinoff_prover] pub proof fn theorem_twin_built<A: ObjectiveFunction, B: ObjectiveFunction>(neg: bool, a: CMAES<A>, x: CMAESOptions, f: A, b: CMAES<B>, y: CMAESOptions, g: B)
    requires a.built(x, f), b.built(y, g), a.wf(), b.wf(), same_options(neg, x, y), a.parameters.seed == b.parameters.seed, mirrored(neg, f.log(), g.log()),
    ensures twins(neg, a, b),
{
    broadcast use axiom_dvector_ext;
    let p = a.parameters; let q = b.parameters;
    let s = choose|t: TerminationParameters| t.of_options(x) && #[trigger] p.carries(x, p.seed, t);
    let t = choose|t: TerminationParameters| t.of_options(y) && #[trigger] q.carries(y, q.seed, t);
    assert(p.defined() && q.defined());
    assert(p.weights.weights == q.weights.weights);
    assert(p.weights =~= q.weights);
    assert(t =~= (TerminationParameters { fun_target: t.fun_target, ..s }));
    assert(q =~= (Parameters { mode: turned(neg, p.mode), termination: TerminationParameters { fun_target: q.termination.fun_target, ..p.termination }, ..p }));
    assert(a.state.cov =~= b.state.cov);
    assert(a.state =~= b.state);
    let ha = a.history; let hb = b.history;
    assert(rel_all(neg, ha.best_function_values@, hb.best_function_values@)); assert(rel_all(neg, ha.median_function_values@, hb.median_function_values@));
}
// ---- the properties ----
/// C19: runs of the same options and seed coincide, whichever of run and run_parallel each is (both have this contract)
pub proof fn theorem_same_seed_same_run<A: ObjectiveFunction, B: ObjectiveFunction>(x: CMAESOptions, y: CMAESOptions, f: A, g: B, o: CMAES<A>, a: CMAES<A>, r: TerminationData, t: Seq<CMAES<A>>, q: CMAES<B>, b: CMAES<B>, s: TerminationData, u: Seq<CMAES<B>>) /*C19*/
    requires o.built(x, f), q.built(y, g), o.wf(), q.wf(), same_options(false, x, y), x.max_time is None, !x.parallel_update, o.parameters.seed == q.parameters.seed, f.log().len() == 0, g.log().len() == 0,
        a.ran(o, r, t), b.ran(q, s, u), alike(false, log_of(a), log_of(b)), forall|i: int| 0 <= i < t.len() ==> clear((#[trigger] t[i]).state, o.parameters.dim as int),
    ensures twin_runs(false, r, t, s, u),
{
    theorem_twin_built(false, o, x, f, q, y, g);
    theorem_twin_runs(false, a, o, r, t, b, q, s, u);
}
/// C18: maximizing is minimizing the negated objective
pub proof fn theorem_maximize_is_minimize_negated<A: ObjectiveFunction, B: ObjectiveFunction>(x: CMAESOptions, y: CMAESOptions, f: A, g: B, o: CMAES<A>, a: CMAES<A>, r: TerminationData, t: Seq<CMAES<A>>, q: CMAES<B>, b: CMAES<B>, s: TerminationData, u: Seq<CMAES<B>>) /*C18*/
    requires o.built(x, f), q.built(y, g), o.wf(), q.wf(), same_options(true, x, y), x.max_time is None, !x.parallel_update, o.parameters.seed == q.parameters.seed, f.log().len() == 0, g.log().len() == 0,
        a.ran(o, r, t), b.ran(q, s, u), alike(true, log_of(a), log_of(b)), forall|i: int| 0 <= i < t.len() ==> clear((#[trigger] t[i]).state, o.parameters.dim as int),
    ensures x.mode == Mode::Maximize ==> y.mode == Mode::Minimize, twin_runs(true, r, t, s, u),
{
    theorem_twin_built(true, o, x, f, q, y, g);
    theorem_twin_runs(true, a, o, r, t, b, q, s, u);
}
} // verus!
fn main() {}

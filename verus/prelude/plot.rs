// ---- data recorded for the plot ----
//@item src/plotting/data.rs struct PlotData
//@item src/plotting/mod.rs struct Plot
//@fn src/plotting/utils.rs - apply_offset
//@ops
//@| ensures r == offset(x), /*C20*/
//@end
/// away from zero by 1e-20
pub open spec fn offset(x: F) -> F { let d = flit(1real / 100000000000000000000real); if fle(flit(0real), x) { fadd(x, d) } else { fsub(x, d) } }
pub open spec fn no_order() -> spec_fn(F, F) -> Ordering { |a: F, b: F| if flt(a, b) { Ordering::Less } else if flt(b, a) { Ordering::Greater } else { Ordering::Equal } }
/// one series per dimension, all of length n
pub open spec fn even(v: Seq<Vec<F>>, dim: int, n: int) -> bool { v.len() == dim && forall|i: int| 0 <= i < dim ==> (#[trigger] v[i])@.len() == n }
/// every series got its element of `x`
pub open spec fn pushed_all(o: Seq<Vec<F>>, v: Seq<Vec<F>>, x: Seq<F>) -> bool { v.len() == o.len() && forall|i: int| 0 <= i < o.len() ==> (#[trigger] v[i])@ == o[i]@.push(x[i]) }
pub open spec fn offsets(x: Seq<F>) -> Seq<F> { x.map_values(|y: F| offset(y)) }
pub open spec fn roots(x: Seq<F>) -> Seq<F> { x.map_values(|y: F| offset(fsqrt(y))) }
/// only the last element is left
pub open spec fn last_only<T>(s: Seq<T>) -> Seq<T> { seq![s.last()] }
pub open spec fn last_of_all(o: Seq<Vec<F>>, v: Seq<Vec<F>>) -> bool { v.len() == o.len() && forall|i: int| 0 <= i < o.len() ==> (#[trigger] v[i])@ =~= last_only(o[i]@) }
pub open spec fn or_nan(x: Option<F>) -> F { match x { Some(v) => v, None => fnan() } }
/// the first k series got their element of `x`
pub open spec fn pushed_upto(o: Seq<Vec<F>>, v: Seq<Vec<F>>, x: Seq<F>, k: int) -> bool { v.len() == o.len() && forall|i: int| 0 <= i < o.len() ==> (#[trigger] v[i])@ == (if i < k { o[i]@.push(x[i]) } else { o[i]@ }) }
impl PlotData {
    pub open spec fn same_scalars(self, o: PlotData) -> bool {
        self.function_evals == o.function_evals && self.best_function_value == o.best_function_value && self.median_function_value == o.median_function_value && self.sigma == o.sigma && self.axis_ratio == o.axis_ratio
    }
    /// every series has exactly one entry per recorded point
    pub open spec fn wf(self, dim: int) -> bool {
        let n = self.function_evals@.len() as int;
        &&& self.best_function_value@.len() == n && self.median_function_value@.len() == n && self.sigma@.len() == n && self.axis_ratio@.len() == n
        &&& even(self.mean_dimensions@, dim, n) && even(self.sqrt_eigenvalues@, dim, n) && even(self.coord_axis_scales@, dim, n)
    }
    /// the state's values are added to the data `o`
    pub open spec fn recorded(self, o: PlotData, evals: int, s: State, h: History) -> bool {
        let cur = match h.current_best_individual { Some(x) => x.value, None => fnan() };
        let med = if h.median_function_values@.len() > 0 { h.median_function_values@[0] } else { fnan() };
        &&& self.function_evals@ == o.function_evals@.push(evals as usize)
        &&& self.best_function_value@ == o.best_function_value@.push(offset(cur))
        &&& self.median_function_value@ == o.median_function_value@.push(offset(med))
        &&& self.sigma@ == o.sigma@.push(offset(s.sigma))
        &&& self.axis_ratio@ == o.axis_ratio@.push(offset(axis_ratio_of(s)))
        &&& pushed_all(o.mean_dimensions@, self.mean_dimensions@, s.mean@)
        &&& exists|e: Seq<F>| sorted_values(diag_of(s.cov.sqrt_eigenvalues)@, e) && #[trigger] pushed_all(o.sqrt_eigenvalues@, self.sqrt_eigenvalues@, offsets(e))
        &&& pushed_all(o.coord_axis_scales@, self.coord_axis_scales@, roots(diag_of(s.cov.cov)@))
    }
    pub open spec fn cleared(self, o: PlotData) -> bool {
        &&& self.function_evals@ =~= last_only(o.function_evals@) && self.best_function_value@ =~= last_only(o.best_function_value@) && self.median_function_value@ =~= last_only(o.median_function_value@)
        &&& self.sigma@ =~= last_only(o.sigma@) && self.axis_ratio@ =~= last_only(o.axis_ratio@)
        &&& last_of_all(o.mean_dimensions@, self.mean_dimensions@) && last_of_all(o.sqrt_eigenvalues@, self.sqrt_eigenvalues@) && last_of_all(o.coord_axis_scales@, self.coord_axis_scales@)
    }
}
/// `e` is a rearrangement of `d`, in ascending order if no value is NaN
pub open spec fn sorted_values(d: Seq<F>, e: Seq<F>) -> bool {
    d.len() == e.len() && e.to_multiset() == d.to_multiset() && ((forall|i: int| 0 <= i < d.len() ==> !nan(#[trigger] d[i])) ==> stably_sorted(d, e, no_order()))
}
impl Plot {
    pub open spec fn wf(self, dim: int) -> bool {
        &&& self.data.wf(dim)
        &&& self.last_data_point_evals is Some <==> self.last_data_point_generation is Some
        &&& self.data.function_evals@.len() > 0 <==> self.last_data_point_evals is Some
        &&& self.last_data_point_evals matches Some(e) ==> e == self.data.function_evals@.last()
    }
    /// a point is added unless one was added in this generation
    pub open spec fn point_added(self, o: Plot, evals: int, s: State, h: History) -> bool {
        &&& self.options == o.options && self.mode == o.mode
        &&& if o.last_data_point_generation == Some(s.generation) { self == o } else {
                self.data.recorded(o.data, evals, s, h) && self.last_data_point_evals == Some(evals as usize) && self.last_data_point_generation == Some(s.generation)
            }
    }
    pub open spec fn next_evals(self) -> int { match self.last_data_point_evals { Some(e) => e + self.options.min_gap_evals, None => 0 } }
}

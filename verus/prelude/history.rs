//@item src/history.rs const MAX_HISTORY_LENGTH
//@item src/history.rs struct History

// ---- specification ----
/// the middle value, or the mean of the two middle values (the better one if their mean is undefined)
pub open spec fn median(g: Seq<EvaluatedPoint>) -> F {
    let k = (g.len() / 2) as int;
    if g.len() % 2 == 1 { g[k].value } else {
        let m = fdiv(fadd(g[k - 1].value, g[k].value), flit(2real));
        if nan(m) { g[k - 1].value } else { m }
    }
}
/// `s` with `x` in front, without the oldest entries beyond the maximum length
pub open spec fn pushed(s: Seq<F>, x: F) -> Seq<F> {
    let t = seq![x] + s;
    if t.len() > MAX_HISTORY_LENGTH { t.take(MAX_HISTORY_LENGTH as int) } else { t }
}
pub open spec fn ind(p: EvaluatedPoint) -> Individual { Individual { point: p.point, value: p.value } }
pub open spec fn best_of(m: Mode, old: Option<Individual>, new: Individual) -> Individual {
    match old { Some(o) => if better(m, new.value, o.value) { new } else { o }, None => new }
}
pub open spec fn first_of(old: Option<F>, new: F) -> Option<F> { match old { Some(x) => Some(x), None => Some(new) } }
/// the new best median is one of the two, and neither is better
pub open spec fn is_best_median(m: Mode, old: Option<F>, new: F, r: Option<F>) -> bool {
    match (old, r) {
        (None, _) => r == Some(new),
        (Some(o), Some(x)) => (x == o || x == new) && !better(m, o, x) && !better(m, new, x),
        (Some(o), None) => false,
    }
}
impl History {
    pub open spec fn wf(self) -> bool {
        self.best_function_values@.len() <= MAX_HISTORY_LENGTH
        && self.median_function_values@.len() <= MAX_HISTORY_LENGTH
        // no NaN is ever recorded
        && (forall|i: int| 0 <= i < self.best_function_values@.len() ==> !nan(#[trigger] self.best_function_values@[i]))
        && (forall|i: int| 0 <= i < self.median_function_values@.len() ==> !nan(#[trigger] self.median_function_values@[i]))
        && (match self.first_median_function_value { Some(x) => !nan(x), None => true })
        && (match self.best_median_function_value { Some(x) => !nan(x), None => true })
        // one entry per completed generation, and everything is present from the first one on
        && (self.best_function_values@.len() == self.median_function_values@.len())
        && (self.best_function_values@.len() == 0 <==> self.overall_best_individual is None)
        && (self.overall_best_individual is None <==> self.current_best_individual is None)
        && (self.overall_best_individual is None <==> self.first_median_function_value is None)
        && (self.overall_best_individual is None <==> self.best_median_function_value is None)
    }
}

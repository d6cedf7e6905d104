//@include prelude/head.rs
verus! {
//@include prelude/std.rs
//@include prelude/float.rs
//@include prelude/point.rs probe
//@include prelude/mode.rs probe
//@include prelude/history.rs

impl History {
//@fn src/history.rs "impl History" new
//@| ensures r.wf(), r.best_function_values@.len() == 0, r.median_function_values@.len() == 0,
//@|   r.current_best_individual is None, r.overall_best_individual is None,
//@|   r.first_median_function_value is None, r.best_median_function_value is None,
//@end
//@fn src/history.rs "impl History" update
//@| requires old(self).wf(), current_generation@.len() > 0,
//@|   forall|i: int| 0 <= i < current_generation@.len() ==> !nan(#[trigger] current_generation@[i].value),
//@| ensures final(self).wf(),
//@|   final(self).best_function_values@ =~= pushed(old(self).best_function_values@, current_generation@[0].value), /*C02*/
//@|   final(self).median_function_values@ =~= pushed(old(self).median_function_values@, median(current_generation@)), /*C02*/
//@|   final(self).first_median_function_value == first_of(old(self).first_median_function_value, median(current_generation@)), /*C02*/
//@|   is_best_median(mode, old(self).best_median_function_value, median(current_generation@), final(self).best_median_function_value), /*C02*/
//@|   final(self).current_best_individual == Some(ind(current_generation@[0])), /*C01*/
//@|   final(self).overall_best_individual == Some(best_of(mode, old(self).overall_best_individual, ind(current_generation@[0]))), /*C01*/
//@start| proof { let mv = median(current_generation@); let bv = current_generation@[0].value; assert(!nan(mv)); assert(!nan(bv)); }
//@end
//@fn src/history.rs "impl History" update_best_individuals
//@| ensures
//@|   final(self).current_best_individual == Some(current_best),
//@|   final(self).overall_best_individual == Some(best_of(mode, old(self).overall_best_individual, current_best)),
//@|   final(self).best_function_values == old(self).best_function_values,
//@|   final(self).median_function_values == old(self).median_function_values,
//@|   final(self).first_median_function_value == old(self).first_median_function_value,
//@|   final(self).best_median_function_value == old(self).best_median_function_value,
//@end
}
//@fn src/history.rs - get_median_value
//@| requires individuals@.len() > 0,
//@| ensures r == median(individuals@),
//@end

// ---- whole runs ----
/// the overall best after a run, by the contract of `update`
pub open spec fn run_best(m: Mode, g: Seq<Individual>) -> Option<Individual> decreases g.len() {
    if g.len() == 0 { None } else { Some(best_of(m, run_best(m, g.drop_last()), g.last())) }
}
/// C01: after any run (the best individuals of its generations are `g`), the overall best is the
/// earliest of the best ones; nothing is strictly better; adding a generation never makes it worse
pub proof fn lemma_run_best(m: Mode, g: Seq<Individual>) /*C01*/
    requires forall|i: int| 0 <= i < g.len() ==> !nan(#[trigger] g[i].value),
    ensures g.len() == 0 <==> run_best(m, g) is None,
        g.len() > 0 ==> exists|k: int| 0 <= k < g.len() && run_best(m, g) == Some(#[trigger] g[k]) && first_best(m, g, k),
        g.len() > 1 ==> !better(m, run_best(m, g.drop_last()).unwrap().value, run_best(m, g).unwrap().value),
    decreases g.len()
{
    if g.len() > 0 {
        let p = g.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies !nan(#[trigger] p[i].value) by { assert(p[i] == g[i]); }
        lemma_run_best(m, p);
        if p.len() > 0 {
            let k = choose|k: int| 0 <= k < p.len() && run_best(m, p) == Some(#[trigger] p[k]) && first_best(m, p, k);
            assert forall|i: int| 0 <= i < p.len() implies p[i] == #[trigger] g[i] by { }
            assert(!better(m, g[0].value, p[k].value)) by { assert(p[0] == g[0]); }
            let n = g.len() - 1;
            if better(m, g[n].value, g[k].value) {
                assert forall|i: int| 0 <= i < g.len() implies !better(m, #[trigger] g[i].value, g[n].value) && (i < n ==> better(m, g[n].value, g[i].value)) by {
                    if i < n { assert(!better(m, p[i].value, p[k].value)); }
                }
                assert(first_best(m, g, n));
                assert(run_best(m, g) == Some(g[n]));
            } else {
                assert forall|i: int| 0 <= i < g.len() implies !better(m, #[trigger] g[i].value, g[k].value) && (i < k ==> better(m, g[k].value, g[i].value)) by {
                    if i < n { assert(!better(m, p[i].value, p[k].value)); if i < k { assert(better(m, p[k].value, p[i].value)); } }
                }
                assert(first_best(m, g, k));
                assert(run_best(m, g) == Some(g[k]));
            }
        } else {
            assert(first_best(m, g, 0));
            assert(run_best(m, g) == Some(g[0]));
        }
    }
}
pub open spec fn first_best(m: Mode, g: Seq<Individual>, k: int) -> bool {
    forall|i: int| 0 <= i < g.len() ==> !better(m, #[trigger] g[i].value, g[k].value) && (i < k ==> better(m, g[k].value, g[i].value))
}
/// C02: after n generations with values x the history is the newest-first sequence of x, cut at the maximum length
pub open spec fn run_history(x: Seq<F>) -> Seq<F> decreases x.len() {
    if x.len() == 0 { seq![] } else { pushed(run_history(x.drop_last()), x.last()) }
}
pub proof fn lemma_run_history(x: Seq<F>) /*C02*/
    ensures run_history(x).len() == (if x.len() < MAX_HISTORY_LENGTH { x.len() as int } else { MAX_HISTORY_LENGTH as int }),
        forall|i: int| 0 <= i < run_history(x).len() ==> #[trigger] run_history(x)[i] == x[x.len() - 1 - i],
    decreases x.len()
{
    if x.len() > 0 {
        let p = x.drop_last();
        lemma_run_history(p);
        let h = run_history(p);
        let t = seq![x.last()] + h;
        assert forall|i: int| 0 <= i < run_history(x).len() implies #[trigger] run_history(x)[i] == x[x.len() - 1 - i] by {
            if i > 0 { assert(t[i] == h[i - 1]); assert(h[i - 1] == p[p.len() - 1 - (i - 1)]); }
        }
    }
}
} // verus!
fn main() {}

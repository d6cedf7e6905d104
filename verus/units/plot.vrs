//@include prelude/head.rs
verus! {
//@include prelude/std.rs
//@include prelude/float.rs
//@include prelude/iter.rs
//@include prelude/point.rs
//@include prelude/linalg.rs
//@include prelude/ops.rs
//@include prelude/mode.rs
//@include prelude/sort.rs
//@include prelude/state.rs
//@include prelude/history.rs
//@include prelude/history_get.rs
//@item src/plotting/options.rs struct PlotOptions
//@include prelude/plot.rs probe
/// `v[i].push(x)`
#[verifier::external_body] pub fn push_at(v: &mut Vec<Vec<F>>, i: usize, x: F)
    requires i < old(v)@.len(),
    ensures final(v)@.len() == old(v)@.len(), forall|j: int| 0 <= j < final(v)@.len() ==> (#[trigger] final(v)@[j])@ == (if j == i { old(v)@[j]@.push(x) } else { old(v)@[j]@ }),
{ v[i].push(x) }
/// `g(&mut v[i])`
#[verifier::external_body] pub fn clear_at(v: &mut Vec<Vec<F>>, i: usize)
    requires i < old(v)@.len(), old(v)@[i as int]@.len() > 0,
    ensures final(v)@.len() == old(v)@.len(), forall|j: int| 0 <= j < final(v)@.len() ==> (#[trigger] final(v)@[j])@ == (if j == i { last_only(old(v)@[j]@) } else { old(v)@[j]@ }),
{ clear_series(&mut v[i]) }
/// `[T]::swap`
#[verifier::external_body] pub fn swap_<T>(v: &mut Vec<T>, i: usize, j: usize)
    requires i < old(v)@.len(), j < old(v)@.len(),
    ensures final(v)@ == old(v)@.update(i as int, old(v)@[j as int]).update(j as int, old(v)@[i as int]),
{ v.swap(i, j) }
//@closure src/plotting/data.rs "impl PlotData" clear /let clear = \|data: &mut Vec<_>\|/ clear
//@sig fn clear_series(data: &mut Vec<f64>)
//@sub * /data\.swap\(/swap_(data, /
//@| requires old(data)@.len() > 0,
//@| ensures final(data)@ =~= last_only(old(data)@), /*C20*/
//@end
impl PlotData {
//@fn src/plotting/data.rs "impl PlotData" new
//@annot #\|_\|#*|_i: usize| -> (v: Vec<F>) ensures v@.len() == 0#
//@| ensures r.wf(dimensions as int), r.function_evals@.len() == 0, /*C20*/
//@end
//@fn src/plotting/data.rs "impl PlotData" len
//@| ensures r == self.function_evals@.len(), /*C20*/
//@end
//@fn src/plotting/data.rs "impl PlotData" is_empty
//@| ensures r == (self.function_evals@.len() == 0), /*C20*/
//@end
//@fn src/plotting/data.rs "impl PlotData" add_data_point
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@forloops
//@ops
//@sub + #self\.(\w+)\[i\]\.push\(#push_at(&mut self.\1, i, #
//@sub 1 #let (\w+) = (\w+)\.as_mut_slice\(\);#let mut \1 = \2.into_vec_();#
//@sub 1 #(\w+)\.sort_by\((.*?)\);#sort_any_(&mut \1, \2, Ghost(no_order()));#
//@annot #\|a, b\|#|a: &F, b: &F| -> (o: Ordering) ensures o == no_order()(*a, *b)#
//@annot #(?<=map\()\|x\|(?=\s*x\.value)#|x: &Individual| -> (y: F) ensures y == x.value#
//@annot #(?<=map\()\|x\|(?=\s*x\.sqrt)#|x: &F| -> (y: F) ensures y == fsqrt(*x)#
//@| requires old(self).wf(dim@), state.mean@.len() == dim@, rows(state.cov.cov) == dim@, rows(state.cov.sqrt_eigenvalues) == dim@,
//@| ensures final(self).recorded(*old(self), current_function_evals as int, *state, *history), final(self).wf(dim@), /*C20*/
//@sub sig 1 /history: &History,/history: &History, dim: Ghost<int>,/
//@before /\{ let mut it0_ =/| let ghost s0_ = *self;
//@before /\{ let mut it1_ =/| let ghost s1_ = *self;
//@before /\{ let mut it2_ =/| let ghost s2_ = *self;
//@loop 0| invariant it0_.all() == all0_, all0_.len() == dim@, 0 <= it0_.pos() <= dim@, self.same_scalars(s0_), self.sqrt_eigenvalues == s0_.sqrt_eigenvalues, self.coord_axis_scales == s0_.coord_axis_scales,
//@loop 0|   pushed_upto(s0_.mean_dimensions@, self.mean_dimensions@, mean@, it0_.pos()),
//@loop 0| ensures it0_.pos() == dim@,
//@loop 0| decreases dim@ - it0_.pos(),
//@loop 1| invariant it1_.all() == all1_, all1_.len() == dim@, 0 <= it1_.pos() <= dim@, self.same_scalars(s1_), self.mean_dimensions == s1_.mean_dimensions, self.coord_axis_scales == s1_.coord_axis_scales,
//@loop 1|   pushed_upto(s1_.sqrt_eigenvalues@, self.sqrt_eigenvalues@, offsets(e_), it1_.pos()),
//@loop 1| ensures it1_.pos() == dim@,
//@loop 1| decreases dim@ - it1_.pos(),
//@loop 2| invariant it2_.all() == all2_, all2_.len() == dim@, 0 <= it2_.pos() <= dim@, self.same_scalars(s2_), self.mean_dimensions == s2_.mean_dimensions, self.sqrt_eigenvalues == s2_.sqrt_eigenvalues,
//@loop 2|   pushed_upto(s2_.coord_axis_scales@, self.coord_axis_scales@, roots(diag_of(state.cov.cov)@), it2_.pos()),
//@loop 2| ensures it2_.pos() == dim@,
//@loop 2| decreases dim@ - it2_.pos(),
//@start| broadcast use axiom_diag;
//@before /\{ let mut it1_ =/| let ghost e_ = sorted_sqrt_eigenvalues@;
//@atend| proof { let x_ = roots(diag_of(state.cov.cov)@); assert(pushed_all(s1_.sqrt_eigenvalues@, self.sqrt_eigenvalues@, offsets(e_))); assert(pushed_all(s2_.coord_axis_scales@, self.coord_axis_scales@, x_)); assert(self.recorded(*old(self), current_function_evals as int, *state, *history)); }
//@end
//@fn src/plotting/data.rs "impl PlotData" clear
//@nloops 3
//@| requires old(self).wf(dim@), old(self).function_evals@.len() > 0,
//@| ensures final(self).cleared(*old(self)), final(self).wf(dim@), /*C20*/
//@sub sig 1 /&mut self/&mut self, dim: Ghost<int>/
//@cut /let clear = \|data: &mut Vec<_>\|/()/
//@sub + /\bclear\(&mut self/clear_series(&mut self/
//@sub * /self\.function_evals\.swap\(/swap_(&mut self.function_evals, /
//@sub + /for (\w+) in &mut self\.(\w+) \{\s*clear\(\1\);\s*\}/{ let mut i_: usize = 0; let ghost o_ = self.\2@; while i_ < self.\2.len() invariant i_ <= self.\2@.len(), self.\2@.len() == o_.len(), forall|j: int| 0 <= j < o_.len() ==> (#[trigger] o_[j])@.len() > 0, forall|j: int| 0 <= j < o_.len() ==> (#[trigger] self.\2@[j])@ == (if j < i_ { last_only(o_[j]@) } else { o_[j]@ }), decreases self.\2@.len() - i_ { clear_at(&mut self.\2, i_); i_ += 1; } }/
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@end
}
impl Plot {
//@fn src/plotting/mod.rs "impl Plot" new
//@| ensures r.wf(dimensions as int), r.data.function_evals@.len() == 0, r.options == options, r.mode == mode, /*C20*/
//@end
//@fn src/plotting/mod.rs "impl Plot" get_next_data_point_evals
//@| requires self.next_evals() <= usize::MAX,
//@| ensures r == self.next_evals(), /*C20*/
//@end
//@fn src/plotting/mod.rs "impl Plot" add_data_point
//@sub sig 1 /history: &History,/history: &History, dim: Ghost<int>,/
//@sub 1 /\.add_data_point\((.*?)\);/.add_data_point(\1, dim);/
//@| requires old(self).wf(dim@), state.mean@.len() == dim@, rows(state.cov.cov) == dim@, rows(state.cov.sqrt_eigenvalues) == dim@,
//@| ensures final(self).point_added(*old(self), current_function_evals as int, *state, *history), final(self).wf(dim@), /*C20*/
//@end
//@fn src/plotting/mod.rs "impl Plot" len
//@| ensures r == self.data.function_evals@.len(), /*C20*/
//@end
//@fn src/plotting/mod.rs "impl Plot" is_empty
//@| ensures r == (self.data.function_evals@.len() == 0), /*C20*/
//@end
//@fn src/plotting/mod.rs "impl Plot" clear
//@sub sig 1 /&mut self/&mut self, dim: Ghost<int>/
//@sub 1 /\.clear\(\)/.clear(dim)/
//@| requires old(self).wf(dim@), old(self).data.function_evals@.len() > 0,
//@| ensures final(self).data.cleared(old(self).data), final(self).wf(dim@), /*C20*/
//@end
}
} // verus!
fn main() {}

// Contract shim of the nalgebra operations in use: results are uninterpreted functions of the
// arguments (whatever the rounding), so nothing about their values is assumed. The operators are in
// ops.rs.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)] pub struct SquareMatrix<T> { v: Vec<T> }
impl Clone for SquareMatrix<F> { #[verifier::external_body] fn clone(&self) -> (r: SquareMatrix<F>) ensures r == *self { unimplemented!() } }
/// the transpose of a vector
#[verifier::external_body] pub struct RowVec { v: Vec<u8> }
pub uninterp spec fn of_seq(s: Seq<F>) -> DVector<F>;
pub broadcast axiom fn axiom_of_seq(s: Seq<F>) ensures #[trigger] of_seq(s)@ == s;
pub uninterp spec fn dv_add(a: DVector<F>, b: DVector<F>) -> DVector<F>;
pub uninterp spec fn dv_sub(a: DVector<F>, b: DVector<F>) -> DVector<F>;
pub uninterp spec fn dv_scale(a: F, b: DVector<F>) -> DVector<F>;
pub uninterp spec fn dv_div(a: DVector<F>, b: F) -> DVector<F>;
pub uninterp spec fn mm_add(a: SquareMatrix<F>, b: SquareMatrix<F>) -> SquareMatrix<F>;
pub uninterp spec fn mm_sub(a: SquareMatrix<F>, b: SquareMatrix<F>) -> SquareMatrix<F>;
pub uninterp spec fn mm_scale(a: F, b: SquareMatrix<F>) -> SquareMatrix<F>;
pub uninterp spec fn mm_div(a: SquareMatrix<F>, b: F) -> SquareMatrix<F>;
pub uninterp spec fn mat_vec(a: SquareMatrix<F>, b: DVector<F>) -> DVector<F>;
pub uninterp spec fn mat_mul(a: SquareMatrix<F>, b: SquareMatrix<F>) -> SquareMatrix<F>;
pub uninterp spec fn outer(a: DVector<F>, b: RowVec) -> SquareMatrix<F>;
pub uninterp spec fn transposed(a: DVector<F>) -> RowVec;
pub uninterp spec fn dv_zeros(n: int) -> DVector<F>;
pub uninterp spec fn dv_norm(a: DVector<F>) -> F;
impl DVector<F> {
    #[verifier::external_body] pub fn from_iterator(n: usize, it: It<F>) -> (r: DVector<F>)
        requires it.fresh(), it.all().len() >= n,
        ensures r@ == it.all().take(n as int),
    { unimplemented!() }
    #[verifier::external_body] pub fn from_vec_(v: Vec<F>) -> (r: DVector<F>) ensures r@ == v@, r == of_seq(v@) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r as int == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn zeros(n: usize) -> (r: DVector<F>) ensures r == dv_zeros(n as int) { unimplemented!() }
    #[verifier::external_body] pub fn magnitude(&self) -> (r: F) ensures r == dv_norm(*self) { unimplemented!() }
    #[verifier::external_body] pub fn transpose(&self) -> (r: RowVec) ensures r == transposed(*self) { unimplemented!() }
}
pub broadcast axiom fn axiom_dv_zeros(n: int) ensures #![trigger dv_zeros(n)] 0 <= n ==> dv_zeros(n)@.len() == n;
impl IndexSpecImpl<usize> for DVector<F> { open spec fn index_req(&self, i: &usize) -> bool { 0 <= *i < self@.len() } }
impl core::ops::Index<usize> for DVector<F> { type Output = F; #[verifier::external_body] fn index(&self, i: usize) -> (r: &F) ensures *r == self@[i as int] { unimplemented!() } }
// entries of matrices
pub uninterp spec fn entry(m: SquareMatrix<F>, i: int, j: int) -> F;
pub uninterp spec fn rows(m: SquareMatrix<F>) -> int;
pub uninterp spec fn diag_of(m: SquareMatrix<F>) -> DVector<F>;
pub uninterp spec fn column_of(m: SquareMatrix<F>, j: int) -> DVector<F>;
pub uninterp spec fn dv_max(v: DVector<F>) -> F;
pub uninterp spec fn dv_min(v: DVector<F>) -> F;
pub broadcast axiom fn axiom_diag(m: SquareMatrix<F>) ensures #![trigger diag_of(m)] diag_of(m)@.len() == rows(m), forall|i: int| 0 <= i < rows(m) ==> #[trigger] diag_of(m)@[i] == entry(m, i, i);
impl SquareMatrix<F> {
    /// `m[(i, j)]`
    #[verifier::external_body] pub fn at(&self, i: usize, j: usize) -> (r: F) requires i < rows(*self), j < rows(*self) ensures r == entry(*self, i as int, j as int) { unimplemented!() }
    #[verifier::external_body] pub fn diagonal(&self) -> (r: DVector<F>) ensures r == diag_of(*self) { unimplemented!() }
    #[verifier::external_body] pub fn column(&self, j: usize) -> (r: DVector<F>) requires j < rows(*self) ensures r == column_of(*self, j as int) { unimplemented!() }
}
impl DVector<F> {
    #[verifier::external_body] pub fn max(&self) -> (r: F) ensures r == dv_max(*self) { unimplemented!() }
    #[verifier::external_body] pub fn min(&self) -> (r: F) ensures r == dv_min(*self) { unimplemented!() }
}
/// `==` of vectors: same length and every entry equal (as floats)
pub open spec fn dv_eq(a: DVector<F>, b: DVector<F>) -> bool { a@.len() == b@.len() && forall|i: int| 0 <= i < a@.len() ==> feq(#[trigger] a@[i], b@[i]) }
impl PartialEqSpecImpl<DVector<F>> for DVector<F> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &DVector<F>) -> bool { dv_eq(*self, *o) } }
impl PartialEq for DVector<F> { #[verifier::external_body] fn eq(&self, o: &DVector<F>) -> (r: bool) { unimplemented!() } }
impl ToIt<F> for DVector<F> {
    open spec fn elems(&self) -> Seq<F> { self@ }
    #[verifier::external_body] fn it<'a>(&'a self) -> (r: It<&'a F>) { unimplemented!() }
    #[verifier::external_body] fn into_it(self) -> (r: It<F>) { unimplemented!() }
}
// the remaining nalgebra functions used for the covariance matrix
pub uninterp spec fn mm_identity(n: int) -> SquareMatrix<F>;
pub uninterp spec fn mm_zeros(n: int) -> SquareMatrix<F>;
pub uninterp spec fn mm_transpose(a: SquareMatrix<F>) -> SquareMatrix<F>;
pub uninterp spec fn mm_diag(d: DVector<F>) -> SquareMatrix<F>;
pub uninterp spec fn mm_map(a: SquareMatrix<F>, g: spec_fn(F) -> F) -> SquareMatrix<F>;
/// the lower triangle is overwritten with the upper one
pub uninterp spec fn symmetrized(a: SquareMatrix<F>) -> SquareMatrix<F>;
pub broadcast axiom fn axiom_symmetrized(m: SquareMatrix<F>)
    ensures #![trigger symmetrized(m)] rows(symmetrized(m)) == rows(m), forall|i: int, j: int| 0 <= i < rows(m) && 0 <= j < rows(m) ==> #[trigger] entry(symmetrized(m), i, j) == (if i <= j { entry(m, i, j) } else { entry(m, j, i) });
pub broadcast axiom fn axiom_identity(n: int)
    ensures #![trigger mm_identity(n)] n >= 0 ==> rows(mm_identity(n)) == n && forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] entry(mm_identity(n), i, j) == (if i == j { flit(1real) } else { flit(0real) });
pub broadcast axiom fn axiom_zeros(n: int) ensures #![trigger mm_zeros(n)] n >= 0 ==> rows(mm_zeros(n)) == n;
pub broadcast axiom fn axiom_mm_diag(d: DVector<F>) ensures #![trigger mm_diag(d)] rows(mm_diag(d)) == d@.len(), forall|i: int| 0 <= i < d@.len() ==> #[trigger] entry(mm_diag(d), i, i) == d@[i];
pub open spec fn is_symmetric(m: SquareMatrix<F>) -> bool { forall|i: int, j: int| 0 <= i < rows(m) && 0 <= j < rows(m) ==> #[trigger] entry(m, i, j) == entry(m, j, i) }
impl SquareMatrix<F> {
    #[verifier::external_body] pub fn identity(n: usize, m: usize) -> (r: SquareMatrix<F>) requires n == m ensures r == mm_identity(n as int) { unimplemented!() }
    #[verifier::external_body] pub fn zeros(n: usize, m: usize) -> (r: SquareMatrix<F>) requires n == m ensures r == mm_zeros(n as int) { unimplemented!() }
    #[verifier::external_body] pub fn transpose(&self) -> (r: SquareMatrix<F>) ensures r == mm_transpose(*self) { unimplemented!() }
    #[verifier::external_body] pub fn from_diagonal(d: &DVector<F>) -> (r: SquareMatrix<F>) ensures r == mm_diag(*d) { unimplemented!() }
    #[verifier::external_body] pub fn fill_lower_triangle_with_upper_triangle(&mut self) ensures *final(self) == symmetrized(*old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn map_<P: Fn(F) -> F>(&self, g: Ghost<spec_fn(F) -> F>, f: P) -> (r: SquareMatrix<F>)
        requires forall|x: F| #[trigger] call_requires(f, (x,)), forall|x: F, y: F| #[trigger] call_ensures(f, (x,), y) ==> y == g@(x),
        ensures r == mm_map(*self, g@) { unimplemented!() }
}
impl DVector<F> {
    #[verifier::external_body] pub fn map<P: Fn(F) -> F>(&self, f: P) -> (r: DVector<F>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> call_ensures(f, (self@[i],), #[trigger] r@[i]) { unimplemented!() }
}
// entrywise addition is commutative; dimensions of the results
pub broadcast axiom fn axiom_dv_add_comm(a: DVector<F>, b: DVector<F>) ensures #[trigger] dv_add(a, b) == dv_add(b, a);
pub broadcast axiom fn axiom_mm_add_comm(a: SquareMatrix<F>, b: SquareMatrix<F>) ensures #[trigger] mm_add(a, b) == mm_add(b, a);
pub broadcast axiom fn axiom_dv_add_len(a: DVector<F>, b: DVector<F>) ensures a@.len() == b@.len() ==> (#[trigger] dv_add(a, b))@.len() == a@.len();
pub broadcast axiom fn axiom_dv_scale_len(a: F, b: DVector<F>) ensures (#[trigger] dv_scale(a, b))@.len() == b@.len();
pub broadcast axiom fn axiom_mat_vec_len(a: SquareMatrix<F>, b: DVector<F>) ensures (#[trigger] mat_vec(a, b))@.len() == rows(a);
pub broadcast axiom fn axiom_mm_add_rows(a: SquareMatrix<F>, b: SquareMatrix<F>) ensures rows(a) == rows(b) ==> rows(#[trigger] mm_add(a, b)) == rows(a);
pub broadcast axiom fn axiom_mm_scale_rows(a: F, b: SquareMatrix<F>) ensures rows(#[trigger] mm_scale(a, b)) == rows(b);
pub broadcast axiom fn axiom_mat_mul_rows(a: SquareMatrix<F>, b: SquareMatrix<F>) ensures rows(#[trigger] mat_mul(a, b)) == rows(a);
pub broadcast axiom fn axiom_outer_rows(a: DVector<F>, b: RowVec) ensures rows(#[trigger] outer(a, b)) == a@.len();
pub broadcast group shape_axioms { axiom_dv_add_comm, axiom_mm_add_comm, axiom_dv_add_len, axiom_dv_scale_len, axiom_mat_vec_len, axiom_mm_add_rows, axiom_mm_scale_rows, axiom_mat_mul_rows, axiom_outer_rows, axiom_dv_zeros, axiom_zeros }
impl DVector<F> {
    #[verifier::external_body] pub fn as_slice(&self) -> (r: &[F]) ensures r@ == self@ { unimplemented!() }
}
// ---- `sum` and rayon's `reduce` ----
pub open spec fn vsum(s: Seq<DVector<F>>) -> DVector<F> decreases s.len() { if s.len() <= 1 { s[0] } else { dv_add(vsum(s.drop_last()), s.last()) } }
pub open spec fn msum(s: Seq<SquareMatrix<F>>) -> SquareMatrix<F> decreases s.len() { if s.len() <= 1 { s[0] } else { mm_add(msum(s.drop_last()), s.last()) } }
/// the neutral start value of a sum of floats
pub uninterp spec fn fsum_start() -> F;
pub open spec fn fsum(s: Seq<F>) -> F decreases s.len() { if s.len() == 0 { fsum_start() } else { fadd(fsum(s.drop_last()), s.last()) } }
pub trait SumFrom<T>: Sized { spec fn sum_req(s: Seq<T>) -> bool; spec fn summed(s: Seq<T>) -> Self; }
// nalgebra's sums panic on an empty iterator
impl SumFrom<DVector<F>> for DVector<F> { open spec fn sum_req(s: Seq<DVector<F>>) -> bool { s.len() > 0 } open spec fn summed(s: Seq<DVector<F>>) -> Self { vsum(s) } }
impl SumFrom<SquareMatrix<F>> for SquareMatrix<F> { open spec fn sum_req(s: Seq<SquareMatrix<F>>) -> bool { s.len() > 0 } open spec fn summed(s: Seq<SquareMatrix<F>>) -> Self { msum(s) } }
impl SumFrom<F> for F { open spec fn sum_req(s: Seq<F>) -> bool { true } open spec fn summed(s: Seq<F>) -> Self { fsum(s) } }
impl<'a> SumFrom<&'a F> for F { open spec fn sum_req(s: Seq<&'a F>) -> bool { true } open spec fn summed(s: Seq<&'a F>) -> Self { fsum(derefs(s)) } }
pub open spec fn derefs(s: Seq<&F>) -> Seq<F> { Seq::new(s.len(), |i: int| *s[i]) }
/// `r` is a combination of the elements of `s` with `op` in some association, the identity put in anywhere
pub uninterp spec fn reduced<T>(s: Seq<T>, id: T, op: spec_fn(T, T) -> T, r: T) -> bool;
pub broadcast axiom fn axiom_reduced_rows(s: Seq<SquareMatrix<F>>, id: SquareMatrix<F>, op: spec_fn(SquareMatrix<F>, SquareMatrix<F>) -> SquareMatrix<F>, r: SquareMatrix<F>)
    ensures #[trigger] reduced(s, id, op, r) && op == mm_plus() && (forall|i: int| 0 <= i < s.len() ==> rows(#[trigger] s[i]) == rows(id)) ==> rows(r) == rows(id);
pub open spec fn mm_plus() -> spec_fn(SquareMatrix<F>, SquareMatrix<F>) -> SquareMatrix<F> { |a: SquareMatrix<F>, b: SquareMatrix<F>| mm_add(a, b) }
impl<T> It<T> {
    #[verifier::external_body] pub fn sum<S: SumFrom<T>>(self) -> (r: S) requires self.fresh(), S::sum_req(self.all()) ensures r == S::summed(self.all()) { unimplemented!() }
    #[verifier::external_body] pub fn reduce_<I: Fn() -> T, P: Fn(T, T) -> T>(self, id: Ghost<T>, op: Ghost<spec_fn(T, T) -> T>, i: I, p: P) -> (r: T)
        requires self.fresh(), i.requires(()), forall|x: T| #[trigger] call_ensures(i, (), x) ==> x == id@,
            forall|a: T, b: T| #[trigger] call_requires(p, (a, b)), forall|a: T, b: T, x: T| #[trigger] call_ensures(p, (a, b), x) ==> x == op@(a, b),
        ensures reduced(self.all(), id@, op@, r) { unimplemented!() }
}
pub proof fn lemma_vsum_len(s: Seq<DVector<F>>, n: int)
    requires s.len() > 0, forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@.len() == n,
    ensures vsum(s)@.len() == n,
    decreases s.len()
{
    broadcast use shape_axioms;
    if s.len() > 1 { lemma_vsum_len(s.drop_last(), n); }
}
pub proof fn lemma_msum_rows(s: Seq<SquareMatrix<F>>, n: int)
    requires s.len() > 0, forall|i: int| 0 <= i < s.len() ==> rows(#[trigger] s[i]) == n,
    ensures rows(msum(s)) == n,
    decreases s.len()
{
    broadcast use shape_axioms;
    if s.len() > 1 { lemma_msum_rows(s.drop_last(), n); }
}
/// `x.pow(n)` of a usize, exact when it fits
pub trait UPow: Sized { spec fn upow_s(self, n: u32) -> int; fn upow(self, n: u32) -> (r: usize) ensures r as int == self.upow_s(n); }
impl UPow for usize { open spec fn upow_s(self, n: u32) -> int { if n == 2 { (self * self) as usize as int } else { upow_other(self, n) } } #[verifier::external_body] fn upow(self, n: u32) -> (r: usize) { unimplemented!() } }
pub uninterp spec fn upow_other(a: usize, n: u32) -> int;
impl DVector<F> {
    /// `v[i] = x`
    #[verifier::external_body] pub fn into_vec_(self) -> (r: Vec<F>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn set_(&mut self, i: usize, x: F) requires i < old(self)@.len() ensures final(self)@ == old(self)@.update(i as int, x) { unimplemented!() }
}
pub trait IntoDv { spec fn dv(self) -> Seq<F>; fn into_dv(self) -> (r: DVector<F>) ensures r@ == self.dv(), r == of_seq(self.dv()); }
impl IntoDv for Vec<F> { open spec fn dv(self) -> Seq<F> { self@ } #[verifier::external_body] fn into_dv(self) -> (r: DVector<F>) { unimplemented!() } }
impl IntoDv for DVector<F> { open spec fn dv(self) -> Seq<F> { self@ } #[verifier::external_body] fn into_dv(self) -> (r: DVector<F>) { self } }
// sums of iterators with known elements
pub proof fn lemma_fsum_ext(t: Seq<F>)
    ensures forall|s: Seq<F>| s.len() == t.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == t[i]) ==> #[trigger] fsum(s) == fsum(t),
{
    assert forall|s: Seq<F>| s.len() == t.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == t[i]) implies #[trigger] fsum(s) == fsum(t) by { assert(s =~= t); }
}
pub proof fn lemma_filter_sum(w: Seq<F>, p: spec_fn(F) -> bool)
    ensures forall|s: Seq<&F>, keep: Seq<bool>| s.len() == keep.len() && s.len() == w.len() && (forall|i: int| 0 <= i < s.len() ==> *#[trigger] s[i] == w[i]) && (forall|i: int| 0 <= i < s.len() ==> #[trigger] keep[i] == p(w[i]))
        ==> derefs(#[trigger] select(s, keep)) == w.filter(p),
{
    assert forall|s: Seq<&F>, keep: Seq<bool>| s.len() == keep.len() && s.len() == w.len() && (forall|i: int| 0 <= i < s.len() ==> *#[trigger] s[i] == w[i]) && (forall|i: int| 0 <= i < s.len() ==> #[trigger] keep[i] == p(w[i]))
        implies derefs(#[trigger] select(s, keep)) == w.filter(p) by { lemma_select_derefs(s, keep); assert(derefs(s) =~= w); lemma_select_is_filter(w, keep, p); }
}
pub proof fn lemma_select_derefs(s: Seq<&F>, keep: Seq<bool>)
    requires s.len() == keep.len(),
    ensures derefs(select(s, keep)) =~= select(derefs(s), keep),
    decreases s.len()
{
    if s.len() > 0 {
        lemma_select_derefs(s.drop_last(), keep.drop_last());
        assert(derefs(s).drop_last() =~= derefs(s.drop_last()));
    }
}

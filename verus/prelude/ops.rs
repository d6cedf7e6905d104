// generated by tools/gen_ops.py: contracts of the arithmetic operators (see tools/opify.py)
// F and linear algebra: uninterpreted functions of the operands; machine integers: exact when the result fits
pub trait LaAdd<R>: Sized { type O; spec fn add_s(self, r: R) -> Self::O; fn la_add_(self, r: R) -> (o: Self::O) ensures o == self.add_s(r); }
pub fn la_add<A: LaAdd<B>, B>(a: A, b: B) -> (r: A::O) ensures r == a.add_s(b) { a.la_add_(b) }
impl LaAdd<F> for F { type O = F; open spec fn add_s(self, o: F) -> F { fadd(self, o) } #[verifier::external_body] fn la_add_(self, o: F) -> (r: F) { unimplemented!() } }
impl<'b> LaAdd<&'b F> for F { type O = F; open spec fn add_s(self, o: &'b F) -> F { fadd(self, *o) } #[verifier::external_body] fn la_add_(self, o: &'b F) -> (r: F) { unimplemented!() } }
impl<'a> LaAdd<F> for &'a F { type O = F; open spec fn add_s(self, o: F) -> F { fadd(*self, o) } #[verifier::external_body] fn la_add_(self, o: F) -> (r: F) { unimplemented!() } }
impl<'a, 'b> LaAdd<&'b F> for &'a F { type O = F; open spec fn add_s(self, o: &'b F) -> F { fadd(*self, *o) } #[verifier::external_body] fn la_add_(self, o: &'b F) -> (r: F) { unimplemented!() } }
impl LaAdd<DVector<F>> for DVector<F> { type O = DVector<F>; open spec fn add_s(self, o: DVector<F>) -> DVector<F> { dv_add(self, o) } #[verifier::external_body] fn la_add_(self, o: DVector<F>) -> (r: DVector<F>) { unimplemented!() } }
impl<'b> LaAdd<&'b DVector<F>> for DVector<F> { type O = DVector<F>; open spec fn add_s(self, o: &'b DVector<F>) -> DVector<F> { dv_add(self, *o) } #[verifier::external_body] fn la_add_(self, o: &'b DVector<F>) -> (r: DVector<F>) { unimplemented!() } }
impl<'a> LaAdd<DVector<F>> for &'a DVector<F> { type O = DVector<F>; open spec fn add_s(self, o: DVector<F>) -> DVector<F> { dv_add(*self, o) } #[verifier::external_body] fn la_add_(self, o: DVector<F>) -> (r: DVector<F>) { unimplemented!() } }
impl<'a, 'b> LaAdd<&'b DVector<F>> for &'a DVector<F> { type O = DVector<F>; open spec fn add_s(self, o: &'b DVector<F>) -> DVector<F> { dv_add(*self, *o) } #[verifier::external_body] fn la_add_(self, o: &'b DVector<F>) -> (r: DVector<F>) { unimplemented!() } }
impl LaAdd<SquareMatrix<F>> for SquareMatrix<F> { type O = SquareMatrix<F>; open spec fn add_s(self, o: SquareMatrix<F>) -> SquareMatrix<F> { mm_add(self, o) } #[verifier::external_body] fn la_add_(self, o: SquareMatrix<F>) -> (r: SquareMatrix<F>) { unimplemented!() } }
impl<'b> LaAdd<&'b SquareMatrix<F>> for SquareMatrix<F> { type O = SquareMatrix<F>; open spec fn add_s(self, o: &'b SquareMatrix<F>) -> SquareMatrix<F> { mm_add(self, *o) } #[verifier::external_body] fn la_add_(self, o: &'b SquareMatrix<F>) -> (r: SquareMatrix<F>) { unimplemented!() } }
impl<'a> LaAdd<SquareMatrix<F>> for &'a SquareMatrix<F> { type O = SquareMatrix<F>; open spec fn add_s(self, o: SquareMatrix<F>) -> SquareMatrix<F> { mm_add(*self, o) } #[verifier::external_body] fn la_add_(self, o: SquareMatrix<F>) -> (r: SquareMatrix<F>) { unimplemented!() } }
impl<'a, 'b> LaAdd<&'b SquareMatrix<F>> for &'a SquareMatrix<F> { type O = SquareMatrix<F>; open spec fn add_s(self, o: &'b SquareMatrix<F>) -> SquareMatrix<F> { mm_add(*self, *o) } #[verifier::external_body] fn la_add_(self, o: &'b SquareMatrix<F>) -> (r: SquareMatrix<F>) { unimplemented!() } }
impl LaAdd<usize> for usize { type O = usize; open spec fn add_s(self, o: usize) -> usize { (self + o) as usize } #[verifier::external_body] fn la_add_(self, o: usize) -> (r: usize) { unimplemented!() } }
impl LaAdd<i32> for i32 { type O = i32; open spec fn add_s(self, o: i32) -> i32 { (self + o) as i32 } #[verifier::external_body] fn la_add_(self, o: i32) -> (r: i32) { unimplemented!() } }
pub trait LaSub<R>: Sized { type O; spec fn sub_s(self, r: R) -> Self::O; fn la_sub_(self, r: R) -> (o: Self::O) ensures o == self.sub_s(r); }
pub fn la_sub<A: LaSub<B>, B>(a: A, b: B) -> (r: A::O) ensures r == a.sub_s(b) { a.la_sub_(b) }
impl LaSub<F> for F { type O = F; open spec fn sub_s(self, o: F) -> F { fsub(self, o) } #[verifier::external_body] fn la_sub_(self, o: F) -> (r: F) { unimplemented!() } }
impl<'b> LaSub<&'b F> for F { type O = F; open spec fn sub_s(self, o: &'b F) -> F { fsub(self, *o) } #[verifier::external_body] fn la_sub_(self, o: &'b F) -> (r: F) { unimplemented!() } }
impl<'a> LaSub<F> for &'a F { type O = F; open spec fn sub_s(self, o: F) -> F { fsub(*self, o) } #[verifier::external_body] fn la_sub_(self, o: F) -> (r: F) { unimplemented!() } }
impl<'a, 'b> LaSub<&'b F> for &'a F { type O = F; open spec fn sub_s(self, o: &'b F) -> F { fsub(*self, *o) } #[verifier::external_body] fn la_sub_(self, o: &'b F) -> (r: F) { unimplemented!() } }
impl LaSub<DVector<F>> for DVector<F> { type O = DVector<F>; open spec fn sub_s(self, o: DVector<F>) -> DVector<F> { dv_sub(self, o) } #[verifier::external_body] fn la_sub_(self, o: DVector<F>) -> (r: DVector<F>) { unimplemented!() } }
impl<'b> LaSub<&'b DVector<F>> for DVector<F> { type O = DVector<F>; open spec fn sub_s(self, o: &'b DVector<F>) -> DVector<F> { dv_sub(self, *o) } #[verifier::external_body] fn la_sub_(self, o: &'b DVector<F>) -> (r: DVector<F>) { unimplemented!() } }
impl<'a> LaSub<DVector<F>> for &'a DVector<F> { type O = DVector<F>; open spec fn sub_s(self, o: DVector<F>) -> DVector<F> { dv_sub(*self, o) } #[verifier::external_body] fn la_sub_(self, o: DVector<F>) -> (r: DVector<F>) { unimplemented!() } }
impl<'a, 'b> LaSub<&'b DVector<F>> for &'a DVector<F> { type O = DVector<F>; open spec fn sub_s(self, o: &'b DVector<F>) -> DVector<F> { dv_sub(*self, *o) } #[verifier::external_body] fn la_sub_(self, o: &'b DVector<F>) -> (r: DVector<F>) { unimplemented!() } }
impl LaSub<SquareMatrix<F>> for SquareMatrix<F> { type O = SquareMatrix<F>; open spec fn sub_s(self, o: SquareMatrix<F>) -> SquareMatrix<F> { mm_sub(self, o) } #[verifier::external_body] fn la_sub_(self, o: SquareMatrix<F>) -> (r: SquareMatrix<F>) { unimplemented!() } }
impl<'b> LaSub<&'b SquareMatrix<F>> for SquareMatrix<F> { type O = SquareMatrix<F>; open spec fn sub_s(self, o: &'b SquareMatrix<F>) -> SquareMatrix<F> { mm_sub(self, *o) } #[verifier::external_body] fn la_sub_(self, o: &'b SquareMatrix<F>) -> (r: SquareMatrix<F>) { unimplemented!() } }
impl<'a> LaSub<SquareMatrix<F>> for &'a SquareMatrix<F> { type O = SquareMatrix<F>; open spec fn sub_s(self, o: SquareMatrix<F>) -> SquareMatrix<F> { mm_sub(*self, o) } #[verifier::external_body] fn la_sub_(self, o: SquareMatrix<F>) -> (r: SquareMatrix<F>) { unimplemented!() } }
impl<'a, 'b> LaSub<&'b SquareMatrix<F>> for &'a SquareMatrix<F> { type O = SquareMatrix<F>; open spec fn sub_s(self, o: &'b SquareMatrix<F>) -> SquareMatrix<F> { mm_sub(*self, *o) } #[verifier::external_body] fn la_sub_(self, o: &'b SquareMatrix<F>) -> (r: SquareMatrix<F>) { unimplemented!() } }
impl LaSub<usize> for usize { type O = usize; open spec fn sub_s(self, o: usize) -> usize { (self - o) as usize } #[verifier::external_body] fn la_sub_(self, o: usize) -> (r: usize) { unimplemented!() } }
impl LaSub<i32> for i32 { type O = i32; open spec fn sub_s(self, o: i32) -> i32 { (self - o) as i32 } #[verifier::external_body] fn la_sub_(self, o: i32) -> (r: i32) { unimplemented!() } }
pub trait LaMul<R>: Sized { type O; spec fn mul_s(self, r: R) -> Self::O; fn la_mul_(self, r: R) -> (o: Self::O) ensures o == self.mul_s(r); }
pub fn la_mul<A: LaMul<B>, B>(a: A, b: B) -> (r: A::O) ensures r == a.mul_s(b) { a.la_mul_(b) }
impl LaMul<F> for F { type O = F; open spec fn mul_s(self, o: F) -> F { fmul(self, o) } #[verifier::external_body] fn la_mul_(self, o: F) -> (r: F) { unimplemented!() } }
impl<'b> LaMul<&'b F> for F { type O = F; open spec fn mul_s(self, o: &'b F) -> F { fmul(self, *o) } #[verifier::external_body] fn la_mul_(self, o: &'b F) -> (r: F) { unimplemented!() } }
impl<'a> LaMul<F> for &'a F { type O = F; open spec fn mul_s(self, o: F) -> F { fmul(*self, o) } #[verifier::external_body] fn la_mul_(self, o: F) -> (r: F) { unimplemented!() } }
impl<'a, 'b> LaMul<&'b F> for &'a F { type O = F; open spec fn mul_s(self, o: &'b F) -> F { fmul(*self, *o) } #[verifier::external_body] fn la_mul_(self, o: &'b F) -> (r: F) { unimplemented!() } }
impl LaMul<DVector<F>> for F { type O = DVector<F>; open spec fn mul_s(self, o: DVector<F>) -> DVector<F> { dv_scale(self, o) } #[verifier::external_body] fn la_mul_(self, o: DVector<F>) -> (r: DVector<F>) { unimplemented!() } }
impl<'b> LaMul<&'b DVector<F>> for F { type O = DVector<F>; open spec fn mul_s(self, o: &'b DVector<F>) -> DVector<F> { dv_scale(self, *o) } #[verifier::external_body] fn la_mul_(self, o: &'b DVector<F>) -> (r: DVector<F>) { unimplemented!() } }
impl LaMul<F> for DVector<F> { type O = DVector<F>; open spec fn mul_s(self, o: F) -> DVector<F> { dv_scale(o, self) } #[verifier::external_body] fn la_mul_(self, o: F) -> (r: DVector<F>) { unimplemented!() } }
impl<'a> LaMul<F> for &'a DVector<F> { type O = DVector<F>; open spec fn mul_s(self, o: F) -> DVector<F> { dv_scale(o, *self) } #[verifier::external_body] fn la_mul_(self, o: F) -> (r: DVector<F>) { unimplemented!() } }
impl LaMul<SquareMatrix<F>> for F { type O = SquareMatrix<F>; open spec fn mul_s(self, o: SquareMatrix<F>) -> SquareMatrix<F> { mm_scale(self, o) } #[verifier::external_body] fn la_mul_(self, o: SquareMatrix<F>) -> (r: SquareMatrix<F>) { unimplemented!() } }
impl<'b> LaMul<&'b SquareMatrix<F>> for F { type O = SquareMatrix<F>; open spec fn mul_s(self, o: &'b SquareMatrix<F>) -> SquareMatrix<F> { mm_scale(self, *o) } #[verifier::external_body] fn la_mul_(self, o: &'b SquareMatrix<F>) -> (r: SquareMatrix<F>) { unimplemented!() } }
impl LaMul<F> for SquareMatrix<F> { type O = SquareMatrix<F>; open spec fn mul_s(self, o: F) -> SquareMatrix<F> { mm_scale(o, self) } #[verifier::external_body] fn la_mul_(self, o: F) -> (r: SquareMatrix<F>) { unimplemented!() } }
impl<'a> LaMul<F> for &'a SquareMatrix<F> { type O = SquareMatrix<F>; open spec fn mul_s(self, o: F) -> SquareMatrix<F> { mm_scale(o, *self) } #[verifier::external_body] fn la_mul_(self, o: F) -> (r: SquareMatrix<F>) { unimplemented!() } }
impl LaMul<DVector<F>> for SquareMatrix<F> { type O = DVector<F>; open spec fn mul_s(self, o: DVector<F>) -> DVector<F> { mat_vec(self, o) } #[verifier::external_body] fn la_mul_(self, o: DVector<F>) -> (r: DVector<F>) { unimplemented!() } }
impl<'b> LaMul<&'b DVector<F>> for SquareMatrix<F> { type O = DVector<F>; open spec fn mul_s(self, o: &'b DVector<F>) -> DVector<F> { mat_vec(self, *o) } #[verifier::external_body] fn la_mul_(self, o: &'b DVector<F>) -> (r: DVector<F>) { unimplemented!() } }
impl<'a> LaMul<DVector<F>> for &'a SquareMatrix<F> { type O = DVector<F>; open spec fn mul_s(self, o: DVector<F>) -> DVector<F> { mat_vec(*self, o) } #[verifier::external_body] fn la_mul_(self, o: DVector<F>) -> (r: DVector<F>) { unimplemented!() } }
impl<'a, 'b> LaMul<&'b DVector<F>> for &'a SquareMatrix<F> { type O = DVector<F>; open spec fn mul_s(self, o: &'b DVector<F>) -> DVector<F> { mat_vec(*self, *o) } #[verifier::external_body] fn la_mul_(self, o: &'b DVector<F>) -> (r: DVector<F>) { unimplemented!() } }
impl LaMul<SquareMatrix<F>> for SquareMatrix<F> { type O = SquareMatrix<F>; open spec fn mul_s(self, o: SquareMatrix<F>) -> SquareMatrix<F> { mat_mul(self, o) } #[verifier::external_body] fn la_mul_(self, o: SquareMatrix<F>) -> (r: SquareMatrix<F>) { unimplemented!() } }
impl<'b> LaMul<&'b SquareMatrix<F>> for SquareMatrix<F> { type O = SquareMatrix<F>; open spec fn mul_s(self, o: &'b SquareMatrix<F>) -> SquareMatrix<F> { mat_mul(self, *o) } #[verifier::external_body] fn la_mul_(self, o: &'b SquareMatrix<F>) -> (r: SquareMatrix<F>) { unimplemented!() } }
impl<'a> LaMul<SquareMatrix<F>> for &'a SquareMatrix<F> { type O = SquareMatrix<F>; open spec fn mul_s(self, o: SquareMatrix<F>) -> SquareMatrix<F> { mat_mul(*self, o) } #[verifier::external_body] fn la_mul_(self, o: SquareMatrix<F>) -> (r: SquareMatrix<F>) { unimplemented!() } }
impl<'a, 'b> LaMul<&'b SquareMatrix<F>> for &'a SquareMatrix<F> { type O = SquareMatrix<F>; open spec fn mul_s(self, o: &'b SquareMatrix<F>) -> SquareMatrix<F> { mat_mul(*self, *o) } #[verifier::external_body] fn la_mul_(self, o: &'b SquareMatrix<F>) -> (r: SquareMatrix<F>) { unimplemented!() } }
impl LaMul<RowVec> for DVector<F> { type O = SquareMatrix<F>; open spec fn mul_s(self, o: RowVec) -> SquareMatrix<F> { outer(self, o) } #[verifier::external_body] fn la_mul_(self, o: RowVec) -> (r: SquareMatrix<F>) { unimplemented!() } }
impl<'b> LaMul<&'b RowVec> for DVector<F> { type O = SquareMatrix<F>; open spec fn mul_s(self, o: &'b RowVec) -> SquareMatrix<F> { outer(self, *o) } #[verifier::external_body] fn la_mul_(self, o: &'b RowVec) -> (r: SquareMatrix<F>) { unimplemented!() } }
impl<'a> LaMul<RowVec> for &'a DVector<F> { type O = SquareMatrix<F>; open spec fn mul_s(self, o: RowVec) -> SquareMatrix<F> { outer(*self, o) } #[verifier::external_body] fn la_mul_(self, o: RowVec) -> (r: SquareMatrix<F>) { unimplemented!() } }
impl<'a, 'b> LaMul<&'b RowVec> for &'a DVector<F> { type O = SquareMatrix<F>; open spec fn mul_s(self, o: &'b RowVec) -> SquareMatrix<F> { outer(*self, *o) } #[verifier::external_body] fn la_mul_(self, o: &'b RowVec) -> (r: SquareMatrix<F>) { unimplemented!() } }
impl LaMul<usize> for usize { type O = usize; open spec fn mul_s(self, o: usize) -> usize { (self * o) as usize } #[verifier::external_body] fn la_mul_(self, o: usize) -> (r: usize) { unimplemented!() } }
impl LaMul<i32> for i32 { type O = i32; open spec fn mul_s(self, o: i32) -> i32 { (self * o) as i32 } #[verifier::external_body] fn la_mul_(self, o: i32) -> (r: i32) { unimplemented!() } }
pub trait LaDiv<R>: Sized { type O; spec fn div_s(self, r: R) -> Self::O; fn la_div_(self, r: R) -> (o: Self::O) ensures o == self.div_s(r); }
pub fn la_div<A: LaDiv<B>, B>(a: A, b: B) -> (r: A::O) ensures r == a.div_s(b) { a.la_div_(b) }
impl LaDiv<F> for F { type O = F; open spec fn div_s(self, o: F) -> F { fdiv(self, o) } #[verifier::external_body] fn la_div_(self, o: F) -> (r: F) { unimplemented!() } }
impl<'b> LaDiv<&'b F> for F { type O = F; open spec fn div_s(self, o: &'b F) -> F { fdiv(self, *o) } #[verifier::external_body] fn la_div_(self, o: &'b F) -> (r: F) { unimplemented!() } }
impl<'a> LaDiv<F> for &'a F { type O = F; open spec fn div_s(self, o: F) -> F { fdiv(*self, o) } #[verifier::external_body] fn la_div_(self, o: F) -> (r: F) { unimplemented!() } }
impl<'a, 'b> LaDiv<&'b F> for &'a F { type O = F; open spec fn div_s(self, o: &'b F) -> F { fdiv(*self, *o) } #[verifier::external_body] fn la_div_(self, o: &'b F) -> (r: F) { unimplemented!() } }
impl LaDiv<F> for DVector<F> { type O = DVector<F>; open spec fn div_s(self, o: F) -> DVector<F> { dv_div(self, o) } #[verifier::external_body] fn la_div_(self, o: F) -> (r: DVector<F>) { unimplemented!() } }
impl<'a> LaDiv<F> for &'a DVector<F> { type O = DVector<F>; open spec fn div_s(self, o: F) -> DVector<F> { dv_div(*self, o) } #[verifier::external_body] fn la_div_(self, o: F) -> (r: DVector<F>) { unimplemented!() } }
impl LaDiv<F> for SquareMatrix<F> { type O = SquareMatrix<F>; open spec fn div_s(self, o: F) -> SquareMatrix<F> { mm_div(self, o) } #[verifier::external_body] fn la_div_(self, o: F) -> (r: SquareMatrix<F>) { unimplemented!() } }
impl<'a> LaDiv<F> for &'a SquareMatrix<F> { type O = SquareMatrix<F>; open spec fn div_s(self, o: F) -> SquareMatrix<F> { mm_div(*self, o) } #[verifier::external_body] fn la_div_(self, o: F) -> (r: SquareMatrix<F>) { unimplemented!() } }
impl LaDiv<usize> for usize { type O = usize; open spec fn div_s(self, o: usize) -> usize { (self / o) as usize } #[verifier::external_body] fn la_div_(self, o: usize) -> (r: usize) { unimplemented!() } }
pub trait LaRem<R>: Sized { type O; spec fn rem_s(self, r: R) -> Self::O; fn la_rem_(self, r: R) -> (o: Self::O) ensures o == self.rem_s(r); }
pub fn la_rem<A: LaRem<B>, B>(a: A, b: B) -> (r: A::O) ensures r == a.rem_s(b) { a.la_rem_(b) }
impl LaRem<usize> for usize { type O = usize; open spec fn rem_s(self, o: usize) -> usize { (self % o) as usize } #[verifier::external_body] fn la_rem_(self, o: usize) -> (r: usize) { unimplemented!() } }
pub trait LaNeg: Sized { type O; spec fn neg_s(self) -> Self::O; fn la_neg_(self) -> (o: Self::O) ensures o == self.neg_s(); }
pub fn la_neg<A: LaNeg>(a: A) -> (r: A::O) ensures r == a.neg_s() { a.la_neg_() }
impl LaNeg for F { type O = F; open spec fn neg_s(self) -> F { fneg(self) } #[verifier::external_body] fn la_neg_(self) -> (r: F) { unimplemented!() } }
impl LaNeg for i32 { type O = i32; open spec fn neg_s(self) -> i32 { (-self) as i32 } #[verifier::external_body] fn la_neg_(self) -> (r: i32) { unimplemented!() } }

// The float model: `F` stands for f64. Non-NaN values are ordered by an order embedding `key` into
// the reals (IEEE 754 total order of non-NaN values up to +0 == -0); arithmetic is uninterpreted,
// so everything proved holds whatever the rounding. Trusted: the correspondence with f64.
pub mod fm {
use super::*;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F { x: f64 }

pub uninterp spec fn nan(a: F) -> bool;
pub uninterp spec fn key(a: F) -> real;
pub uninterp spec fn fadd(a: F, b: F) -> F;
pub uninterp spec fn fsub(a: F, b: F) -> F;
pub uninterp spec fn fmul(a: F, b: F) -> F;
pub uninterp spec fn fdiv(a: F, b: F) -> F;
pub uninterp spec fn fneg(a: F) -> F;
pub uninterp spec fn fabs(a: F) -> F;
pub uninterp spec fn fsqrt(a: F) -> F;
pub uninterp spec fn fln(a: F) -> F;
pub uninterp spec fn fexp(a: F) -> F;
pub uninterp spec fn fceil(a: F) -> F;
pub uninterp spec fn ffloor(a: F) -> F;
pub uninterp spec fn fpowi(a: F, n: int) -> F;
pub uninterp spec fn fpowf(a: F, b: F) -> F;
pub uninterp spec fn fnormal(a: F) -> bool;
pub uninterp spec fn flit(a: real) -> F;
pub uninterp spec fn fint(a: int) -> F;
pub uninterp spec fn f_to_int(a: F) -> int;
pub uninterp spec fn fnan() -> F;

pub open spec fn flt(a: F, b: F) -> bool { !nan(a) && !nan(b) && key(a) < key(b) }
pub open spec fn feq(a: F, b: F) -> bool { !nan(a) && !nan(b) && key(a) == key(b) }
pub open spec fn fle(a: F, b: F) -> bool { !nan(a) && !nan(b) && key(a) <= key(b) }
pub open spec fn fcmp(a: F, b: F) -> Option<Ordering> {
    if feq(a, b) { Some(Ordering::Equal) } else if flt(a, b) { Some(Ordering::Less) } else if flt(b, a) { Some(Ordering::Greater) } else { None }
}
pub open spec fn fmin(a: F, b: F) -> F { if nan(a) { b } else if nan(b) { a } else if flt(b, a) { b } else { a } }
pub open spec fn fmax(a: F, b: F) -> F { if nan(a) { b } else if nan(b) { a } else if flt(a, b) { b } else { a } }


impl AddSpecImpl<F> for F { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: F) -> bool { true } open spec fn add_spec(self, o: F) -> F { fadd(self, o) } }
impl core::ops::Add<F> for F { type Output = F; #[verifier::external_body] fn add(self, o: F) -> (r: F) { F { x: self.x + o.x } } }
impl SubSpecImpl<F> for F { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: F) -> bool { true } open spec fn sub_spec(self, o: F) -> F { fsub(self, o) } }
impl core::ops::Sub<F> for F { type Output = F; #[verifier::external_body] fn sub(self, o: F) -> (r: F) { F { x: self.x - o.x } } }
impl MulSpecImpl<F> for F { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: F) -> bool { true } open spec fn mul_spec(self, o: F) -> F { fmul(self, o) } }
impl core::ops::Mul<F> for F { type Output = F; #[verifier::external_body] fn mul(self, o: F) -> (r: F) { F { x: self.x * o.x } } }
impl DivSpecImpl<F> for F { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: F) -> bool { true } open spec fn div_spec(self, o: F) -> F { fdiv(self, o) } }
impl core::ops::Div<F> for F { type Output = F; #[verifier::external_body] fn div(self, o: F) -> (r: F) { F { x: self.x / o.x } } }
impl NegSpecImpl for F { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> F { fneg(self) } }
impl core::ops::Neg for F { type Output = F; #[verifier::external_body] fn neg(self) -> (r: F) { F { x: -self.x } } }
impl PartialEqSpecImpl<F> for F { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &F) -> bool { feq(*self, *o) } }
impl PartialEq for F { #[verifier::external_body] fn eq(&self, o: &F) -> (r: bool) { self.x == o.x } }
impl PartialOrdSpecImpl<F> for F { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &F) -> Option<Ordering> { fcmp(*self, *o) } }
impl PartialOrd for F { #[verifier::external_body] fn partial_cmp(&self, o: &F) -> (r: Option<Ordering>) { self.x.partial_cmp(&o.x) } }
impl F {
    #[verifier::external_body] pub const fn lit(v: Ghost<real>) -> (r: F) ensures r == flit(v@) { F { x: 0.0 } }
    #[verifier::external_body] pub fn nan() -> (r: F) ensures r == fnan() { unimplemented!() }
    #[verifier::external_body] pub fn is_nan(self) -> (r: bool) ensures r == nan(self) { self.x.is_nan() }
    #[verifier::external_body] pub fn is_normal(self) -> (r: bool) ensures r == fnormal(self) { self.x.is_normal() }
    #[verifier::external_body] pub fn abs(self) -> (r: F) ensures r == fabs(self) { unimplemented!() }
    #[verifier::external_body] pub fn sqrt(self) -> (r: F) ensures r == fsqrt(self) { unimplemented!() }
    #[verifier::external_body] pub fn ln(self) -> (r: F) ensures r == fln(self) { unimplemented!() }
    #[verifier::external_body] pub fn exp(self) -> (r: F) ensures r == fexp(self) { unimplemented!() }
    #[verifier::external_body] pub fn ceil(self) -> (r: F) ensures r == fceil(self) { unimplemented!() }
    #[verifier::external_body] pub fn floor(self) -> (r: F) ensures r == ffloor(self) { unimplemented!() }
    #[verifier::external_body] pub fn powi(self, n: i32) -> (r: F) ensures r == fpowi(self, n as int) { unimplemented!() }
    #[verifier::external_body] pub fn powf(self, n: F) -> (r: F) ensures r == fpowf(self, n) { unimplemented!() }
    // which of two equal arguments is returned does not matter up to `==`
    #[verifier::external_body] pub fn min(self, o: F) -> (r: F) ensures r == fmin(self, o) { F { x: self.x.min(o.x) } }
    #[verifier::external_body] pub fn max(self, o: F) -> (r: F) ensures r == fmax(self, o) { F { x: self.x.max(o.x) } }
    /// `X as usize`
    #[verifier::external_body] pub fn to_usize(self) -> (r: usize) ensures r as int == f_to_int(self) { unimplemented!() }
}
/// `x as usize`
pub trait AsUsize: Sized { spec fn as_usize_spec(self) -> int; fn to_usize_(self) -> (r: usize) ensures r as int == self.as_usize_spec(); }
impl AsUsize for F { open spec fn as_usize_spec(self) -> int { f_to_int(self) } #[verifier::external_body] fn to_usize_(self) -> (r: usize) { unimplemented!() } }
impl AsUsize for usize { open spec fn as_usize_spec(self) -> int { self as int } fn to_usize_(self) -> (r: usize) { self } }
impl AsUsize for u32 { open spec fn as_usize_spec(self) -> int { self as int } fn to_usize_(self) -> (r: usize) { self as usize } }
pub fn as_usize<T: AsUsize>(x: T) -> (r: usize) ensures r as int == x.as_usize_spec() { x.to_usize_() }
#[verifier::external_body] pub fn to_f(n: usize) -> (r: F) ensures r == fint(n as int) { unimplemented!() }
pub broadcast axiom fn axiom_lit(r: real) ensures !nan(#[trigger] flit(r)), (r == 0real || r == 1real || r == 2real) ==> key(flit(r)) == r;
// IEEE 754 addition and multiplication are commutative
pub broadcast axiom fn axiom_fadd_comm(a: F, b: F) ensures #[trigger] fadd(a, b) == fadd(b, a);
pub broadcast axiom fn axiom_fmul_comm(a: F, b: F) ensures #[trigger] fmul(a, b) == fmul(b, a);
pub broadcast axiom fn axiom_int(i: int) ensures !nan(#[trigger] fint(i));
// the rest of f64 that code may use: finite numbers, rounding
pub uninterp spec fn ffinite(a: F) -> bool;
pub uninterp spec fn fround(a: F) -> F;
pub uninterp spec fn ftrunc(a: F) -> F;
impl F {
    #[verifier::external_body] pub fn is_finite(self) -> (r: bool) ensures r == ffinite(self) { unimplemented!() }
    #[verifier::external_body] pub fn is_infinite(self) -> (r: bool) ensures r == (!nan(self) && !ffinite(self)) { unimplemented!() }
    #[verifier::external_body] pub fn round(self) -> (r: F) ensures r == fround(self) { unimplemented!() }
    #[verifier::external_body] pub fn trunc(self) -> (r: F) ensures r == ftrunc(self) { unimplemented!() }
}
// constants and functions of f64 about which little or nothing is assumed
pub uninterp spec fn fconst(k: int) -> F;
pub uninterp spec fn ffun(k: int, a: F, b: F, c: F) -> F;
pub uninterp spec fn fsign(a: F) -> bool;
impl F {
    #[verifier::external_body] pub exec const EPSILON: F ensures Self::EPSILON == fconst(0) { F { x: f64::EPSILON } }
    #[verifier::external_body] pub exec const MIN_POSITIVE: F ensures Self::MIN_POSITIVE == fconst(1) { F { x: f64::MIN_POSITIVE } }
    #[verifier::external_body] pub exec const MAX: F ensures Self::MAX == fconst(2) { F { x: f64::MAX } }
    #[verifier::external_body] pub exec const MIN: F ensures Self::MIN == fconst(3) { F { x: f64::MIN } }
    #[verifier::external_body] pub exec const INFINITY: F ensures Self::INFINITY == fconst(4) { F { x: f64::INFINITY } }
    #[verifier::external_body] pub exec const NEG_INFINITY: F ensures Self::NEG_INFINITY == fconst(5) { F { x: f64::NEG_INFINITY } }
    #[verifier::external_body] pub fn signum(self) -> (r: F) ensures r == ffun(0, self, self, self) { unimplemented!() }
    #[verifier::external_body] pub fn mul_add(self, a: F, b: F) -> (r: F) ensures r == ffun(1, self, a, b) { unimplemented!() }
    #[verifier::external_body] pub fn hypot(self, a: F) -> (r: F) ensures r == ffun(2, self, a, a) { unimplemented!() }
    #[verifier::external_body] pub fn recip(self) -> (r: F) ensures r == fdiv(flit(1real), self) { unimplemented!() }
    #[verifier::external_body] pub fn log10(self) -> (r: F) ensures r == ffun(3, self, self, self) { unimplemented!() }
    #[verifier::external_body] pub fn log2(self) -> (r: F) ensures r == ffun(4, self, self, self) { unimplemented!() }
    #[verifier::external_body] pub fn ln_1p(self) -> (r: F) ensures r == ffun(5, self, self, self) { unimplemented!() }
    #[verifier::external_body] pub fn exp_m1(self) -> (r: F) ensures r == ffun(6, self, self, self) { unimplemented!() }
    #[verifier::external_body] pub fn exp2(self) -> (r: F) ensures r == ffun(7, self, self, self) { unimplemented!() }
    #[verifier::external_body] pub fn cbrt(self) -> (r: F) ensures r == ffun(8, self, self, self) { unimplemented!() }
    #[verifier::external_body] pub fn copysign(self, a: F) -> (r: F) ensures r == ffun(9, self, a, a) { unimplemented!() }
    #[verifier::external_body] pub fn is_sign_negative(self) -> (r: bool) ensures r == fsign(self) { unimplemented!() }
    #[verifier::external_body] pub fn is_sign_positive(self) -> (r: bool) ensures r == !fsign(self) { unimplemented!() }
    /// panics if a bound is NaN or they are reversed
    #[verifier::external_body] pub fn clamp(self, lo: F, hi: F) -> (r: F) requires fle(lo, hi) ensures r == (if flt(self, lo) { lo } else if flt(hi, self) { hi } else { self }) { unimplemented!() }
    /// agrees with the order except among equal values and NaN
    #[verifier::external_body] pub fn total_cmp(&self, o: &F) -> (r: Ordering) ensures flt(*self, *o) ==> r == Ordering::Less, flt(*o, *self) ==> r == Ordering::Greater { unimplemented!() }
}
pub broadcast axiom fn axiom_finite(a: F) ensures #[trigger] ffinite(a) ==> !nan(a);
pub broadcast axiom fn axiom_normal(a: F) ensures #[trigger] fnormal(a) ==> ffinite(a);
// conversion to usize rounds towards zero and saturates
pub broadcast axiom fn axiom_to_int_floor(a: F) ensures #[trigger] f_to_int(ffloor(a)) == f_to_int(a);
pub broadcast axiom fn axiom_to_int_trunc(a: F) ensures #[trigger] f_to_int(ftrunc(a)) == f_to_int(a);
pub broadcast axiom fn axiom_fnan() ensures nan(#[trigger] fnan());
pub broadcast group float_axioms { axiom_lit, axiom_fadd_comm, axiom_fmul_comm, axiom_int, axiom_fnan, axiom_finite, axiom_normal, axiom_to_int_floor, axiom_to_int_trunc }
}
pub use fm::*;
broadcast use fm::float_axioms;

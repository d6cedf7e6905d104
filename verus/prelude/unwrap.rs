/// `expect` and `unwrap`: a panic returns nothing
pub trait Expect_<T>: Sized { spec fn has(self, x: T) -> bool; fn expect_(self, s: &str) -> (r: T) ensures self.has(r); fn unwrap_(self) -> (r: T) ensures self.has(r); }
impl<T> Expect_<T> for Option<T> { open spec fn has(self, x: T) -> bool { self == Some(x) } #[verifier::external_body] fn expect_(self, s: &str) -> (r: T) { unimplemented!() } #[verifier::external_body] fn unwrap_(self) -> (r: T) { unimplemented!() } }
impl<T, E> Expect_<T> for Result<T, E> { open spec fn has(self, x: T) -> bool { self == Ok::<T, E>(x) } #[verifier::external_body] fn expect_(self, s: &str) -> (r: T) { unimplemented!() } #[verifier::external_body] fn unwrap_(self) -> (r: T) { unimplemented!() } }

// time: a duration is a number of nanoseconds; what the clock shows is unknown
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Duration { x: u64 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Instant { x: u64 }
impl Duration {
    pub uninterp spec fn nanos(&self) -> int;
    #[verifier::external_body] pub fn as_secs(&self) -> (r: u64) ensures r as int == self.nanos() / 1_000_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn as_millis(&self) -> (r: u128) ensures r as int == self.nanos() / 1_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn as_micros(&self) -> (r: u128) ensures r as int == self.nanos() / 1_000 { unimplemented!() }
    #[verifier::external_body] pub fn as_nanos(&self) -> (r: u128) ensures r as int == self.nanos() { unimplemented!() }
}
impl PartialEqSpecImpl<Duration> for Duration { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Duration) -> bool { self.nanos() == o.nanos() } }
impl PartialEq for Duration { #[verifier::external_body] fn eq(&self, o: &Duration) -> (r: bool) { unimplemented!() } }
impl PartialOrdSpecImpl<Duration> for Duration { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Duration) -> Option<Ordering> { if self.nanos() < o.nanos() { Some(Ordering::Less) } else if self.nanos() > o.nanos() { Some(Ordering::Greater) } else { Some(Ordering::Equal) } } }
impl PartialOrd for Duration { #[verifier::external_body] fn partial_cmp(&self, o: &Duration) -> (r: Option<Ordering>) { unimplemented!() } }
/// the clock was read: `d` had passed since `t`
pub uninterp spec fn elapsed_read(t: Instant, d: Duration) -> bool;
/// the clock was read: it showed `t`
pub uninterp spec fn now_read(t: Instant) -> bool;
impl Instant {
    #[verifier::external_body] pub fn now() -> (r: Instant) ensures now_read(r) { unimplemented!() }
    #[verifier::external_body] pub fn elapsed(&self) -> (r: Duration) ensures elapsed_read(*self, r) { unimplemented!() }
}

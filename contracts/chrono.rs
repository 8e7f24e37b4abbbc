// chrono, by its contracts in terms of the day number: discharged on chrono's source in chrono_src.rs,
// and evaluated on the compiled crate by the native search (rust/src/chk_chrono.rs).
pub type NaiveDate = Date;
impl Date {
    #[verifier::external_body]
    pub fn from_ymd_opt(y: i32, m: u32, d: u32) -> (r: Option<Date>)
        ensures match r { Some(e) => valid(y as int, m as int, d as int) && e.n() == serial(y as int, m as int, d as int), None => !valid(y as int, m as int, d as int) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn succ_opt(self) -> (r: Option<Date>) ensures match r { Some(e) => e.n() == self.n() + 1, None => self.n() == last_day() } { unimplemented!() }
    #[verifier::external_body]
    pub fn pred_opt(self) -> (r: Option<Date>) ensures match r { Some(e) => e.n() == self.n() - 1, None => self.n() == first_day() } { unimplemented!() }
    #[verifier::external_body]
    pub fn year(&self) -> (r: i32) ensures r == year(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn month(&self) -> (r: u32) ensures r == month(*self) { unimplemented!() }
    // from this day on, without the last day of the range
    #[verifier::external_body]
    pub fn iter_days(self) -> (r: std::vec::IntoIter<Date>)
        ensures
            r.remaining().len() == last_day() - self.n(),
            forall|i: int| 0 <= i < r.remaining().len() ==> (#[trigger] r.remaining()[i]).n() == self.n() + i,
    { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Duration { x: u8 }
impl Duration {
    pub uninterp spec fn d(&self) -> int;
    #[verifier::external_body]
    pub fn days(n: i64) -> (r: Duration) requires -100_000_000 < n < 100_000_000 ensures r.d() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn num_days(&self) -> (r: i64) ensures r == self.d() { unimplemented!() }
}
impl core::ops::Add<Duration> for Date {
    type Output = Date;
    #[verifier::external_body]
    fn add(self, o: Duration) -> (r: Date) ensures r.n() == self.n() + o.d() { unimplemented!() }
}
impl vstd::std_specs::ops::AddSpecImpl<Duration> for Date {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: Duration) -> bool { first_day() <= self.n() + o.d() <= last_day() }
    open spec fn add_spec(self, o: Duration) -> Date { arbitrary() }
}
impl core::ops::Sub<Duration> for Date {
    type Output = Date;
    #[verifier::external_body]
    fn sub(self, o: Duration) -> (r: Date) ensures r.n() == self.n() - o.d() { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl<Duration> for Date {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: Duration) -> bool { first_day() <= self.n() - o.d() <= last_day() }
    open spec fn sub_spec(self, o: Duration) -> Date { arbitrary() }
}
impl core::ops::Sub<Date> for Date {
    type Output = Duration;
    #[verifier::external_body]
    fn sub(self, o: Date) -> (r: Duration) ensures r.d() == self.n() - o.n() { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl<Date> for Date {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: Date) -> bool { true }
    open spec fn sub_spec(self, o: Date) -> Duration { arbitrary() }
}
impl core::ops::AddAssign<Duration> for Date {
    #[verifier::external_body]
    fn add_assign(&mut self, o: Duration) ensures final(self).n() == old(self).n() + o.d() { unimplemented!() }
}
impl vstd::std_specs::ops::AddAssignSpecImpl<Duration> for Date {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, o: Duration) -> bool { first_day() <= self.n() + o.d() <= last_day() }
    open spec fn add_assign_spec(&self, o: Duration) -> &Date { arbitrary() }
}
impl core::ops::SubAssign<Duration> for Date {
    #[verifier::external_body]
    fn sub_assign(&mut self, o: Duration) ensures final(self).n() == old(self).n() - o.d() { unimplemented!() }
}
impl vstd::std_specs::ops::SubAssignSpecImpl<Duration> for Date {
    open spec fn obeys_sub_assign_spec() -> bool { false }
    open spec fn sub_assign_req(&self, o: Duration) -> bool { first_day() <= self.n() - o.d() <= last_day() }
    open spec fn sub_assign_spec(&self, o: Duration) -> &Date { arbitrary() }
}

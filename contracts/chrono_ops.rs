// chrono's NaiveDate by its contracts, in terms of the day number and the fields: discharged on chrono's
// source in chrono_src.rs.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct NaiveDate { x: u8 }
impl NaiveDate { pub uninterp spec fn n(&self) -> int; }
pub uninterp spec fn ny(d: NaiveDate) -> int;
pub uninterp spec fn nm(d: NaiveDate) -> int;
pub uninterp spec fn nd(d: NaiveDate) -> int;
pub open spec fn naive_has(n: int) -> bool { exists|a: NaiveDate| #[trigger] a.n() == n }
pub axiom fn naive_fields(a: NaiveDate) ensures valid(ny(a), nm(a), nd(a)), a.n() == serial(ny(a), nm(a), nd(a));
pub axiom fn naive_every(y: int, m: int, d: int) requires valid(y, m, d) ensures naive_has(serial(y, m, d));
pub axiom fn naive_same(a: NaiveDate, b: NaiveDate) ensures a.n() == b.n() ==> a == b;
#[derive(Clone, Copy)]
pub enum Weekday { Mon = 0, Tue = 1, Wed = 2, Thu = 3, Fri = 4, Sat = 5, Sun = 6 }
pub open spec fn wd(w: Weekday) -> int {
    match w { Weekday::Mon => 0, Weekday::Tue => 1, Weekday::Wed => 2, Weekday::Thu => 3, Weekday::Fri => 4, Weekday::Sat => 5, Weekday::Sun => 6 }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct TimeDelta { x: u8 }
impl TimeDelta {
    pub uninterp spec fn d(&self) -> int;
    #[verifier::external_body]
    pub fn num_days(&self) -> (r: i64) ensures r == self.d() { unimplemented!() }
}
pub mod chrono {
    use super::*;
    #[derive(Clone, Copy)]
    pub struct Months(pub u32);
    impl Months { pub fn new(num: u32) -> (r: Months) ensures r.0 == num { Months(num) } }
    #[derive(Clone, Copy)]
    pub struct Days(pub u64);
    impl Days { pub fn new(num: u64) -> (r: Days) ensures r.0 == num { Days(num) } }
}
include chrono_spec.rs
impl NaiveDate {
    #[verifier::external_body]
    pub fn from_ymd_opt(y: i32, m: u32, d: u32) -> (r: Option<NaiveDate>) ensures naive_on(r, y as int, m as int, d as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn leap_year(&self) -> (r: bool) ensures r == leap(ny(*self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_add_months(self, m: chrono::Months) -> (r: Option<NaiveDate>) ensures naive_months(r, self, m.0 as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub_months(self, m: chrono::Months) -> (r: Option<NaiveDate>) ensures naive_months(r, self, -(m.0 as int)) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_add_days(self, k: chrono::Days) -> (r: Option<NaiveDate>) ensures naive_at(r, self.n() + k.0) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub_days(self, k: chrono::Days) -> (r: Option<NaiveDate>) ensures naive_at(r, self.n() - k.0) { unimplemented!() }
    #[verifier::external_body]
    pub fn succ_opt(&self) -> (r: Option<NaiveDate>) ensures naive_at(r, self.n() + 1) { unimplemented!() }
    #[verifier::external_body]
    pub fn pred_opt(&self) -> (r: Option<NaiveDate>) ensures naive_at(r, self.n() - 1) { unimplemented!() }
    #[verifier::external_body]
    pub fn year(&self) -> (r: i32) ensures r == ny(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn month(&self) -> (r: u32) ensures r == nm(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn day(&self) -> (r: u32) ensures r == nd(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_year(&self, y: i32) -> (r: Option<NaiveDate>) ensures naive_on(r, y as int, nm(*self), nd(*self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_day(&self, d: u32) -> (r: Option<NaiveDate>) ensures naive_on(r, ny(*self), nm(*self), d as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn num_days_from_ce(&self) -> (r: i32) ensures r == self.n() { unimplemented!() }
    #[verifier::external_body]
    pub fn weekday(&self) -> (r: Weekday) ensures wd(r) == (self.n() - 1) % 7 { unimplemented!() }
}
impl core::ops::Sub<NaiveDate> for NaiveDate {
    type Output = TimeDelta;
    #[verifier::external_body]
    fn sub(self, o: NaiveDate) -> (r: TimeDelta) ensures r.d() == self.n() - o.n() { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl<NaiveDate> for NaiveDate {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: NaiveDate) -> bool { true }
    open spec fn sub_spec(self, o: NaiveDate) -> TimeDelta { arbitrary() }
}

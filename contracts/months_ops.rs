// Month arithmetic and the weekend roll: the contracts of C03 and C04, discharged on qlab_time's source in
// date_src.rs, and by Kani on the compiled functions.
#[derive(Clone, Copy)]
pub struct Months(pub u32);
impl Months { pub fn new(num: u32) -> (r: Months) ensures r.0 == num { Months(num) } }
impl Date {
    #[verifier::external_body]
    pub fn checked_add_months(self, m: Months) -> (r: Option<Date>) ensures r == plus(self, m.0 as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub_months(self, m: Months) -> (r: Option<Date>) ensures r == plus(self, -(m.0 as int)) { unimplemented!() }
    #[verifier::external_body]
    pub fn weekend_roll(self) -> (r: Option<Date>) ensures r == rolled(self) { unimplemented!() }
}

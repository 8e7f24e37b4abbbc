// The neighbouring days and the fields (C01): discharged on qlab_time's source in date_src.rs.
impl Date {
    #[verifier::external_body]
    pub fn succ_opt(self) -> (r: Option<Date>) ensures match r { Some(e) => e.n() == self.n() + 1, None => self.n() == last_day() } { unimplemented!() }
    #[verifier::external_body]
    pub fn pred_opt(self) -> (r: Option<Date>) ensures match r { Some(e) => e.n() == self.n() - 1, None => self.n() == first_day() } { unimplemented!() }
    #[verifier::external_body]
    pub fn year(&self) -> (r: i32) ensures r == year(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn month(&self) -> (r: u32) ensures r == month(*self) { unimplemented!() }
}

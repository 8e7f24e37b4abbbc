// The day of the month (C01): discharged on qlab_time's source in date_src.rs.
impl Date {
    #[verifier::external_body]
    pub fn day(self) -> (r: u32) ensures r == day(self) { unimplemented!() }
}

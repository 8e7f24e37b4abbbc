// the difference in days (C02)
impl core::ops::Sub for Date {
    type Output = i64;
    #[verifier::external_body]
    fn sub(self, o: Date) -> (r: i64) ensures r == self.n() - o.n() { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl for Date {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: Date) -> bool { true }
    open spec fn sub_spec(self, o: Date) -> i64 { arbitrary() }
}

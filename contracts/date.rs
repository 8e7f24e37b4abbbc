// A date, seen through its contracts: the day number of C01, which orders dates and tells them apart.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Date { x: u8 }
impl Date { pub uninterp spec fn n(&self) -> int; }
pub axiom fn same_day_number(a: Date, b: Date) ensures a.n() == b.n() ==> a == b, -100_000_000 < a.n() < 100_000_000;
impl vstd::std_specs::cmp::PartialEqSpecImpl for Date {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Date) -> bool { self.n() == o.n() }
}
impl PartialEq for Date { #[verifier::external_body] fn eq(&self, o: &Date) -> bool { unimplemented!() } }
impl Eq for Date {}
pub open spec fn cmp_of(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Date {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Date) -> Option<Ordering> { Some(cmp_of(self.n(), o.n())) }
}
impl PartialOrd for Date { #[verifier::external_body] fn partial_cmp(&self, o: &Date) -> Option<Ordering> { unimplemented!() } }
impl vstd::std_specs::cmp::OrdSpecImpl for Date {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Date) -> Ordering { cmp_of(self.n(), o.n()) }
}
impl Ord for Date { #[verifier::external_body] fn cmp(&self, o: &Date) -> Ordering { unimplemented!() } }

//@ source --const --eta Date --eta Self --only Date --only Date::from_ymd --only Date::days_in_month --only Date::leap_year --only Date::checked_add_years --only Date::checked_add_months --only Date::checked_sub_months --only Date::checked_add_days --only Date::checked_sub_days --only Date::succ_opt --only Date::pred_opt --only Date::year --only Date::month --only Date::day --only Date::serial_date --only Date::weekend_roll --only Date::checked_add --only "From for Date" --only "Sub for Date" crates/qlab-time/src/date.rs
//@ source --only Period crates/qlab-time/src/period.rs
//@ source --const --only Months --only Months::new --only "Period for Months" crates/qlab-time/src/period/months.rs
//@ source --const --only Days --only Days::new --only "Period for Days" crates/qlab-time/src/period/days.rs
//@ source --const --only Years --only Years::new --only "Period for Years" crates/qlab-time/src/period/years.rs
//@ prelude
use core::ops::Sub;
include civil.rs
include chrono_ops.rs
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U> [Option::<T>::map_or_else] (o: Option<T>, d: D, f: F) -> (r: U)
    requires o is None ==> d.requires(()), o matches Some(x) ==> f.requires((x,))
    ensures match o { None => d.ensures((), r), Some(x) => f.ensures((x,), r) };
impl Date {
    pub closed spec fn n(&self) -> int { self.0.n() }
}
pub closed spec fn year(d: Date) -> int { ny(d.0) }
pub closed spec fn month(d: Date) -> int { nm(d.0) }
pub closed spec fn day(d: Date) -> int { nd(d.0) }
pub closed spec fn dated(n: int) -> Date { choose|e: Date| #[trigger] e.n() == n }
pub closed spec fn wrapped(v: NaiveDate) -> Date { Date(v) }
// the axioms of gregorian.rs and date.rs about dates
pub proof fn fields(d: Date) ensures valid(year(d), month(d), day(d)), d.n() == serial(year(d), month(d), day(d)) { naive_fields(d.0); }
pub proof fn same_day_number(a: Date, b: Date) ensures a.n() == b.n() ==> a == b, -100_000_000 < a.n() < 100_000_000 {
    naive_same(a.0, b.0);
    fields(a);
    within(a);
}
pub proof fn dated_number(y: int, m: int, d: int) requires valid(y, m, d) ensures dated(serial(y, m, d)).n() == serial(y, m, d) {
    naive_every(y, m, d);
    let a = choose|a: NaiveDate| #[trigger] a.n() == serial(y, m, d);
    assert(Date(a).n() == serial(y, m, d));
}
include within.rs
include months_spec.rs
// a date is told by its number, and its number by its fields
proof fn told()
    ensures
        forall|e: Date| dated(#[trigger] e.n()) == e,
        forall|a: NaiveDate| dated(#[trigger] a.n()) == wrapped(a) && valid(ny(a), nm(a), nd(a)) && a.n() == serial(ny(a), nm(a), nd(a)) && first_day() <= a.n() <= last_day(),
        forall|a: NaiveDate, y: int, m: int, d: int| valid(y, m, d) && #[trigger] a.n() == #[trigger] serial(y, m, d) ==> ny(a) == y && nm(a) == m && nd(a) == d,
{
    assert forall|e: Date| dated(#[trigger] e.n()) == e by { same_day_number(dated(e.n()), e); }
    assert forall|a: NaiveDate| dated(#[trigger] a.n()) == wrapped(a) && valid(ny(a), nm(a), nd(a)) && a.n() == serial(ny(a), nm(a), nd(a)) && first_day() <= a.n() <= last_day() by {
        naive_fields(a);
        within(wrapped(a));
        assert(dated(wrapped(a).n()) == wrapped(a));
    }
    assert forall|a: NaiveDate, y: int, m: int, d: int| valid(y, m, d) && #[trigger] a.n() == #[trigger] serial(y, m, d) implies ny(a) == y && nm(a) == m && nd(a) == d by {
        naive_fields(a);
        if y < ny(a) || (y == ny(a) && m < nm(a)) { serial_rises(y, m, d, ny(a), nm(a), nd(a)); }
        if ny(a) < y || (y == ny(a) && nm(a) < m) { serial_rises(ny(a), nm(a), nd(a), y, m, d); }
    }
}
proof fn week(n: int) ensures (n - 1) % 7 == 5 ==> n % 7 == 6, (n - 1) % 7 == 6 ==> n % 7 == 0 { }
spec fn naive(r: Option<Date>) -> Option<NaiveDate> { match r { Some(e) => Some(e.0), None => None } }
spec fn moved_months(r: Option<Date>, a: NaiveDate, k: int) -> bool { naive_months(naive(r), a, k) }
spec fn moved_year(r: Option<Date>, y: int, m: int, d: int) -> bool { naive_on(naive(r), y, m, d) }
// C03: the same day of the month, but 28 February for the 29th
pub open spec fn plus_years(d: Date, k: int) -> Option<Date> {
    let y = year(d) + k;
    if in_range(y) { Some(dated(on(y, month(d), day(d)))) } else { None }
}
pub open spec fn plus_days(d: Date, k: int) -> Option<Date> {
    if first_day() <= d.n() + k <= last_day() { Some(dated(d.n() + k)) } else { None }
}
impl vstd::std_specs::convert::FromSpecImpl<NaiveDate> for Date {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: NaiveDate) -> Date { wrapped(v) }
}
impl vstd::std_specs::ops::SubSpecImpl for Date {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: Date) -> bool { true }
    open spec fn sub_spec(self, o: Date) -> i64 { arbitrary() }
}
//@ fn Date::from_ymd
    ensures match res { Some(e) => valid(year as int, month as int, day as int) && e.n() == serial(year as int, month as int, day as int), None => !valid(year as int, month as int, day as int) }
//@ fn Date::days_in_month
    ensures res == if 1 <= month <= 12 { Some((if month == 2 { if leap_year { 29int } else { 28 } } else { dim(1, month as int) }) as u32) } else { None }
//@ fn Date::leap_year
    ensures res == leap(year(self))
//@ fn Date::year
    ensures res == year(*self)
//@ fn Date::month
    ensures res == month(*self)
//@ fn Date::day
    ensures res == day(self)
//@ fn Date::serial_date
    ensures res == self.n()
//@ fn Date::succ_opt
    ensures res == plus_days(self, 1), naive_at(naive(res), self.n() + (1))
//@ fn Date::pred_opt
    ensures res == plus_days(self, -1), naive_at(naive(res), self.n() + (-1))
//@ fn Date::checked_add_days
    ensures res == plus_days(self, rhs_days.0 as int), naive_at(naive(res), self.n() + (rhs_days.0 as int))
//@ fn Date::checked_sub_days
    ensures res == plus_days(self, -(rhs_days.0 as int)), naive_at(naive(res), self.n() + (-(rhs_days.0 as int)))
//@ fn Date::checked_add_months
    ensures res == plus(self, rhs_months.0 as int)
//@ fn Date::checked_sub_months
    ensures res == plus(self, -(rhs_months.0 as int))
//@ fn Date::checked_add_years
    ensures res == plus_years(self, rhs_years.0 as int)
//@ fn Date::weekend_roll
    ensures res == rolled(self)
//@ fn Date::from
    ensures res == wrapped(value)
//@ fn Date::sub
    ensures res == self.n() - rhs.n()
//@ start Date::from_ymd
    proof { told(); }
//@ start Date::checked_add_years
    proof { told(); naive_fields(self.0); }
//@ start Date::checked_add_months
    proof { told(); }
//@ start Date::checked_sub_months
    proof { told(); }
//@ start Date::checked_add_days
    proof { told(); }
//@ start Date::checked_sub_days
    proof { told(); }
//@ start Date::succ_opt
    proof { told(); }
//@ start Date::pred_opt
    proof { told(); }
//@ start Date::weekend_roll
    proof { told(); week(self.n()); }
//@ start Date::sub
    proof { told(); }
//@ clo Date::succ_opt 0
    |$1: NaiveDate| -> (q: Date) ensures q == wrapped($1)
//@ clo Date::pred_opt 0
    |$1: NaiveDate| -> (q: Date) ensures q == wrapped($1)
//@ clo Date::checked_add_months 0
    |$1: NaiveDate| -> (q: Option<Date>) ensures moved_months(q, $1, rhs_months.0 as int)
//@ clo Date::checked_sub_months 0
    |$1: NaiveDate| -> (q: Option<Date>) ensures moved_months(q, $1, -(rhs_months.0 as int))
//@ clo Date::checked_add_years 0
    || -> (q: Option<Date>) ensures moved_year(q, year as int, nm(self.0), 28)
//@ clostart Date::checked_add_years 0
    proof { told(); naive_fields(self.0); }
//@ clo Date::checked_add_years 1
    |$1: NaiveDate| -> (q: Option<Date>) ensures moved_year(q, year as int, nm($1), nd($1))
//@ clo Date::checked_add_years 2
    |$1: NaiveDate| -> (q: Option<Date>) ensures q == Some(wrapped($1))
//@ fn Days::new
    ensures res.0 == num
//@ fn Months::new
    ensures res.0 == num
//@ fn Years::new
    ensures res.0 == num
//@ item trait Period
    spec fn shifted(self, d: Date) -> Option<Date>;
//@ fn Period::checked_add
    ensures res == self.shifted(date)
//@ item impl Period for Months
    closed spec fn shifted(self, d: Date) -> Option<Date> { plus(d, self.0 as int) }
//@ item impl Period for Days
    closed spec fn shifted(self, d: Date) -> Option<Date> { plus_days(d, self.0 as int) }
//@ item impl Period for Years
    closed spec fn shifted(self, d: Date) -> Option<Date> { plus_years(d, self.0 as int) }
//@ fn Date::checked_add
    ensures res == period.shifted(self)
//@ lemmas
// the contracts that the other units assume
mirror date_ops.rs
mirror day_ops.rs
mirror months_ops.rs
mirror date_sub.rs

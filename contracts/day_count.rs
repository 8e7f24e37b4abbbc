//@ use errors
//@ source crates/qlab-time/src/day_count.rs
//@ source --const --only Act360 --only "DayCount for Act360" crates/qlab-time/src/day_count/act_360.rs
//@ source --const --only Act365 --only "DayCount for Act365" crates/qlab-time/src/day_count/act_365.rs
//@ source --const --only Thirty360 --only Thirty360::date_diff --only "DayCount for Thirty360" crates/qlab-time/src/day_count/thirty_360.rs
//@ prelude
use core::ops::Div;
use ComputeError::InvalidInput;
include scalar.rs
include date.rs
include date_sub.rs
include gregorian.rs
include date_ops.rs
include day_ops.rs
include within.rs
//@ item trait DayCount
    // the days counted and the days of the year
    spec fn days(a: Date, b: Date) -> int;
    spec fn year_days() -> int;
    spec fn counts(a: Date, b: Date) -> bool;
    // what curve_base.rs assumes of a day count
    proof fn same_day(a: Date) ensures Self::counts(a, a), Self::days(a, a) == 0, Self::year_days() > 0;
//@ fn DayCount::calculate_day_count_fraction
    ensures match res { Ok(t) => Self::counts(date1, date2) && t@ == Ext::Fin(Self::days(date1, date2) as real / Self::year_days() as real), Err(_) => !Self::counts(date1, date2) }
//@ item impl DayCount for Act360
    spec fn days(a: Date, b: Date) -> int { b.n() - a.n() }
    spec fn year_days() -> int { 360 }
    spec fn counts(a: Date, b: Date) -> bool { true }
    proof fn same_day(a: Date) { }
//@ item impl DayCount for Act365
    spec fn days(a: Date, b: Date) -> int { b.n() - a.n() }
    spec fn year_days() -> int { 365 }
    spec fn counts(a: Date, b: Date) -> bool { true }
    proof fn same_day(a: Date) { }
//@ item impl DayCount for Thirty360
    spec fn days(a: Date, b: Date) -> int { thirty(a, b) }
    spec fn year_days() -> int { 360 }
    spec fn counts(a: Date, b: Date) -> bool { a.n() <= b.n() }
    proof fn same_day(a: Date) { thirty_range(a, a); }
//@ fn Thirty360::date_diff
    ensures match res { Ok(k) => date1.n() <= date2.n() && k == thirty(date1, date2), Err(_) => date1.n() > date2.n() }
//@ start Thirty360::date_diff
    proof { thirty_range(date1, date2); }
//@ lemmas
pub open spec fn cap(d: int) -> int { if d < 30 { d } else { 30 } }
pub open spec fn thirty(a: Date, b: Date) -> int { 360 * (year(b) - year(a)) + 30 * (month(b) - month(a)) + cap(day(b)) - cap(day(a)) }
proof fn thirty_range(a: Date, b: Date)
    ensures
        valid(year(a), month(a), day(a)), valid(year(b), month(b), day(b)),
        a.n() <= b.n() ==> year(a) <= year(b) && 0 <= thirty(a, b) <= 400_000_000,
        a.n() == b.n() ==> thirty(a, b) == 0,
{
    fields(a);
    fields(b);
    same_day_number(a, b);
    if year(b) < year(a) || (year(a) == year(b) && month(b) < month(a)) { serial_rises(year(b), month(b), day(b), year(a), month(a), day(a)); }
}

//@ source --only Calendar --free Calendar::business_days_between --free Calendar::end_of_month --drop Calendar::naive_date_to_dkmy --drop Calendar::easter_monday --drop Calendar::orthodox_easter_monday --drop Calendar::is_weekend third-parties/calendar/src/lib.rs
//@ source third-parties/calendar/src/jointcalendar.rs
//@ prelude
use std::fmt::Debug;
use vstd::std_specs::iter::IteratorSpec;
include date.rs
include gregorian.rs
include chrono.rs
include std_result.rs

// the years for which the calendars answer (C09)
pub open spec fn covered(d: Date) -> bool { covered_day(d.n()) }
pub open spec fn covered_day(n: int) -> bool { serial(1901, 1, 1) <= n <= serial(2199, 12, 31) }
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
// open days from a to b, without b
spec fn opens<C: Calendar + ?Sized>(c: &C, a: int, b: int) -> int
    decreases b - a
{
    if b <= a { 0 } else { opens(c, a, b - 1) + b2i(c.open(dated(b - 1))) }
}
pub open spec fn or(o: Option<bool>, d: bool) -> bool { match o { Some(b) => b, None => d } }
// C10
spec fn counted<C: Calendar + ?Sized>(c: &C, from: Date, to: Date, first: Option<bool>, last: Option<bool>) -> int {
    if from.n() <= to.n() { opens(c, from.n() + b2i(!or(first, true)), to.n() + b2i(or(last, false))) }
    else { -opens(c, to.n() + b2i(!or(first, true)), from.n() + b2i(or(last, false))) }
}
spec fn days_from(s: Seq<Date>, first: Date) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).n() == first.n() + i }
spec fn is_count(k: i64, c: int, n: int) -> bool { k == c && 0 <= c <= n }
// C11
spec fn month_end(d: Date) -> int { serial(year(d), month(d), dim(year(d), month(d))) }
spec fn open_from<C: Calendar + ?Sized>(c: &C, e: Date) -> bool { covered(e) && c.open(e) }
proof fn opens_bound<C: Calendar + ?Sized>(c: &C, a: int, b: int)
    ensures 0 <= opens(c, a, b), opens(c, a, b) <= b - a || opens(c, a, b) == 0
    decreases b - a
{
    if b > a { opens_bound(c, a, b - 1); }
}
proof fn dated_is(e: Date) ensures dated(e.n()) == e {
    fields(e);
    dated_number(year(e), month(e), day(e));
    same_day_number(dated(e.n()), e);
}
// a covered day's year is covered, and so is the last day of its month
proof fn covered_year(d: Date)
    requires covered(d)
    ensures
        1901 <= year(d) <= 2199, 1 <= month(d) <= 12, d.n() <= month_end(d), covered_day(month_end(d)),
        serial(year(d), month(d), dim(year(d), month(d))) + 1 == if month(d) == 12 { serial(year(d) + 1, 1, 1) } else { serial(year(d), month(d) + 1, 1) },
        first_day() + 100 < serial(1901, 1, 1), serial(2199, 12, 31) < last_day() - 100,
{
    fields(d);
    let (y, m) = (year(d), month(d));
    if y < 1901 { serial_rises(y, m, day(d), 1901, 1, 1); }
    if y > 2199 { serial_rises(2199, 12, 31, y, m, day(d)); }
    if y < 2199 || m < 12 { serial_rises(y, m, dim(y, m), 2199, 12, 31); }
    year_length(y);
}
//@ item trait Calendar
    spec fn open(&self, d: Date) -> bool;
//@ item impl Calendar for JointCalendar
    spec fn open(&self, d: Date) -> bool { self.c1.open(d) && self.c2.open(d) }
//@ fn Calendar::last_day_of_month
    requires covered(date)
    ensures res.n() == month_end(date)
//@ fn Calendar::end_of_month
    requires covered(date), exists|e: Date| #[trigger] open_from(qv_self, e) && e.n() <= month_end(date)
    ensures qv_self.open(res), res.n() <= month_end(date), forall|e: Date| res.n() < e.n() <= month_end(date) ==> !#[trigger] qv_self.open(e)
//@ fn Calendar::is_business_day
    requires covered(date)
    ensures res == self.open(date)
//@ fn Calendar::is_holiday
    requires covered(date)
    ensures res == !self.open(date)
//@ loop Calendar::end_of_month 0
    invariant
        covered(date), covered(last_day_of_month), last_day_of_month.n() <= month_end(date),
        forall|e: Date| last_day_of_month.n() < e.n() <= month_end(date) ==> !#[trigger] qv_self.open(e),
        open_from(qv_self, qv_some), qv_some.n() <= last_day_of_month.n(),
    decreases last_day_of_month.n() - serial(1901, 1, 1)
//@ start Calendar::end_of_month
    let ghost qv_some = choose|e: Date| #[trigger] open_from(qv_self, e) && e.n() <= month_end(date);
    proof { covered_year(date); }
//@ loopstart Calendar::end_of_month 0
    proof {
        covered_year(date);
        assert forall|e: Date| e.n() == last_day_of_month.n() implies #[trigger] qv_self.open(e) == qv_self.open(last_day_of_month) by { same_day_number(e, last_day_of_month); }
    }
//@ start Calendar::last_day_of_month
    proof { covered_year(date); }
//@ fn Calendar::business_days_between
    requires covered(from), covered(to)
    ensures res == counted(qv_self, from, to, include_first, include_last)
    decreases b2i(from.n() > to.n())
//@ start Calendar::business_days_between
    proof {
        covered_year(from);
        covered_year(to);
        opens_bound(qv_self, to.n() + b2i(!or(include_first, true)), from.n() + b2i(or(include_last, false)));
    }
//@ loop Calendar::business_days_between 0
    invariant
        covered(from), covered(to), days_from(it0.seq(), first), first.n() >= from.n(),
        first.n() + it0.seq().len() <= to.n() + 1 || it0.seq().len() == 0,
        is_count(day_count, opens(qv_self, first.n(), first.n() + it0.index@), it0.index@ as int),
//@ loopstart Calendar::business_days_between 0
    proof { dated_is(date); }
//@ attr Calendar::end_of_month
    #[verifier::loop_isolation(false)]
//@ attr Calendar::business_days_between
    #[verifier::loop_isolation(false)]

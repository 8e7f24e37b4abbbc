// The dates of the calendar (C01).
include civil.rs
pub uninterp spec fn year(d: Date) -> int;
pub uninterp spec fn month(d: Date) -> int;
pub uninterp spec fn day(d: Date) -> int;
// C01: a date is a valid day, and its number is that day's
pub axiom fn fields(d: Date) ensures valid(year(d), month(d), day(d)), d.n() == serial(year(d), month(d), day(d));
// and every valid day is a date's
pub uninterp spec fn dated(n: int) -> Date;
pub axiom fn dated_number(y: int, m: int, d: int) requires valid(y, m, d) ensures dated(serial(y, m, d)).n() == serial(y, m, d);

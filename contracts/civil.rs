// The calendar behind a day number.
pub open spec fn leap(y: int) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
pub open spec fn dim(y: int, m: int) -> int { if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else if m == 2 { if leap(y) { 29 } else { 28 } } else { 31 } }
pub open spec fn in_range(y: int) -> bool { -262143 <= y <= 262142 }
pub open spec fn valid(y: int, m: int, d: int) -> bool { in_range(y) && 1 <= m <= 12 && 1 <= d <= dim(y, m) }
// days of the year before the month
pub open spec fn before(y: int, m: int) -> int {
    let c = if m == 1 { 0int } else if m == 2 { 31 } else if m == 3 { 59 } else if m == 4 { 90 } else if m == 5 { 120 } else if m == 6 { 151 }
        else if m == 7 { 181 } else if m == 8 { 212 } else if m == 9 { 243 } else if m == 10 { 273 } else if m == 11 { 304 } else { 334 };
    if m > 2 && leap(y) { c + 1 } else { c }
}
// the last day of a year
pub open spec fn year_end(y: int) -> int { 365 * y + y / 4 - y / 100 + y / 400 }
pub open spec fn serial(y: int, m: int, d: int) -> int { year_end(y - 1) + before(y, m) + d }
pub open spec fn first_day() -> int { serial(-262143, 1, 1) }
pub open spec fn last_day() -> int { serial(262142, 12, 31) }
pub proof fn years_rise(a: int, b: int) requires a <= b ensures year_end(a) <= year_end(b) { }
pub proof fn steps(y: int) ensures y / 4 == (y - 1) / 4 + if y % 4 == 0 { 1int } else { 0 } { }
pub proof fn year_length(y: int) ensures year_end(y) == year_end(y - 1) + if leap(y) { 366int } else { 365 } {
    steps(y);
    steps_100(y);
    steps_400(y);
    assert(y % 400 == 0 ==> y % 100 == 0);
    assert(y % 100 == 0 ==> y % 4 == 0);
}
pub proof fn steps_100(y: int) ensures y / 100 == (y - 1) / 100 + if y % 100 == 0 { 1int } else { 0 } { }
pub proof fn steps_400(y: int) ensures y / 400 == (y - 1) / 400 + if y % 400 == 0 { 1int } else { 0 } { }
// dates are numbered in order
pub proof fn serial_rises(y: int, m: int, d: int, y2: int, m2: int, d2: int)
    requires valid(y, m, d), valid(y2, m2, d2), y < y2 || (y == y2 && m < m2)
    ensures serial(y, m, d) < serial(y2, m2, d2)
{
    year_length(y);
    assert(before(y, m) + d <= if leap(y) { 366int } else { 365 });
    assert(1 <= before(y2, m2) + d2);
    if y < y2 { years_rise(y, y2 - 1); }
}

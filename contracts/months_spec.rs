// The contracts of C03 and C04.
pub open spec fn min(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn on(y: int, m: int, d: int) -> int { serial(y, m, min(d, dim(y, m))) }
// C03
pub open spec fn plus(d: Date, months: int) -> Option<Date> {
    let k = 12 * year(d) + month(d) - 1 + months;
    if in_range(k / 12) { Some(dated(on(k / 12, k % 12 + 1, day(d)))) } else { None }
}
// C04: number 1 is a Monday
pub open spec fn weekday(n: int) -> bool { (n - 1) % 7 < 5 }
pub open spec fn rolled(d: Date) -> Option<Date> {
    let n = if weekday(d.n() as int) { d.n() as int } else if weekday(d.n() + 1) { d.n() + 1 } else { d.n() + 2 };
    if n <= last_day() { Some(dated(n)) } else { None }
}

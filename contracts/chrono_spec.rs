// A date, if there is one: by its number, by its fields, and by the months from another (C03).
pub open spec fn naive_at(r: Option<NaiveDate>, n: int) -> bool { match r { Some(e) => e.n() == n, None => !(first_day() <= n <= last_day()) } }
pub open spec fn naive_on(r: Option<NaiveDate>, y: int, m: int, d: int) -> bool {
    match r { Some(e) => valid(y, m, d) && e.n() == serial(y, m, d), None => !valid(y, m, d) }
}
pub open spec fn naive_months(r: Option<NaiveDate>, a: NaiveDate, months: int) -> bool {
    let k = 12 * ny(a) + nm(a) - 1 + months;
    let last = dim(k / 12, k % 12 + 1);
    match r {
        Some(e) => in_range(k / 12) && e.n() == serial(k / 12, k % 12 + 1, if nd(a) < last { nd(a) } else { last }),
        None => !in_range(k / 12),
    }
}

// every date is within the range
pub proof fn within(d: Date) ensures first_day() <= d.n() <= last_day() {
    fields(d);
    let (y, m) = (year(d), month(d));
    year_length(y);
    if y < 262142 { years_rise(y, 262142 - 1); }
    if y > -262143 { years_rise(-262143, y - 1); }
}

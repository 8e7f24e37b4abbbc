//! Mathematical specification of the proleptic Gregorian calendar, independent of chrono.

/// Supported range of chrono 0.4's `NaiveDate`: every day of the years MIN_YEAR..=MAX_YEAR.
pub const MIN_YEAR: i64 = -262_143;
pub const MAX_YEAR: i64 = 262_142;

pub const fn is_leap(y: i64) -> bool {
    y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0)
}

/// Number of days of month `m` (1..=12) of year `y`.
pub const fn days_in_month(y: i64, m: i64) -> i64 {
    match m {
        4 | 6 | 9 | 11 => 30,
        2 => {
            if is_leap(y) {
                29
            } else {
                28
            }
        }
        _ => 31,
    }
}

pub const fn valid_ymd(y: i64, m: i64, d: i64) -> bool {
    MIN_YEAR <= y && y <= MAX_YEAR && 1 <= m && m <= 12 && 1 <= d && d <= days_in_month(y, m)
}

const CUM: [i64; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];

/// Day of the year, 1 = 1 January.
pub const fn ordinal(y: i64, m: i64, d: i64) -> i64 {
    CUM[(m - 1) as usize] + d + if m > 2 && is_leap(y) { 1 } else { 0 }
}

/// Days since 31 December of year 0: 0001-01-01 is day 1.
pub const fn serial(y: i64, m: i64, d: i64) -> i64 {
    let p = y - 1;
    365 * p + p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400) + ordinal(y, m, d)
}

pub const MIN_SERIAL: i64 = serial(MIN_YEAR, 1, 1);
pub const MAX_SERIAL: i64 = serial(MAX_YEAR, 12, 31);

/// 0 = Monday ... 6 = Sunday.
pub const fn weekday_of_serial(s: i64) -> i64 {
    (s - 1).rem_euclid(7)
}

pub const fn weekday(y: i64, m: i64, d: i64) -> i64 {
    weekday_of_serial(serial(y, m, d))
}

/// The date whose serial is `s` (inverse of `serial`).
pub const fn from_serial(s: i64) -> (i64, i64, i64) {
    let z = s - 1;
    let n400 = z.div_euclid(146_097);
    let mut r = z.rem_euclid(146_097);
    let mut n100 = r / 36_524;
    if n100 > 3 {
        n100 = 3;
    }
    r -= n100 * 36_524;
    let n4 = r / 1_461;
    r -= n4 * 1_461;
    let mut n1 = r / 365;
    if n1 > 3 {
        n1 = 3;
    }
    r -= n1 * 365;
    let y = 400 * n400 + 100 * n100 + 4 * n4 + n1 + 1;
    let mut m = 1;
    while r >= days_in_month(y, m) {
        r -= days_in_month(y, m);
        m += 1;
    }
    (y, m, r + 1)
}

/// (y, m, d) moved by `months` calendar months, the day clamped to the end of the target month;
/// None when the target month is outside the supported range.
pub const fn shift_months(y: i64, m: i64, d: i64, months: i64) -> Option<(i64, i64, i64)> {
    let k = 12 * y + (m - 1) + months;
    let ty = k.div_euclid(12);
    let tm = k.rem_euclid(12) + 1;
    if ty < MIN_YEAR || ty > MAX_YEAR {
        return None;
    }
    let dim = days_in_month(ty, tm);
    Some((ty, tm, if d < dim { d } else { dim }))
}

/// 30E/360 day count of an ordered pair.
pub const fn thirty_e_360(a: (i64, i64, i64), b: (i64, i64, i64)) -> i64 {
    let d1 = if a.2 < 30 { a.2 } else { 30 };
    let d2 = if b.2 < 30 { b.2 } else { 30 };
    360 * (b.0 - a.0) + 30 * (b.1 - a.1) + (d2 - d1)
}

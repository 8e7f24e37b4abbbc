//! C01-C04, C06, C07, C09: qlab_time.

use super::chrono_model::{self as model, any_date, ser};
use crate::spec;
use chrono::{Datelike, NaiveDate};
use qlab_time::date::Date;
use qlab_time::period::days::Days;
use qlab_time::period::months::Months;
use qlab_time::period::years::Years;
use qlab_time::period::Period;

fn fields(d: Date) -> (i64, i64, i64) {
    (d.year() as i64, d.month() as i64, d.day() as i64)
}
fn nd(d: Date) -> NaiveDate {
    NaiveDate::from_ymd_opt(d.year(), d.month(), d.day()).unwrap()
}

#[allow(non_snake_case)]
mod C01 {
    use super::*;
    #[kani::proof]
    fn construct() {
        let (y, m, d): (i32, u32, u32) = (kani::any(), kani::any(), kani::any());
        let r = Date::from_ymd(y, m, d);
        let t = (y as i64, m as i64, d as i64);
        kani::cover!(r.is_some());
        assert!(r.is_some() == spec::valid_ymd(t.0, t.1, t.2), "built exactly from a valid date");
        if let Some(x) = r {
            assert!(fields(x) == t, "reads back its fields");
            assert!(x.leap_year() == spec::is_leap(t.0), "leap year by the Gregorian rule");
            assert!(Date::from(NaiveDate::from_ymd_opt(y, m, d).unwrap()) == x, "converted from the same date");
        }
    }
    #[kani::proof]
    fn neighbours() {
        let x = Date::from(any_date());
        let (y, m, d) = fields(x);
        let dim = spec::days_in_month(y, m);
        let next = if d < dim { (y, m, d + 1) } else if m < 12 { (y, m + 1, 1) } else { (y + 1, 1, 1) };
        let prev = if d > 1 { (y, m, d - 1) } else if m > 1 { (y, m - 1, spec::days_in_month(y, m - 1)) } else { (y - 1, 12, 31) };
        let ok = |t: (i64, i64, i64)| (spec::MIN_YEAR <= t.0 && t.0 <= spec::MAX_YEAR).then_some(t);
        assert!(x.succ_opt().map(fields) == ok(next), "successor");
        assert!(x.pred_opt().map(fields) == ok(prev), "predecessor");
    }
    #[kani::proof]
    fn order() {
        let (a, b) = (Date::from(any_date()), Date::from(any_date()));
        let want = fields(a).cmp(&fields(b));
        assert!(a.cmp(&b) == want, "ordered by year, month, day");
        assert!(a.partial_cmp(&b) == Some(want), "partially ordered likewise");
        assert!((a == b) == (want == std::cmp::Ordering::Equal), "equal exactly with equal fields");
    }
    #[kani::proof]
    #[kani::stub(chrono::Datelike::num_days_from_ce, model::Serial::num_days_from_ce)]
    #[kani::stub(chrono::NaiveDate::num_days_from_ce, model::inherent_num_days_from_ce)]
    #[kani::stub(chrono::NaiveDate::signed_duration_since, model::signed_duration_since)]
    #[kani::stub(chrono::TimeDelta::num_days, model::num_days)]
    #[kani::unwind(9)]
    fn serial_contract() {
        let n = any_date();
        assert!(Date::from(n).serial_date() as i64 == ser(n), "serial date");
    }
}

#[allow(non_snake_case)]
mod C02 {
    use super::*;
    fn want(n: NaiveDate, by: i128) -> Option<i128> {
        let s = ser(n) as i128 + by;
        (spec::MIN_SERIAL as i128 <= s && s <= spec::MAX_SERIAL as i128).then_some(s)
    }
    #[kani::proof]
    #[kani::stub(chrono::NaiveDate::checked_add_days, model::checked_add_days)]
    #[kani::stub(chrono::NaiveDate::checked_sub_days, model::checked_sub_days)]
    #[kani::stub(chrono::NaiveDate::checked_add_signed, model::checked_add_signed)]
    #[kani::stub(chrono::NaiveDate::checked_sub_signed, model::checked_sub_signed)]
    #[kani::stub(chrono::NaiveDate::succ_opt, model::succ_opt)]
    #[kani::stub(chrono::NaiveDate::pred_opt, model::pred_opt)]
    #[kani::unwind(9)]
    fn add() {
        let n = any_date();
        let k: u64 = kani::any();
        let got = if kani::any() { Date::from(n).checked_add_days(Days::new(k)) } else { Days::new(k).checked_add(Date::from(n)) };
        kani::cover!(got.is_some() && k > 0);
        kani::cover!(got.is_none());
        assert!(got.map(|x| ser(nd(x)) as i128) == want(n, k as i128), "exactly k days later, or None beyond the range");
    }
    #[kani::proof]
    #[kani::stub(chrono::NaiveDate::checked_add_days, model::checked_add_days)]
    #[kani::stub(chrono::NaiveDate::checked_sub_days, model::checked_sub_days)]
    #[kani::stub(chrono::NaiveDate::checked_add_signed, model::checked_add_signed)]
    #[kani::stub(chrono::NaiveDate::checked_sub_signed, model::checked_sub_signed)]
    #[kani::stub(chrono::NaiveDate::succ_opt, model::succ_opt)]
    #[kani::stub(chrono::NaiveDate::pred_opt, model::pred_opt)]
    #[kani::unwind(9)]
    fn sub() {
        let n = any_date();
        let k: u64 = kani::any();
        let got = Date::from(n).checked_sub_days(Days::new(k));
        kani::cover!(got.is_some() && k > 0);
        kani::cover!(got.is_none());
        assert!(got.map(|x| ser(nd(x)) as i128) == want(n, -(k as i128)), "exactly k days earlier, or None beyond the range");
    }
    #[kani::proof]
    #[kani::stub(chrono::Datelike::num_days_from_ce, model::Serial::num_days_from_ce)]
    #[kani::stub(chrono::NaiveDate::num_days_from_ce, model::inherent_num_days_from_ce)]
    #[kani::stub(chrono::NaiveDate::signed_duration_since, model::signed_duration_since)]
    #[kani::stub(chrono::TimeDelta::num_days, model::num_days)]
    #[kani::unwind(9)]
    fn difference() {
        let (a, b) = (any_date(), any_date());
        assert!(Date::from(a) - Date::from(b) == ser(a) - ser(b), "difference of the serial dates");
    }
}

#[allow(non_snake_case)]
mod C03 {
    use super::*;
    /// `spec::shift_months` without a division: the year and the month that are `t` months after
    /// January of year 0.
    fn clamped(t: i64, d: i64) -> Option<(i64, i64, i64)> {
        if t < 12 * spec::MIN_YEAR || t > 12 * spec::MAX_YEAR + 11 {
            return None;
        }
        let (y, m): (i32, u8) = (kani::any(), kani::any());
        kani::assume(spec::MIN_YEAR as i32 <= y && y <= spec::MAX_YEAR as i32 && 1 <= m && m <= 12);
        kani::assume(12 * y + m as i32 - 1 == t as i32);
        let dim = match m {
            4 | 6 | 9 | 11 => 30,
            2 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
            2 => 28,
            _ => 31,
        };
        Some((y as i64, m as i64, if d < dim { d } else { dim }))
    }
    #[kani::proof]
    fn add_months() {
        let n = any_date();
        let k: u32 = kani::any();
        let x = Date::from(n);
        let got = x.checked_add_months(Months::new(k));
        let (y, m, d) = fields(x);
        kani::cover!(got.is_none());
        kani::cover!(got.is_some_and(|g| g.day() < 31 && d == 31));
        assert!(got.map(fields) == clamped(12 * y + m - 1 + k as i64, d), "k calendar months later, clamped, or None beyond the range");
    }
    #[kani::proof]
    fn months_period() {
        let x = Date::from(any_date());
        let k: u32 = kani::any();
        let got = Months::new(k).checked_add(x);
        let (y, m, d) = fields(x);
        kani::cover!(got.is_none());
        assert!(got.map(fields) == clamped(12 * y + m - 1 + k as i64, d), "the period of k months likewise");
    }
    #[kani::proof]
    fn sub_months() {
        let n = any_date();
        let k: u32 = kani::any();
        let x = Date::from(n);
        let got = x.checked_sub_months(Months::new(k));
        let (y, m, d) = fields(x);
        kani::cover!(got.is_none());
        kani::cover!(got.is_some_and(|g| g.day() < 31 && d == 31));
        assert!(got.map(fields) == clamped(12 * y + m - 1 - k as i64, d), "k calendar months earlier, clamped, or None beyond the range");
    }
    #[kani::proof]
    fn add_years() {
        let n = any_date();
        let k: i32 = kani::any();
        let x = Date::from(n);
        let got = if kani::any() { x.checked_add_years(Years::new(k)) } else { Years::new(k).checked_add(x) };
        let (y, m, d) = fields(x);
        let t = y + k as i64;
        let want = if t < spec::MIN_YEAR || t > spec::MAX_YEAR {
            None
        } else {
            let dim = spec::days_in_month(t, m);
            Some((t, m, if d < dim { d } else { dim }))
        };
        kani::cover!(got.is_none());
        kani::cover!(got.is_some_and(|g| g.day() == 28 && d == 29));
        assert!(got.map(fields) == want, "k calendar years later, clamped, or None beyond the range");
    }
}

#[allow(non_snake_case)]
mod C04 {
    use super::*;
    #[kani::proof]
    #[kani::stub(chrono::NaiveDate::checked_add_days, model::checked_add_days)]
    #[kani::stub(chrono::NaiveDate::checked_sub_days, model::checked_sub_days)]
    #[kani::stub(chrono::NaiveDate::checked_add_signed, model::checked_add_signed)]
    #[kani::stub(chrono::NaiveDate::checked_sub_signed, model::checked_sub_signed)]
    #[kani::stub(chrono::NaiveDate::succ_opt, model::succ_opt)]
    #[kani::stub(chrono::NaiveDate::pred_opt, model::pred_opt)]
    #[kani::unwind(9)]
    fn weekend_roll() {
        let n = any_date();
        let w = n.weekday().num_days_from_monday() as i64;
        let s = ser(n);
        let target = if w < 5 { s } else { s + 7 - w };
        let got = Date::from(n).weekend_roll();
        kani::cover!(got.is_some() && w == 6);
        assert!(got.map(|x| ser(nd(x))) == (target <= spec::MAX_SERIAL).then_some(target), "the first Monday to Friday on or after the date");
    }
}

#[allow(non_snake_case)]
mod C06 {
    use super::*;
    use crate::proofs::frac::Frac;
    use qlab_time::day_count::{act_360::Act360, act_365::Act365, DayCount};
    fn act<D: DayCount>(basis: i64) {
        let (a, b) = (any_date(), any_date());
        let r: Result<Frac, _> = D::calculate_day_count_fraction(Date::from(a), Date::from(b));
        kani::cover!(a < b);
        kani::cover!(a > b);
        match r {
            Ok(v) => assert!(v == Frac { n: ser(b) - ser(a), d: basis }, "elapsed days over the basis"),
            Err(e) => {
                std::mem::forget(e);
                panic!("never an error");
            }
        }
    }
    #[kani::proof]
    #[kani::stub(chrono::Datelike::num_days_from_ce, model::Serial::num_days_from_ce)]
    #[kani::stub(chrono::NaiveDate::num_days_from_ce, model::inherent_num_days_from_ce)]
    #[kani::stub(chrono::NaiveDate::signed_duration_since, model::signed_duration_since)]
    #[kani::stub(chrono::TimeDelta::num_days, model::num_days)]
    #[kani::unwind(9)]
    fn act_360() {
        act::<Act360>(360);
    }
    #[kani::proof]
    #[kani::stub(chrono::Datelike::num_days_from_ce, model::Serial::num_days_from_ce)]
    #[kani::stub(chrono::NaiveDate::num_days_from_ce, model::inherent_num_days_from_ce)]
    #[kani::stub(chrono::NaiveDate::signed_duration_since, model::signed_duration_since)]
    #[kani::stub(chrono::TimeDelta::num_days, model::num_days)]
    #[kani::unwind(9)]
    fn act_365() {
        act::<Act365>(365);
    }
}

#[allow(non_snake_case)]
mod C07 {
    use super::*;
    use crate::proofs::frac::Frac;
    use qlab_time::day_count::{thirty_360::Thirty360, DayCount};
    /// `spec::thirty_e_360` in 32 bits
    fn thirty_e_360(a: Date, b: Date) -> i32 {
        let (d1, d2) = (a.day() as i32, b.day() as i32);
        let d1 = if d1 < 30 { d1 } else { 30 };
        let d2 = if d2 < 30 { d2 } else { 30 };
        360 * (b.year() - a.year()) + 30 * (b.month() as i32 - a.month() as i32) + (d2 - d1)
    }
    /// the text of an error carries no claim
    fn no_text(_: std::fmt::Arguments<'_>) -> String {
        String::new()
    }
    #[kani::proof]
    #[kani::stub(std::fmt::format, no_text)]
    fn thirty_360() {
        let (a, b) = (any_date(), any_date());
        let (x, y) = (fields(Date::from(a)), fields(Date::from(b)));
        let r: Result<Frac, _> = Thirty360::calculate_day_count_fraction(Date::from(a), Date::from(b));
        kani::cover!(r.is_ok());
        kani::cover!(r.is_err());
        match r {
            Ok(v) => {
                assert!(x <= y, "reversed dates are an error");
                assert!(v == Frac { n: thirty_e_360(Date::from(a), Date::from(b)) as i64, d: 360 }, "30E/360 days over 360");
            }
            Err(e) => {
                std::mem::forget(e);
                assert!(x > y, "ordered dates are no error");
            }
        }
    }
}

/// The blanket implementation hands every question to the calendar, unchanged.
#[allow(non_snake_case)]
mod C09 {
    use super::*;
    use qlab_time::calendar::Calendar as QCalendar;
    /// open or closed on `on`, anything elsewhere
    #[derive(Debug)]
    struct Oracle {
        on: NaiveDate,
        open: bool,
    }
    impl calendar::Calendar for Oracle {
        fn is_business_day(&self, d: NaiveDate) -> bool {
            if d == self.on { self.open } else { kani::any() }
        }
    }
    struct Direct(Date, bool);
    impl QCalendar for Direct {
        fn is_business_day(&self, d: Date) -> bool {
            if d == self.0 { self.1 } else { kani::any() }
        }
    }
    #[kani::proof]
    fn blanket() {
        let o = Oracle { on: any_date(), open: kani::any() };
        let d = Date::from(o.on);
        assert!(QCalendar::is_business_day(&o, d) == o.open, "business day through qlab_time");
        assert!(QCalendar::is_holiday(&o, d) != o.open, "holiday through qlab_time");
    }
    #[kani::proof]
    fn complement() {
        let c = Direct(Date::from(any_date()), kani::any());
        assert!(QCalendar::is_holiday(&c, c.0) != c.1, "a holiday exactly when not a business day");
    }
}

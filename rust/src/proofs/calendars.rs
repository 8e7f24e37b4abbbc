//! C08, C09, C11-C14: the holiday calendars, for every day of 1901-2199.

use crate::cals::{self, Day};
use crate::{easter, for_each_calendar, spec};
use calendar::jointcalendar::JointCalendar;
use calendar::weekendsonly::WeekendsOnly;
use calendar::Calendar;
use chrono::{Datelike, NaiveDate};

const FIRST: i32 = 1901;
const LAST: i32 = 2199;

/// Any day of 1901-2199, and the day as the rules see it.
fn any_day() -> (NaiveDate, Day) {
    let (y, m, d): (i32, u32, u32) = (kani::any(), kani::any(), kani::any());
    kani::assume(FIRST <= y && y <= LAST);
    let n = NaiveDate::from_ymd_opt(y, m, d);
    kani::assume(n.is_some());
    let n = n.unwrap();
    (n, Day { y, m, d, w: n.weekday().num_days_from_monday(), doy: n.ordinal() as i32 })
}

macro_rules! rules {
    ($($name:ident $p:ident ($c:expr) $r:ident $a:ident,)*) => { $(
        #[allow(non_snake_case)]
        mod $name {
            pub mod $p {
                use super::super::*;
                #[kani::proof]
                fn rule() {
                    let (n, x) = any_day();
                    let closed = !($c).is_business_day(n);
                    let rule = cals::$r(&x);
                    kani::cover!(closed && x.w < 5, "a holiday");
                    kani::cover!(!closed, "a business day");
                    assert!(closed == rule || rule != cals::$a(&x), "closed exactly by rule");
                }
            }
        }
    )* };
}
for_each_calendar!(rules);

macro_rules! weekends {
    ($($name:ident $p:ident ($c:expr) $r:ident $a:ident,)*) => {
        #[allow(non_snake_case)]
        mod C09 {
            use super::*;
            $(
                #[kani::proof]
                fn $name() {
                    let (n, x) = any_day();
                    let c = $c;
                    let (b, w) = (c.is_business_day(n), c.is_weekend(n));
                    kani::cover!(b && !w);
                    assert!(c.is_holiday(n) != b, "a holiday exactly when not a business day");
                    assert!(w == cals::weekend_of(stringify!($name), x.w), "weekend by weekday");
                    assert!(!(w && b) || cals::working_weekend(stringify!($name), &x), "closed on weekends");
                }
            )*
            /// Open or closed on `on`, anything elsewhere.
            #[derive(Debug)]
            struct Oracle {
                on: NaiveDate,
                open: bool,
            }
            impl Calendar for Oracle {
                fn is_business_day(&self, d: NaiveDate) -> bool {
                    if d == self.on { self.open } else { kani::any() }
                }
            }
            #[kani::proof]
            fn joint() {
                let (n, x) = any_day();
                let (a, b): (bool, bool) = (kani::any(), kani::any());
                let j = JointCalendar::new(Oracle { on: n, open: a }, Oracle { on: n, open: b });
                assert!(j.is_business_day(n) == (a && b), "a business day of both");
                assert!(j.is_holiday(n) != (a && b), "a holiday of either");
                let c = Oracle { on: n, open: a };
                assert!(c.is_holiday(n) != a, "a holiday exactly when not a business day");
                assert!(c.is_weekend(n) == (x.w >= cals::SAT), "Saturday and Sunday unless stated otherwise");
            }
        }
    };
}
for_each_calendar!(weekends);

#[allow(non_snake_case)]
mod C08 {
    use super::*;
    fn year() -> i32 {
        let y = kani::any();
        kani::assume(FIRST <= y && y <= LAST);
        y
    }
    #[kani::proof]
    fn western() {
        let y = year();
        kani::cover!(y == LAST);
        assert!(WeekendsOnly.easter_monday(y) == easter::WESTERN[(y - FIRST) as usize], "Gregorian computus");
    }
    #[kani::proof]
    fn orthodox() {
        let y = year();
        kani::cover!(y == LAST);
        assert!(WeekendsOnly.orthodox_easter_monday(y) == easter::ORTHODOX[(y - FIRST) as usize], "Julian computus");
    }
}

#[allow(non_snake_case)]
mod C11 {
    use super::*;
    #[kani::proof]
    fn last_day() {
        let (n, x) = any_day();
        let r = WeekendsOnly.last_day_of_month(n);
        kani::cover!(x.m == 2 && r.day() == 29);
        assert!(r.year() == x.y && r.month() == x.m && r.day() as i64 == spec::days_in_month(x.y as i64, x.m as i64), "the last day of the same month");
    }
}

//! Holiday rules of every calendar and market, stated declaratively and independently of the code:
//! a calendar is closed on a day exactly when `weekend(x)` or one of its rules holds.

use crate::easter::{FIRST, ORTHODOX, WESTERN};
use crate::spec;

pub const MON: u32 = 0;
pub const TUE: u32 = 1;
pub const WED: u32 = 2;
pub const THU: u32 = 3;
pub const FRI: u32 = 4;
pub const SAT: u32 = 5;
pub const SUN: u32 = 6;

pub const JAN: u32 = 1;
pub const FEB: u32 = 2;
pub const MAR: u32 = 3;
pub const APR: u32 = 4;
pub const MAY: u32 = 5;
pub const JUN: u32 = 6;
pub const JUL: u32 = 7;
pub const AUG: u32 = 8;
pub const SEP: u32 = 9;
pub const OCT: u32 = 10;
pub const NOV: u32 = 11;
pub const DEC: u32 = 12;

/// A day between 1901-01-01 and 2199-12-31.
#[derive(Clone, Copy, Debug)]
pub struct Day {
    pub y: i32,
    pub m: u32,
    pub d: u32,
    /// 0 = Monday
    pub w: u32,
    /// 1 = 1 January
    pub doy: i32,
}

impl Day {
    pub fn new(y: i32, m: u32, d: u32) -> Day {
        let (yy, mm, dd) = (y as i64, m as i64, d as i64);
        Day {
            y,
            m,
            d,
            w: spec::weekday(yy, mm, dd) as u32,
            doy: spec::ordinal(yy, mm, dd) as i32,
        }
    }
    fn on(&self, m: u32, d: u32) -> bool {
        self.m == m && self.d == d
    }
    /// on (m, d) of the one year `y`
    fn once(&self, y: i32, m: u32, d: u32) -> bool {
        self.y == y && self.on(m, d)
    }
    fn between(&self, m: u32, a: u32, b: u32) -> bool {
        self.m == m && a <= self.d && self.d <= b
    }
    /// the n-th weekday `w` of month `m`
    fn nth(&self, n: u32, w: u32, m: u32) -> bool {
        self.m == m && self.w == w && 7 * (n - 1) < self.d && self.d <= 7 * n
    }
    /// the last weekday `w` of the 31-day month `m`
    fn last(&self, w: u32, m: u32) -> bool {
        self.m == m && self.w == w && self.d + 7 > 31
    }
    /// days from (m, d) of the same year
    fn after(&self, m: u32, d: u32) -> i32 {
        let leap = (self.y % 4 == 0 && self.y % 100 != 0) || self.y % 400 == 0;
        const CUM: [i32; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
        self.doy - (CUM[(m - 1) as usize] + d as i32 + if m > 2 && leap { 1 } else { 0 })
    }
    /// days from Western Easter Monday
    fn easter(&self, k: i32) -> bool {
        self.doy == WESTERN[(self.y - FIRST as i32) as usize] as i32 + k
    }
    /// days from Orthodox Easter Monday
    fn orthodox(&self, k: i32) -> bool {
        self.doy == ORTHODOX[(self.y - FIRST as i32) as usize] as i32 + k
    }
    fn weekend(&self) -> bool {
        self.w >= SAT
    }
    /// (m, d), or the Monday after it when it is a Sunday
    fn sun_mon(&self, m: u32, d: u32) -> bool {
        self.on(m, d) || (self.w == MON && self.after(m, d) == 1)
    }
    /// (m, d), or the Monday after it when it falls on a weekend
    fn wkd_mon(&self, m: u32, d: u32) -> bool {
        self.on(m, d) || (self.w == MON && (self.after(m, d) == 1 || self.after(m, d) == 2))
    }
    /// (m, d), or the day two days later when (m, d) is a Saturday or a Sunday (the two-day
    /// holidays of Christmas in the Commonwealth)
    fn two_later(&self, m: u32, d: u32) -> bool {
        self.on(m, d) || ((self.w == MON || self.w == TUE) && self.after(m, d) == 2)
    }
    /// (m, d), the Monday after a Sunday, or the Friday before a Saturday
    fn us(&self, m: u32, d: u32) -> bool {
        self.sun_mon(m, d) || (self.w == FRI && self.after(m, d) == -1)
    }
}

// ---------------------------------------------------------------- Europe

pub fn austria_settlement(x: &Day) -> bool {
    x.weekend()
        || x.on(JAN, 1)
        || x.on(JAN, 6)
        || x.easter(0)
        || x.easter(38)
        || x.easter(49)
        || x.easter(59)
        || x.on(MAY, 1)
        || x.on(AUG, 15)
        || austria_national(x)
        || x.on(NOV, 1)
        || x.on(DEC, 8)
        || x.on(DEC, 25)
        || x.on(DEC, 26)
}
fn austria_national(x: &Day) -> bool {
    (x.on(OCT, 26) && x.y >= 1967) || (x.on(NOV, 12) && 1919 <= x.y && x.y <= 1934)
}
pub fn austria_exchange(x: &Day) -> bool {
    x.weekend()
        || x.on(JAN, 1)
        || x.easter(-3)
        || x.easter(0)
        || x.easter(49)
        || x.on(MAY, 1)
        || austria_national(x)
        || x.between(DEC, 24, 26)
        || x.on(DEC, 31)
}

pub fn czech(x: &Day) -> bool {
    x.weekend()
        || x.on(JAN, 1)
        || (x.easter(-3) && x.y >= 2016)
        || x.easter(0)
        || x.on(MAY, 1)
        || x.on(MAY, 8)
        || x.on(JUL, 5)
        || x.on(JUL, 6)
        || x.on(SEP, 28)
        || x.on(OCT, 28)
        || x.on(NOV, 17)
        || x.between(DEC, 24, 26)
        || x.once(2004, JAN, 2)
        || x.once(2004, DEC, 31)
}

pub fn denmark(x: &Day) -> bool {
    x.weekend()
        || x.easter(-4)
        || x.easter(-3)
        || x.easter(0)
        || (x.easter(25) && x.y <= 2023)
        || x.easter(38)
        || (x.easter(39) && x.y >= 2009)
        || x.easter(49)
        || x.on(JAN, 1)
        || x.on(JUN, 5)
        || x.between(DEC, 24, 26)
        || x.on(DEC, 31)
}

pub fn finland(x: &Day) -> bool {
    x.weekend()
        || x.on(JAN, 1)
        || x.on(JAN, 6)
        || x.easter(-3)
        || x.easter(0)
        || x.easter(38)
        || x.on(MAY, 1)
        || (x.w == FRI && x.between(JUN, 19, 25))
        || x.on(DEC, 6)
        || x.between(DEC, 24, 26)
}

/// The rule as it should be: Ascension and Whit Monday follow Easter.
pub fn france_settlement(x: &Day) -> bool {
    france_settlement_fixed(x) || x.easter(38) || x.easter(49)
}
/// Known finding: the code closes on 10 May and 21 May instead.
pub fn france_settlement_as_found(x: &Day) -> bool {
    france_settlement_fixed(x) || x.on(MAY, 10) || x.on(MAY, 21)
}
fn france_settlement_fixed(x: &Day) -> bool {
    x.weekend()
        || x.on(JAN, 1)
        || x.easter(0)
        || x.on(MAY, 1)
        || x.on(MAY, 8)
        || x.on(JUL, 14)
        || x.on(AUG, 15)
        || x.on(NOV, 1)
        || x.on(NOV, 11)
        || x.on(DEC, 25)
}
pub fn france_exchange(x: &Day) -> bool {
    x.weekend()
        || x.on(JAN, 1)
        || x.easter(-3)
        || x.easter(0)
        || x.on(MAY, 1)
        || x.between(DEC, 24, 26)
        || x.on(DEC, 31)
}

pub fn germany_settlement(x: &Day) -> bool {
    x.weekend()
        || x.on(JAN, 1)
        || x.easter(-3)
        || x.easter(0)
        || x.easter(38)
        || x.easter(49)
        || x.easter(59)
        || x.on(MAY, 1)
        || x.on(OCT, 3)
        || x.between(DEC, 24, 26)
}
pub fn germany_frankfurt(x: &Day) -> bool {
    x.weekend()
        || x.on(JAN, 1)
        || x.easter(-3)
        || x.easter(0)
        || x.on(MAY, 1)
        || x.between(DEC, 24, 26)
}
pub fn germany_eurex(x: &Day) -> bool {
    germany_frankfurt(x) || x.on(DEC, 31)
}
pub fn germany_euwax(x: &Day) -> bool {
    germany_frankfurt(x) || x.easter(49)
}

pub fn hungary(x: &Day) -> bool {
    x.weekend()
        || (x.easter(-3) && x.y >= 2017)
        || x.easter(0)
        || x.easter(49)
        || x.on(JAN, 1)
        || x.on(MAR, 15)
        || x.on(MAY, 1)
        || x.on(AUG, 20)
        || x.on(OCT, 23)
        || x.on(NOV, 1)
        || x.on(DEC, 25)
        || x.on(DEC, 26)
}

pub fn iceland(x: &Day) -> bool {
    x.weekend()
        || x.on(JAN, 1)
        || x.easter(-4)
        || x.easter(-3)
        || x.easter(0)
        || (x.w == THU && x.between(APR, 19, 25))
        || x.easter(38)
        || x.easter(49)
        || x.on(MAY, 1)
        || x.on(JUN, 17)
        || x.nth(1, MON, AUG)
        || x.on(DEC, 25)
        || x.on(DEC, 26)
}

pub fn italy_settlement(x: &Day) -> bool {
    x.weekend()
        || x.on(JAN, 1)
        || x.on(JAN, 6)
        || x.easter(0)
        || x.on(APR, 25)
        || x.on(MAY, 1)
        || (x.on(JUN, 2) && x.y >= 2000)
        || x.on(AUG, 15)
        || x.on(NOV, 1)
        || x.on(DEC, 8)
        || x.on(DEC, 25)
        || x.on(DEC, 26)
        || x.once(1999, DEC, 31)
}
pub fn italy_exchange(x: &Day) -> bool {
    x.weekend()
        || x.on(JAN, 1)
        || x.easter(-3)
        || x.easter(0)
        || x.on(MAY, 1)
        || x.on(AUG, 15)
        || x.between(DEC, 24, 26)
        || x.on(DEC, 31)
}

pub fn norway(x: &Day) -> bool {
    x.weekend()
        || x.easter(-4)
        || x.easter(-3)
        || x.easter(0)
        || x.easter(38)
        || x.easter(49)
        || x.on(JAN, 1)
        || x.on(MAY, 1)
        || x.on(MAY, 17)
        || (x.on(DEC, 24) && x.y >= 2002)
        || x.on(DEC, 25)
        || x.on(DEC, 26)
}

pub fn poland(x: &Day) -> bool {
    x.weekend()
        || x.easter(0)
        || x.easter(59)
        || x.on(JAN, 1)
        || (x.on(JAN, 6) && x.y >= 2011)
        || x.on(MAY, 1)
        || x.on(MAY, 3)
        || x.on(AUG, 15)
        || x.on(NOV, 1)
        || x.on(NOV, 11)
        || x.on(DEC, 25)
        || x.on(DEC, 26)
}

pub fn romania(x: &Day) -> bool {
    x.weekend()
        || x.on(JAN, 1)
        || x.on(JAN, 2)
        || x.on(JAN, 24)
        || x.orthodox(0)
        || x.on(MAY, 1)
        || x.orthodox(49)
        || (x.on(JUN, 1) && x.y >= 2017)
        || x.on(AUG, 15)
        || x.on(NOV, 30)
        || x.on(DEC, 1)
        || x.on(DEC, 25)
        || x.on(DEC, 26)
}

pub fn russia_settlement(x: &Day) -> bool {
    x.weekend()
        || x.between(JAN, 1, 2)
        || (x.between(JAN, 3, 5) && x.y >= 2005)
        || x.once(2012, JAN, 6)
        || x.wkd_mon(JAN, 7)
        || x.wkd_mon(FEB, 23)
        || x.wkd_mon(MAR, 8)
        || x.wkd_mon(MAY, 1)
        || x.wkd_mon(MAY, 9)
        || x.wkd_mon(JUN, 12)
        || x.wkd_mon(NOV, 4)
        || match x.y {
            2017 => x.on(FEB, 24) || x.on(MAY, 8) || x.on(NOV, 6),
            2018 => {
                x.on(MAR, 9) || x.on(APR, 30) || x.on(MAY, 2) || x.on(JUN, 11) || x.on(DEC, 31)
            }
            2019 => x.on(MAY, 2) || x.on(MAY, 3) || x.on(MAY, 9),
            2020 => x.on(MAR, 30) || x.on(MAR, 31) || x.between(APR, 1, 3),
            _ => false,
        }
}
/// Weekend days on which the Moscow exchange announced a session.
pub fn russia_working_weekend(x: &Day) -> bool {
    x.once(2012, MAR, 11)
        || x.once(2012, APR, 28)
        || x.once(2012, MAY, 5)
        || x.once(2012, MAY, 12)
        || x.once(2012, JUN, 9)
        || x.once(2016, FEB, 20)
        || x.once(2018, APR, 28)
        || x.once(2018, JUN, 9)
        || x.once(2018, DEC, 29)
}
pub fn russia_exchange(x: &Day) -> bool {
    if russia_working_weekend(x) {
        return false;
    }
    x.weekend()
        || x.on(FEB, 23)
        || x.wkd_mon(MAR, 8)
        || x.on(MAY, 1)
        || x.wkd_mon(MAY, 9)
        || x.on(JUN, 12)
        || x.wkd_mon(NOV, 4)
        || x.on(DEC, 31)
        || match x.y {
            2012 => x.on(JAN, 2) || x.on(MAR, 9) || x.on(APR, 30) || x.on(JUN, 11),
            2013 => x.between(JAN, 1, 4) || x.on(JAN, 7),
            2014 => x.between(JAN, 1, 3) || x.on(JAN, 7),
            2015 => x.between(JAN, 1, 2) || x.on(JAN, 7),
            2016 => {
                x.on(JAN, 1)
                    || x.between(JAN, 7, 8)
                    || x.between(MAY, 2, 3)
                    || x.on(JUN, 13)
                    || x.on(DEC, 30)
            }
            2017 => x.on(JAN, 2) || x.on(MAY, 8),
            2018 => x.between(JAN, 1, 2) || x.on(JAN, 8),
            2019 => x.between(JAN, 1, 2) || x.on(JAN, 7),
            2020 => {
                x.between(JAN, 1, 2)
                    || x.on(JAN, 7)
                    || x.on(FEB, 24)
                    || x.on(JUN, 24)
                    || x.on(JUL, 1)
            }
            _ => false,
        }
}

pub fn slovakia(x: &Day) -> bool {
    x.weekend()
        || x.on(JAN, 1)
        || x.on(JAN, 6)
        || x.easter(-3)
        || x.easter(0)
        || x.on(MAY, 1)
        || x.on(MAY, 8)
        || x.on(JUL, 5)
        || x.on(AUG, 29)
        || x.on(SEP, 1)
        || x.on(SEP, 15)
        || x.on(NOV, 1)
        || x.on(NOV, 17)
        || x.between(DEC, 24, 26)
        || ((x.y == 2004 || x.y == 2005) && x.between(DEC, 24, 31))
}

pub fn sweden(x: &Day) -> bool {
    x.weekend()
        || x.easter(-3)
        || x.easter(0)
        || x.easter(38)
        || (x.easter(49) && x.y <= 2004)
        || x.on(JAN, 1)
        || x.on(JAN, 6)
        || x.on(MAY, 1)
        || (x.on(JUN, 6) && x.y >= 2005)
        || (x.w == FRI && x.between(JUN, 19, 25))
        || x.between(DEC, 24, 26)
        || x.on(DEC, 31)
}

pub fn switzerland(x: &Day) -> bool {
    x.weekend()
        || x.on(JAN, 1)
        || x.on(JAN, 2)
        || x.easter(-3)
        || x.easter(0)
        || x.easter(38)
        || x.easter(49)
        || x.on(MAY, 1)
        || x.on(AUG, 1)
        || x.on(DEC, 25)
        || x.on(DEC, 26)
}

pub fn target(x: &Day) -> bool {
    x.weekend()
        || x.on(JAN, 1)
        || x.on(DEC, 25)
        || (x.y >= 2000 && (x.easter(-3) || x.easter(0) || x.on(MAY, 1) || x.on(DEC, 26)))
        || (x.on(DEC, 31) && (x.y == 1998 || x.y == 1999 || x.y == 2001))
}

pub fn ukraine(x: &Day) -> bool {
    x.weekend()
        || x.wkd_mon(JAN, 1)
        || x.wkd_mon(JAN, 7)
        || x.wkd_mon(MAR, 8)
        || x.orthodox(0)
        || x.orthodox(49)
        || x.on(MAY, 1)
        || x.on(MAY, 2)
        || (x.w == MON && x.on(MAY, 3))
        || x.wkd_mon(MAY, 9)
        || x.on(JUN, 28)
        || x.on(AUG, 24)
        || (x.on(OCT, 14) && x.y >= 2015)
}

pub fn uk(x: &Day) -> bool {
    x.weekend()
        || x.wkd_mon(JAN, 1)
        || x.easter(-3)
        || x.easter(0)
        // early May, moved to VE day in 1995 and 2020
        || (if x.y == 1995 || x.y == 2020 { x.on(MAY, 8) } else { x.nth(1, MON, MAY) })
        // spring, moved next to the jubilee holiday in 2002, 2012 and 2022
        || (match x.y {
            2002 => x.between(JUN, 3, 4),
            2012 => x.between(JUN, 4, 5),
            2022 => x.between(JUN, 2, 3),
            _ => x.last(MON, MAY),
        })
        || x.last(MON, AUG)
        || x.two_later(DEC, 25)
        || x.two_later(DEC, 26)
        || x.once(1999, DEC, 31)
        || x.once(2011, APR, 29)
        || x.once(2022, SEP, 19)
        || x.once(2023, MAY, 8)
}

// ---------------------------------------------------------------- Americas, Africa, Oceania, Japan

/// The rule as it should be: Christmas Day is a holiday.
pub fn argentina(x: &Day) -> bool {
    argentina_as_found(x) || x.on(DEC, 25)
}
/// Known finding: the code is open on 25 December.
pub fn argentina_as_found(x: &Day) -> bool {
    x.weekend()
        || x.on(JAN, 1)
        || x.easter(-4)
        || x.easter(-3)
        || x.on(MAY, 1)
        || x.on(MAY, 25)
        || x.nth(3, MON, JUN)
        || x.on(JUL, 9)
        || x.nth(3, MON, AUG)
        || (x.w == MON && (x.between(OCT, 10, 12) || x.between(OCT, 15, 16)))
        || x.on(DEC, 8)
        || x.on(DEC, 24)
        || x.on(DEC, 31)
        || (x.w == FRI && x.on(DEC, 30))
}

pub fn brazil_settlement(x: &Day) -> bool {
    x.weekend()
        || x.on(JAN, 1)
        || x.on(APR, 21)
        || x.on(MAY, 1)
        || x.on(SEP, 7)
        || x.on(OCT, 12)
        || x.on(NOV, 2)
        || x.on(NOV, 15)
        || x.on(DEC, 25)
        || x.easter(-3)
        || x.easter(-49)
        || x.easter(-48)
        || x.easter(59)
}
pub fn brazil_exchange(x: &Day) -> bool {
    brazil_settlement(x)
        || x.on(JAN, 25)
        || x.on(JUL, 9)
        || (x.on(NOV, 20) && x.y >= 2007)
        || x.on(DEC, 24)
        // last business day of the year
        || x.on(DEC, 31)
        || (x.w == FRI && x.between(DEC, 29, 30))
}

pub fn canada_tsx(x: &Day) -> bool {
    x.weekend()
        || x.wkd_mon(JAN, 1)
        || (x.nth(3, MON, FEB) && x.y >= 2008)
        || x.easter(-3)
        // Monday on or preceding 24 May
        || (x.w == MON && x.between(MAY, 18, 24))
        || x.wkd_mon(JUL, 1)
        || x.nth(1, MON, AUG)
        || x.nth(1, MON, SEP)
        || (x.wkd_mon(SEP, 30) && x.y >= 2021)
        || x.nth(2, MON, OCT)
        || x.two_later(DEC, 25)
        || x.two_later(DEC, 26)
}
pub fn canada_settlement(x: &Day) -> bool {
    canada_tsx(x) || x.wkd_mon(NOV, 11)
}

pub fn chile(x: &Day) -> bool {
    x.weekend()
        || x.on(JAN, 1)
        || (x.on(JAN, 2) && x.w == MON && x.y >= 2017)
        || x.easter(-3)
        || x.on(MAY, 1)
        || x.on(MAY, 21)
        || (x.on(JUN, 21) && x.y >= 2021)
        // St. Peter and St. Paul, moved to the nearest Monday
        || (x.w == MON && (x.between(JUN, 26, 29) || x.on(JUL, 2)))
        || x.on(JUL, 16)
        || x.on(AUG, 15)
        || (x.on(SEP, 17) && x.w == MON && x.y >= 2007)
        || (x.on(SEP, 17) && x.w == FRI && x.y >= 2017)
        || x.on(SEP, 18)
        || x.on(SEP, 19)
        || (x.on(SEP, 20) && x.w == FRI && x.y >= 2007)
        // Discovery of Two Worlds, moved to the nearest Monday
        || (x.w == MON && (x.between(OCT, 9, 12) || x.on(OCT, 15)))
        // Reformation Day, a Friday when 31 October is a Tuesday or a Wednesday
        || (x.y >= 2008
            && ((x.on(OCT, 31) && x.w != TUE && x.w != WED)
                || (x.w == FRI && (x.on(OCT, 27) || x.on(NOV, 2)))))
        || x.on(NOV, 1)
        || x.on(DEC, 8)
        || x.on(DEC, 25)
}

pub fn mexico(x: &Day) -> bool {
    x.weekend()
        || x.on(JAN, 1)
        || (if x.y <= 2005 {
            x.on(FEB, 5) || x.on(MAR, 21) || x.on(NOV, 20)
        } else {
            x.nth(1, MON, FEB) || x.nth(3, MON, MAR) || x.nth(3, MON, NOV)
        })
        || x.easter(-4)
        || x.easter(-3)
        || x.on(MAY, 1)
        || x.on(SEP, 16)
        || x.on(NOV, 2)
        || x.on(DEC, 12)
        || x.on(DEC, 25)
}

fn us_washington(x: &Day) -> bool {
    if x.y >= 1971 { x.nth(3, MON, FEB) } else { x.us(FEB, 22) }
}
fn us_memorial(x: &Day) -> bool {
    if x.y >= 1971 { x.last(MON, MAY) } else { x.us(MAY, 30) }
}
fn us_columbus(x: &Day) -> bool {
    x.nth(2, MON, OCT) && x.y >= 1971
}
fn us_veterans_moved(x: &Day) -> bool {
    x.nth(4, MON, OCT)
}
fn us_veterans(x: &Day) -> bool {
    if 1971 <= x.y && x.y <= 1977 { us_veterans_moved(x) } else { x.us(NOV, 11) }
}
fn us_veterans_no_saturday(x: &Day) -> bool {
    if 1971 <= x.y && x.y <= 1977 { us_veterans_moved(x) } else { x.sun_mon(NOV, 11) }
}
fn us_juneteenth(x: &Day) -> bool {
    x.us(JUN, 19) && x.y >= 2022
}
fn us_mlk(x: &Day, since: i32) -> bool {
    x.nth(3, MON, JAN) && x.y >= since
}
fn us_thanksgiving(x: &Day) -> bool {
    x.nth(4, THU, NOV)
}
pub fn us_settlement(x: &Day) -> bool {
    x.weekend()
        || x.sun_mon(JAN, 1)
        || (x.on(DEC, 31) && x.w == FRI)
        || us_mlk(x, 1983)
        || us_washington(x)
        || us_memorial(x)
        || us_juneteenth(x)
        || x.us(JUL, 4)
        || x.nth(1, MON, SEP)
        || us_columbus(x)
        || us_veterans(x)
        || us_thanksgiving(x)
        || x.us(DEC, 25)
}
pub fn us_libor(x: &Day) -> bool {
    // since 2015 only Independence Day itself, not its substitutes
    let substitute = (x.on(JUL, 5) && x.w == MON) || (x.on(JUL, 3) && x.w == FRI);
    us_settlement(x) && !(substitute && x.y >= 2015)
}
pub fn us_nyse(x: &Day) -> bool {
    x.weekend()
        || x.sun_mon(JAN, 1)
        || us_mlk(x, 1998)
        || us_washington(x)
        || x.easter(-3)
        || us_memorial(x)
        || us_juneteenth(x)
        || x.us(JUL, 4)
        || x.nth(1, MON, SEP)
        || us_thanksgiving(x)
        || x.us(DEC, 25)
        // presidential election days: every year to 1968, then every fourth year to 1980
        || (x.nth(1, TUE, NOV) && (x.y <= 1968 || x.y == 1972 || x.y == 1976 || x.y == 1980))
        // paperwork crisis, from 12 June 1968
        || (x.y == 1968 && x.w == WED && x.after(JUN, 11) >= 0)
        || nyse_special(x)
}
fn nyse_special(x: &Day) -> bool {
    match x.y {
        2018 => x.on(DEC, 5),
        2012 => x.between(OCT, 29, 30),
        2007 => x.on(JAN, 2),
        2004 => x.on(JUN, 11),
        2001 => x.between(SEP, 11, 14),
        1994 => x.on(APR, 27),
        1985 => x.on(SEP, 27),
        1977 => x.on(JUL, 14),
        1973 => x.on(JAN, 25),
        1972 => x.on(DEC, 28),
        1969 => x.on(JUL, 21) || x.on(MAR, 31) || x.on(FEB, 10),
        1968 => x.on(JUL, 5) || x.on(APR, 9),
        1963 => x.on(NOV, 25),
        1961 => x.on(MAY, 29),
        1958 => x.on(DEC, 26),
        1954 | 1956 | 1965 => x.on(DEC, 24),
        _ => false,
    }
}
pub fn us_government_bond(x: &Day) -> bool {
    x.weekend()
        || x.sun_mon(JAN, 1)
        || us_mlk(x, 1983)
        || us_washington(x)
        // only half days in 2015, 2021 and 2023
        || (x.easter(-3) && x.y != 2015 && x.y != 2021 && x.y != 2023)
        || us_memorial(x)
        || us_juneteenth(x)
        || x.us(JUL, 4)
        || x.nth(1, MON, SEP)
        || us_columbus(x)
        || us_veterans_no_saturday(x)
        || us_thanksgiving(x)
        || x.us(DEC, 25)
        || x.once(2018, DEC, 5)
        || x.once(2012, OCT, 30)
        || x.once(2004, JUN, 11)
}
pub fn us_sofr(x: &Day) -> bool {
    us_government_bond(x) || x.once(2023, APR, 7)
}
pub fn us_nerc(x: &Day) -> bool {
    x.weekend()
        || x.sun_mon(JAN, 1)
        || us_memorial(x)
        || x.sun_mon(JUL, 4)
        || x.nth(1, MON, SEP)
        || us_thanksgiving(x)
        || x.sun_mon(DEC, 25)
}
pub fn us_federal_reserve(x: &Day) -> bool {
    us_nerc(x)
        || us_mlk(x, 1983)
        || us_washington(x)
        || us_juneteenth(x)
        || us_columbus(x)
        || us_veterans_no_saturday(x)
}

pub fn botswana(x: &Day) -> bool {
    x.weekend()
        || x.sun_mon(JAN, 1)
        || (x.on(JAN, 3) && x.w == TUE)
        || x.easter(-3)
        || x.easter(0)
        || x.sun_mon(MAY, 1)
        || x.easter(38)
        || x.sun_mon(JUL, 1)
        || x.nth(3, MON, JUL)
        || x.sun_mon(SEP, 30)
        || x.sun_mon(OCT, 1)
        || (x.on(OCT, 3) && x.w == TUE)
        || x.on(DEC, 25)
        || x.sun_mon(DEC, 26)
}

pub fn south_africa(x: &Day) -> bool {
    x.weekend()
        || x.sun_mon(JAN, 1)
        || x.easter(-3)
        || x.easter(0)
        || x.sun_mon(MAR, 21)
        || x.sun_mon(APR, 27)
        || x.sun_mon(MAY, 1)
        || x.sun_mon(JUN, 16)
        || x.sun_mon(AUG, 9)
        || x.sun_mon(SEP, 24)
        || x.sun_mon(DEC, 16)
        || x.on(DEC, 25)
        || x.sun_mon(DEC, 26)
        || x.once(2004, APR, 14)
        || x.once(2009, APR, 22)
        || x.once(2016, AUG, 3)
        || x.once(2021, NOV, 1)
        || x.once(2022, DEC, 27)
}

pub fn australia_asx(x: &Day) -> bool {
    x.weekend()
        || x.wkd_mon(JAN, 1)
        || x.wkd_mon(JAN, 26)
        || x.easter(-3)
        || x.easter(0)
        || x.on(APR, 25)
        || x.nth(2, MON, JUN)
        || x.two_later(DEC, 25)
        || x.two_later(DEC, 26)
        || x.once(2022, SEP, 22)
}
pub fn australia_settlement(x: &Day) -> bool {
    australia_asx(x) || x.nth(1, MON, AUG) || x.nth(1, MON, OCT)
}

pub fn new_zealand(x: &Day) -> bool {
    x.weekend()
        || x.two_later(JAN, 1)
        || x.two_later(JAN, 2)
        // Monday nearest 22 January
        || (x.w == MON && x.between(JAN, 19, 25))
        || x.on(FEB, 6)
        || (x.wkd_mon(FEB, 6) && x.y >= 2014)
        || x.easter(-3)
        || x.easter(0)
        || x.on(APR, 25)
        || (x.wkd_mon(APR, 25) && x.y >= 2014)
        || x.nth(1, MON, JUN)
        || x.nth(4, MON, OCT)
        || x.two_later(DEC, 25)
        || x.two_later(DEC, 26)
        || matariki(x)
}
/// Matariki as published by the New Zealand government for 2022-2052.
fn matariki(x: &Day) -> bool {
    match x.y {
        2022 => x.on(JUN, 24),
        2023 => x.on(JUL, 14),
        2024 => x.on(JUN, 28),
        2025 => x.on(JUN, 20),
        2026 => x.on(JUL, 10),
        2027 => x.on(JUN, 25),
        2028 => x.on(JUL, 14),
        2029 => x.on(JUL, 6),
        2030 => x.on(JUN, 21),
        2031 => x.on(JUL, 11),
        2032 => x.on(JUL, 2),
        2033 => x.on(JUN, 24),
        2034 => x.on(JUL, 7),
        2035 => x.on(JUN, 29),
        2036 => x.on(JUL, 18),
        2037 => x.on(JUL, 10),
        2038 => x.on(JUN, 25),
        2039 => x.on(JUL, 15),
        2040 => x.on(JUL, 6),
        2041 => x.on(JUL, 19),
        2042 => x.on(JUL, 11),
        2043 => x.on(JUL, 3),
        2044 => x.on(JUN, 24),
        2045 => x.on(JUL, 7),
        2046 => x.on(JUN, 29),
        2047 => x.on(JUL, 19),
        2048 => x.on(JUL, 3),
        2049 => x.on(JUN, 25),
        2050 => x.on(JUL, 15),
        2051 => x.on(JUN, 30),
        2052 => x.on(JUN, 21),
        _ => false,
    }
}

/// Day of March / September of the equinox holiday: floor of the moment of the equinox in Japan
/// (the published approximations for 1900-1979, 1980-2099 and 2100-2150), as a table.
pub const fn equinox(y: i64, autumn: bool) -> u32 {
    if y < 1900 || y > 2150 {
        return if autumn { 23 } else { 20 };
    }
    let base: i64 = match (autumn, y) {
        (false, 1900..=1979) => 208_357,
        (false, 1980..=2099) => 208_431,
        (false, _) => 218_510,
        (true, 1900..=1979) => 232_588,
        (true, 1980..=2099) => 232_488,
        (true, _) => 242_488,
    };
    let leap = if y < 1980 { -((1983 - y) / 4) } else { (y - 1980) / 4 };
    ((base * 100 + 242_194 * (y - 1980)).div_euclid(1_000_000) - leap) as u32
}
const fn equinoxes(autumn: bool) -> [u32; 299] {
    let mut t = [0u32; 299];
    let mut i = 0;
    while i < 299 {
        t[i] = equinox(1901 + i as i64, autumn);
        i += 1;
    }
    t
}
pub const VERNAL: [u32; 299] = equinoxes(false);
pub const AUTUMNAL: [u32; 299] = equinoxes(true);

pub fn japan(x: &Day) -> bool {
    let ve = VERNAL[(x.y - 1901) as usize];
    let ae = AUTUMNAL[(x.y - 1901) as usize];
    x.weekend()
        || x.between(JAN, 1, 3)
        || (if x.y >= 2000 { x.nth(2, MON, JAN) } else { x.sun_mon(JAN, 15) })
        || x.sun_mon(FEB, 11)
        || (x.sun_mon(FEB, 23) && x.y >= 2020)
        || (x.sun_mon(DEC, 23) && 1989 <= x.y && x.y <= 2018)
        || x.sun_mon(MAR, ve)
        || x.sun_mon(APR, 29)
        || x.between(MAY, 3, 5)
        // 6 May replaces one of 3, 4, 5 May that is a Sunday
        || (x.on(MAY, 6) && (x.w == MON || x.w == TUE || x.w == WED))
        || japan_marine(x)
        || japan_mountain(x)
        || (if x.y >= 2003 { x.nth(3, MON, SEP) } else { x.sun_mon(SEP, 15) })
        // a single day between Respect for the Aged Day and the autumnal equinox
        || (x.y >= 2003 && x.w == TUE && x.between(SEP, 16, 22) && x.d + 1 == ae)
        || x.sun_mon(SEP, ae)
        || japan_sports(x)
        || x.sun_mon(NOV, 3)
        || x.sun_mon(NOV, 23)
        || x.on(DEC, 31)
        || x.once(1959, APR, 10)
        || x.once(1989, FEB, 24)
        || x.once(1990, NOV, 12)
        || x.once(1993, JUN, 9)
        || x.once(2019, APR, 30)
        || x.once(2019, MAY, 1)
        || x.once(2019, MAY, 2)
        || x.once(2019, OCT, 22)
}
fn japan_marine(x: &Day) -> bool {
    match x.y {
        ..=1995 => false,
        1996..=2002 => x.sun_mon(JUL, 20),
        2020 => x.on(JUL, 23),
        2021 => x.on(JUL, 22),
        _ => x.nth(3, MON, JUL),
    }
}
fn japan_mountain(x: &Day) -> bool {
    match x.y {
        ..=2015 => false,
        2020 => x.on(AUG, 10),
        2021 => x.on(AUG, 9),
        _ => x.sun_mon(AUG, 11),
    }
}
fn japan_sports(x: &Day) -> bool {
    match x.y {
        ..=1999 => x.sun_mon(OCT, 10),
        2020 => x.on(JUL, 24),
        2021 => x.on(JUL, 23),
        _ => x.nth(2, MON, OCT),
    }
}

pub fn weekends_only(x: &Day) -> bool {
    x.weekend()
}

// ---------------------------------------------------------------- table-driven calendars

use crate::tables::{self, Row};

/// One bit mask per month of the years `first`..`first + N / 12`.
const fn dense<const N: usize>(rows: &[Row], first: i32) -> [u32; N] {
    let mut t = [0u32; N];
    let mut i = 0;
    while i < rows.len() {
        t[((rows[i].0 - first) * 12) as usize + rows[i].1 as usize - 1] = rows[i].2;
        i += 1;
    }
    t
}
fn tabulated(t: &[u32], first: i32, x: &Day) -> bool {
    let i = (x.y - first) * 12 + x.m as i32 - 1;
    0 <= i && (i as usize) < t.len() && (t[i as usize] >> x.d) & 1 == 1
}

const CHINA: [u32; 240] = dense(&tables::CHINA, 2004);
pub fn china(x: &Day) -> bool {
    x.weekend()
        || x.on(JAN, 1)
        || (x.y <= 2008 && (x.on(APR, 4) || x.on(JUN, 9) || x.on(SEP, 15)))
        || (x.y <= 2007 && (x.between(MAY, 1, 7) || x.between(OCT, 1, 7)))
        || tabulated(&CHINA, 2004, x)
}

const HONGKONG: [u32; 252] = dense(&tables::HONGKONG, 2004);
pub fn hong_kong(x: &Day) -> bool {
    x.weekend()
        || x.sun_mon(JAN, 1)
        || x.easter(-3)
        || x.easter(0)
        || x.sun_mon(MAY, 1)
        || x.sun_mon(JUL, 1)
        || x.sun_mon(OCT, 1)
        || x.on(DEC, 25)
        || x.on(DEC, 26)
        || tabulated(&HONGKONG, 2004, x)
}

const INDIA: [u32; 252] = dense(&tables::INDIA, 2005);
pub fn india(x: &Day) -> bool {
    x.weekend()
        || x.on(JAN, 26)
        || x.easter(-3)
        || x.on(APR, 14)
        || x.on(MAY, 1)
        || x.on(AUG, 15)
        || x.on(OCT, 2)
        || x.on(DEC, 25)
        || tabulated(&INDIA, 2005, x)
}

const INDONESIA: [u32; 120] = dense(&tables::INDONESIA, 2005);
pub fn indonesia(x: &Day) -> bool {
    x.weekend()
        || x.on(JAN, 1)
        || x.easter(-3)
        || x.easter(38)
        || x.on(AUG, 17)
        || x.on(DEC, 25)
        || tabulated(&INDONESIA, 2005, x)
}

const ISRAEL: [u32; 384] = dense(&tables::ISRAEL, 2013);
pub fn israel(x: &Day) -> bool {
    x.w == FRI || x.w == SAT || tabulated(&ISRAEL, 2013, x)
}

const SINGAPORE: [u32; 240] = dense(&tables::SINGAPORE, 2004);
pub fn singapore(x: &Day) -> bool {
    x.weekend()
        || x.sun_mon(JAN, 1)
        || x.easter(-3)
        || x.on(MAY, 1)
        || x.sun_mon(AUG, 9)
        || x.on(DEC, 25)
        || tabulated(&SINGAPORE, 2004, x)
}

const SOUTHKOREA: [u32; 564] = dense(&tables::SOUTHKOREA, 2004);
pub fn south_korea(x: &Day) -> bool {
    // a holiday on a weekend has been replaced by the Monday after it since a given year
    let moved = |m: u32, d: u32, since: i32| x.on(m, d) || (x.wkd_mon(m, d) && x.y >= since);
    x.weekend()
        || x.on(JAN, 1)
        || moved(MAR, 1, 2022)
        || (x.on(APR, 5) && x.y <= 2005)
        || x.on(MAY, 1)
        || moved(MAY, 5, 2014)
        || x.on(JUN, 6)
        || (x.on(JUL, 17) && x.y <= 2007)
        || moved(AUG, 15, 2021)
        || moved(OCT, 3, 2021)
        || (moved(OCT, 9, 2021) && x.y >= 2013)
        || moved(DEC, 25, 2023)
        || tabulated(&SOUTHKOREA, 2004, x)
}

const TAIWAN: [u32; 276] = dense(&tables::TAIWAN, 2002);
pub fn taiwan(x: &Day) -> bool {
    x.weekend()
        || x.on(JAN, 1)
        || x.on(FEB, 28)
        || (x.on(APR, 5) && x.y != 2008 && x.y != 2009 && x.y != 2012 && x.y != 2017)
        || x.on(MAY, 1)
        || x.on(OCT, 10)
        || tabulated(&TAIWAN, 2002, x)
}

const THAILAND: [u32; 228] = dense(&tables::THAILAND, 2000);
pub fn thailand(x: &Day) -> bool {
    x.weekend()
        || x.wkd_mon(JAN, 1)
        || x.wkd_mon(APR, 6)
        || x.between(APR, 13, 15)
        // one substitute for a Songkran day on a weekend
        || (x.on(APR, 16) && (x.w == MON || x.w == TUE))
        || x.wkd_mon(MAY, 1)
        || (x.wkd_mon(JUL, 28) && x.y >= 2017)
        || x.wkd_mon(AUG, 12)
        || (x.wkd_mon(OCT, 13) && x.y >= 2017)
        || x.wkd_mon(DEC, 5)
        || x.wkd_mon(DEC, 10)
        || x.on(DEC, 31)
        || tabulated(&THAILAND, 2000, x)
}

const TURKEY: [u32; 372] = dense(&tables::TURKEY, 2004);
pub fn turkey(x: &Day) -> bool {
    x.weekend()
        || x.on(JAN, 1)
        || x.on(APR, 23)
        || x.on(MAY, 1)
        || x.on(MAY, 19)
        || (x.on(JUL, 15) && x.y >= 2017)
        || x.on(AUG, 30)
        || x.on(OCT, 29)
        || tabulated(&TURKEY, 2004, x)
}

/// The weekend of a calendar: Friday and Saturday in Israel.
pub const fn weekend_of(name: &str, w: u32) -> bool {
    if is(name, "israel") {
        w == FRI || w == SAT
    } else {
        w >= SAT
    }
}
/// The weekend days on which a calendar is open.
pub fn working_weekend(name: &str, x: &Day) -> bool {
    is(name, "russia_exchange") && russia_working_weekend(x)
}
const fn is(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}

/// Every calendar and market: the property that claims it, the constructor in the code, the rule,
/// and the rule as found (the same unless a known finding separates them).
#[macro_export]
macro_rules! for_each_calendar {
    ($m:ident) => {
        $m! {
            austria C12 (calendar::austria::Austria { market: None }) austria_settlement austria_settlement,
            austria_settlement C12 (calendar::austria::Austria { market: Some(calendar::austria::AustriaMarket::Settlement) }) austria_settlement austria_settlement,
            austria_exchange C12 (calendar::austria::Austria { market: Some(calendar::austria::AustriaMarket::Exchange) }) austria_exchange austria_exchange,
            czech_republic C12 (calendar::czechrepublic::CzechRepublic) czech czech,
            denmark C12 (calendar::denmark::Denmark) denmark denmark,
            finland C12 (calendar::finland::Finland) finland finland,
            france C12 (calendar::france::France { market: None }) france_settlement france_settlement_as_found,
            france_settlement C12 (calendar::france::France { market: Some(calendar::france::FranceMarket::Settlement) }) france_settlement france_settlement_as_found,
            france_exchange C12 (calendar::france::France { market: Some(calendar::france::FranceMarket::Exchange) }) france_exchange france_exchange,
            germany C12 (calendar::germany::Germany { market: None }) germany_frankfurt germany_frankfurt,
            germany_settlement C12 (calendar::germany::Germany { market: Some(calendar::germany::GermanyMarket::Settlement) }) germany_settlement germany_settlement,
            germany_frankfurt C12 (calendar::germany::Germany { market: Some(calendar::germany::GermanyMarket::FrankfurtStockExchange) }) germany_frankfurt germany_frankfurt,
            germany_xetra C12 (calendar::germany::Germany { market: Some(calendar::germany::GermanyMarket::Xetra) }) germany_frankfurt germany_frankfurt,
            germany_eurex C12 (calendar::germany::Germany { market: Some(calendar::germany::GermanyMarket::Eurex) }) germany_eurex germany_eurex,
            germany_euwax C12 (calendar::germany::Germany { market: Some(calendar::germany::GermanyMarket::Euwax) }) germany_euwax germany_euwax,
            hungary C12 (calendar::hungary::Hungary) hungary hungary,
            iceland C12 (calendar::iceland::Iceland) iceland iceland,
            italy C12 (calendar::italy::Italy { market: None }) italy_settlement italy_settlement,
            italy_settlement C12 (calendar::italy::Italy { market: Some(calendar::italy::ItalyMarket::Settlement) }) italy_settlement italy_settlement,
            italy_exchange C12 (calendar::italy::Italy { market: Some(calendar::italy::ItalyMarket::Exchange) }) italy_exchange italy_exchange,
            norway C12 (calendar::norway::Norway) norway norway,
            poland C12 (calendar::poland::Poland) poland poland,
            romania C12 (calendar::romania::Romania) romania romania,
            russia C12 (calendar::russia::Russia { market: None }) russia_settlement russia_settlement,
            russia_settlement C12 (calendar::russia::Russia { market: Some(calendar::russia::RussiaMarket::Settlement) }) russia_settlement russia_settlement,
            russia_exchange C12 (calendar::russia::Russia { market: Some(calendar::russia::RussiaMarket::Exchange) }) russia_exchange russia_exchange,
            slovakia C12 (calendar::slovakia::Slovakia) slovakia slovakia,
            sweden C12 (calendar::sweden::Sweden) sweden sweden,
            switzerland C12 (calendar::switzerland::Switzerland) switzerland switzerland,
            target C12 (calendar::target::Target) target target,
            ukraine C12 (calendar::ukraine::Ukraine) ukraine ukraine,
            uk C12 (calendar::unitedkingdom::UnitedKingdom { market: None }) uk uk,
            uk_settlement C12 (calendar::unitedkingdom::UnitedKingdom { market: Some(calendar::unitedkingdom::UnitedKingdomMarket::Settlement) }) uk uk,
            uk_exchange C12 (calendar::unitedkingdom::UnitedKingdom { market: Some(calendar::unitedkingdom::UnitedKingdomMarket::Exchange) }) uk uk,
            uk_metals C12 (calendar::unitedkingdom::UnitedKingdom { market: Some(calendar::unitedkingdom::UnitedKingdomMarket::Metals) }) uk uk,

            argentina C13 (calendar::argentina::Argentina) argentina argentina_as_found,
            australia C13 (calendar::australia::Australia { market: None }) australia_settlement australia_settlement,
            australia_settlement C13 (calendar::australia::Australia { market: Some(calendar::australia::AustraliaMarket::Settlement) }) australia_settlement australia_settlement,
            australia_asx C13 (calendar::australia::Australia { market: Some(calendar::australia::AustraliaMarket::ASX) }) australia_asx australia_asx,
            botswana C13 (calendar::botswana::Botswana) botswana botswana,
            brazil C13 (calendar::brazil::Brazil { market: None }) brazil_settlement brazil_settlement,
            brazil_settlement C13 (calendar::brazil::Brazil { market: Some(calendar::brazil::BrazilMarket::Settlement) }) brazil_settlement brazil_settlement,
            brazil_exchange C13 (calendar::brazil::Brazil { market: Some(calendar::brazil::BrazilMarket::Exchange) }) brazil_exchange brazil_exchange,
            canada C13 (calendar::canada::Canada { market: None }) canada_settlement canada_settlement,
            canada_settlement C13 (calendar::canada::Canada { market: Some(calendar::canada::CanadaMarket::Settlement) }) canada_settlement canada_settlement,
            canada_tsx C13 (calendar::canada::Canada { market: Some(calendar::canada::CanadaMarket::TSX) }) canada_tsx canada_tsx,
            chile C13 (calendar::chile::Chile) chile chile,
            japan C13 (calendar::japan::Japan) japan japan,
            mexico C13 (calendar::mexico::Mexico) mexico mexico,
            new_zealand C13 (calendar::newzealand::NewZealand) new_zealand new_zealand,
            south_africa C13 (calendar::southafrica::SouthAfrica) south_africa south_africa,
            us C13 (calendar::unitedstates::UnitedStates { market: None }) us_settlement us_settlement,
            us_settlement C13 (calendar::unitedstates::UnitedStates { market: Some(calendar::unitedstates::UnitedStatesMarket::Settlement) }) us_settlement us_settlement,
            us_libor C13 (calendar::unitedstates::UnitedStates { market: Some(calendar::unitedstates::UnitedStatesMarket::Libor) }) us_libor us_libor,
            us_nyse C13 (calendar::unitedstates::UnitedStates { market: Some(calendar::unitedstates::UnitedStatesMarket::NYSE) }) us_nyse us_nyse,
            us_government_bond C13 (calendar::unitedstates::UnitedStates { market: Some(calendar::unitedstates::UnitedStatesMarket::GovernmentBond) }) us_government_bond us_government_bond,
            us_sofr C13 (calendar::unitedstates::UnitedStates { market: Some(calendar::unitedstates::UnitedStatesMarket::SOFR) }) us_sofr us_sofr,
            us_nerc C13 (calendar::unitedstates::UnitedStates { market: Some(calendar::unitedstates::UnitedStatesMarket::NERC) }) us_nerc us_nerc,
            us_federal_reserve C13 (calendar::unitedstates::UnitedStates { market: Some(calendar::unitedstates::UnitedStatesMarket::FederalReserve) }) us_federal_reserve us_federal_reserve,

            china C14 (calendar::china::China) china china,
            hong_kong C14 (calendar::hongkong::HongKong) hong_kong hong_kong,
            india C14 (calendar::india::India) india india,
            indonesia C14 (calendar::indonesia::Indonesia) indonesia indonesia,
            israel C14 (calendar::israel::Israel) israel israel,
            singapore C14 (calendar::singapore::Singapore) singapore singapore,
            south_korea C14 (calendar::southkorea::SouthKorea) south_korea south_korea,
            taiwan C14 (calendar::taiwan::Taiwan) taiwan taiwan,
            thailand C14 (calendar::thailand::Thailand) thailand thailand,
            turkey C14 (calendar::turkey::Turkey) turkey turkey,

            weekends_only C09 (calendar::weekendsonly::WeekendsOnly) weekends_only weekends_only,
        }
    };
}

//! Easter Monday as a day of the year, from the computus (not from the tables of the code).

use crate::spec::{ordinal, serial};

/// (month, day) of Western Easter Sunday: the anonymous Gregorian computus.
pub const fn gregorian_easter(y: i64) -> (i64, i64) {
    let a = y % 19;
    let b = y / 100;
    let c = y % 100;
    let d = b / 4;
    let e = b % 4;
    let f = (b + 8) / 25;
    let g = (b - f + 1) / 3;
    let h = (19 * a + b - d - g + 15) % 30;
    let i = c / 4;
    let k = c % 4;
    let l = (32 + 2 * e + 2 * i - h - k) % 7;
    let m = (a + 11 * h + 22 * l) / 451;
    let n = h + l - 7 * m + 114;
    (n / 31, n % 31 + 1)
}

/// (month, day) of Orthodox Easter Sunday in the Julian calendar: Meeus' Julian computus.
pub const fn julian_easter(y: i64) -> (i64, i64) {
    let a = y % 4;
    let b = y % 7;
    let c = y % 19;
    let d = (19 * c + 15) % 30;
    let e = (2 * a + 4 * b - d + 34) % 7;
    let n = d + e + 114;
    (n / 31, n % 31 + 1)
}

pub const fn western_monday(y: i64) -> i64 {
    let (m, d) = gregorian_easter(y);
    ordinal(y, m, d) + 1
}

pub const fn orthodox_monday(y: i64) -> i64 {
    let (m, d) = julian_easter(y);
    // difference between the Julian and the Gregorian calendar in spring of year y
    let gap = y / 100 - y / 400 - 2;
    ordinal(y, m, d) + gap + 1
}

pub const FIRST: i64 = 1901;
pub const LAST: i64 = 2199;
pub const N: usize = (LAST - FIRST + 1) as usize;

const fn table(orthodox: bool) -> [u32; N] {
    let mut t = [0u32; N];
    let mut i = 0;
    while i < N {
        let y = FIRST + i as i64;
        t[i] = (if orthodox { orthodox_monday(y) } else { western_monday(y) }) as u32;
        i += 1;
    }
    t
}

pub const WESTERN: [u32; N] = table(false);
pub const ORTHODOX: [u32; N] = table(true);

/// Sanity of the two computations above: both always give a Sunday.
pub const fn sunday_check(y: i64) -> bool {
    let w = serial(y, 1, 1) - 1 + western_monday(y);
    let o = serial(y, 1, 1) - 1 + orthodox_monday(y);
    crate::spec::weekday_of_serial(w) == 0 && crate::spec::weekday_of_serial(o) == 0
}

//! The contracts of chrono that the proofs assume, evaluated on the real crate. Those about one day
//! are evaluated on every supported day when `all` is set.

use crate::engine::*;
use crate::spec;
use chrono::{Datelike, Days, Duration, Months, NaiveDate};

type T = (i64, i64, i64);

fn date((y, m, d): T) -> Option<NaiveDate> {
    NaiveDate::from_ymd_opt(y as i32, m as u32, d as u32)
}
fn ser(n: NaiveDate) -> i64 {
    spec::serial(n.year() as i64, n.month() as i64, n.day() as i64)
}
fn at(s: i64) -> Option<NaiveDate> {
    if s < spec::MIN_SERIAL || s > spec::MAX_SERIAL {
        return None;
    }
    date(spec::from_serial(s))
}

/// One day: its number and weekday; `before` is the day before it.
fn one(n: NaiveDate, s: i64, before: Option<NaiveDate>) -> bool {
    n.num_days_from_ce() as i64 == s && n.weekday().num_days_from_monday() as i64 == spec::weekday_of_serial(s) && n.pred_opt() == before && before.map_or(true, |b| b.succ_opt() == Some(n) && b < n)
}
fn two(a: NaiveDate, k: i64, r: &mut Rng) -> Result<(), &'static str> {
    let s = ser(a);
    let want = at(s.saturating_add(k));
    let days = k.unsigned_abs();
    let got = if k >= 0 { a.checked_add_days(Days::new(days)) } else { a.checked_sub_days(Days::new(days)) };
    if got != want {
        return Err("checked_add_days / checked_sub_days");
    }
    if k.abs() < 100_000_000 {
        let d = Duration::days(k);
        if a.checked_add_signed(d) != want || a.checked_sub_signed(-d) != want || d.num_days() != k {
            return Err("checked_add_signed / checked_sub_signed");
        }
        if let Some(b) = want {
            let mut c = a;
            c += d;
            let mut e = a;
            e -= -d;
            if a + d != b || a - (-d) != b || c != b || e != b {
                return Err("+ and - of a duration");
            }
        }
    }
    if let Some(b) = want {
        if (b - a).num_days() != k || b.signed_duration_since(a).num_days() != k || (a < b) != (k > 0) || (a == b) != (k == 0) {
            return Err("difference and order");
        }
    }
    let bits = r.int(1, 32);
    let m = r.int(0, 1 << bits) as u32;
    let t = (a.year() as i64, a.month() as i64, a.day() as i64);
    let ok = |n: i64| spec::shift_months(t.0, t.1, t.2, n).and_then(date);
    if m <= i32::MAX as u32 && (a.checked_add_months(Months::new(m)) != ok(m as i64) || a.checked_sub_months(Months::new(m)) != ok(-(m as i64))) {
        return Err("checked_add_months / checked_sub_months");
    }
    let mut it = a.iter_days();
    for i in 0..3 {
        let want = if s + i < spec::MAX_SERIAL { at(s + i) } else { None };
        if it.next() != want {
            return Err("iter_days");
        }
        if want.is_none() {
            break;
        }
    }
    Ok(())
}

/// evaluations, failures, the first failure
pub fn contracts(seed: u64, all: bool) -> (u64, u64, String) {
    let (mut n, mut bad, mut first) = (0u64, 0u64, String::new());
    let mut fail = |m: String| {
        bad += 1;
        if first.is_empty() {
            first = m;
        }
    };
    let mut r = Rng::new(seed ^ 0xC4);
    for _ in 0..40_000 {
        let s = match r.int(0, 9) {
            0 => spec::MIN_SERIAL + r.int(0, 800),
            1 => spec::MAX_SERIAL - r.int(0, 800),
            2..=5 => spec::serial(1901, 1, 1) + r.int(0, 109_206),
            _ => r.int(spec::MIN_SERIAL, spec::MAX_SERIAL),
        };
        let a = at(s).expect("a supported day");
        n += 1;
        if !one(a, s, at(s - 1)) {
            fail(format!("{a}: number, weekday or neighbours"));
        }
        let k = match r.int(0, 5) {
            0 => r.int(-400, 400),
            1 => r.int(-200_000_000, 200_000_000),
            2 => spec::MAX_SERIAL - s + r.int(-2, 2),
            3 => spec::MIN_SERIAL - s + r.int(-2, 2),
            4 => (r.next() as i64).max(-i64::MAX),
            _ => r.int(-200_000, 200_000),
        };
        if let Err(m) = two(a, k, &mut r) {
            fail(format!("{a}, {k} days: {m}"));
        }
    }
    for y in [-262_145, -262_144, -262_143, 1900, 1999, 2000, 2023, 262_141, 262_142, 262_143] {
        for m in 0..=13 {
            for d in 0..=32 {
                n += 1;
                if date((y, m, d)).is_some() != spec::valid_ymd(y, m, d) {
                    fail(format!("from_ymd_opt({y}, {m}, {d})"));
                }
            }
        }
    }
    if all {
        let (mut y, mut m, mut d) = (spec::MIN_YEAR, 1, 1);
        let mut s = spec::MIN_SERIAL;
        let mut before = None;
        let mut cur = NaiveDate::MIN;
        loop {
            n += 1;
            if (cur.year() as i64, cur.month() as i64, cur.day() as i64) != (y, m, d) || date((y, m, d)) != Some(cur) || !one(cur, s, before) {
                fail(format!("{cur}: fields, number, weekday or neighbours"));
            }
            before = Some(cur);
            match cur.succ_opt() {
                Some(x) => cur = x,
                None => break,
            }
            s += 1;
            d += 1;
            if d > spec::days_in_month(y, m) {
                d = 1;
                m += 1;
                if m > 12 {
                    m = 1;
                    y += 1;
                }
            }
        }
        if s != spec::MAX_SERIAL {
            fail(format!("the last supported day is {cur}"));
        }
    }
    (n, bad, first)
}

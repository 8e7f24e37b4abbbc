//! C08-C14: the holiday calendars.

use crate::cals::{self, Day};
use crate::engine::*;
use crate::{check, easter, for_each_calendar, spec};
use calendar::jointcalendar::JointCalendar;
use calendar::Calendar;
use chrono::{Datelike, NaiveDate};
use std::collections::BTreeMap;

pub struct Entry {
    pub name: &'static str,
    pub prop: &'static str,
    pub cal: Box<dyn Calendar>,
    pub rule: fn(&Day) -> bool,
    pub found: fn(&Day) -> bool,
}

macro_rules! entries {
    ($($name:ident $p:ident ($c:expr) $r:ident $a:ident,)*) => {
        pub fn entries() -> Vec<Entry> {
            vec![$(Entry { name: stringify!($name), prop: stringify!($p), cal: Box::new($c), rule: cals::$r, found: cals::$a },)*]
        }
    };
}
for_each_calendar!(entries);

pub const FIRST: i64 = 1901;
pub const LAST: i64 = 2199;

pub fn nd((y, m, d): (i64, i64, i64)) -> NaiveDate {
    NaiveDate::from_ymd_opt(y as i32, m as u32, d as u32).expect("valid date")
}
pub fn ymd_of(n: NaiveDate) -> (i64, i64, i64) {
    (n.year() as i64, n.month() as i64, n.day() as i64)
}
pub fn day((y, m, d): (i64, i64, i64)) -> Day {
    Day::new(y as i32, m as u32, d as u32)
}

pub fn for_each_day(mut f: impl FnMut((i64, i64, i64), u32)) {
    let mut w = spec::weekday(FIRST, 1, 1) as u32;
    for y in FIRST..=LAST {
        for m in 1..=12 {
            for d in 1..=spec::days_in_month(y, m) {
                f((y, m, d), w);
                w = (w + 1) % 7;
            }
        }
    }
}

/// C12, C13, C14
fn rule_case(e: &Entry, x: &Day, n: NaiveDate) -> R {
    let closed = !e.cal.is_business_day(n);
    let want = (e.rule)(x);
    if closed == want {
        return Ok(());
    }
    let msg = format!(
        "{}: {} is {} but the rules say {}",
        e.name,
        n,
        if closed { "closed" } else { "open" },
        if want { "closed" } else { "open" }
    );
    if closed == (e.found)(x) {
        let k = match e.name {
            "argentina" => "argentina-christmas",
            _ => "france-ascension-whit",
        };
        return Err(Bad::Known(k, msg));
    }
    Err(Bad::Violation(msg))
}

/// A question about any day directly after one about another calendar or a related day: the first one
/// must leave no trace.
fn wander(c: &mut Ctx, es: &[Entry], prop: Option<&str>, f: fn(&Entry, (i64, i64, i64)) -> R) {
    let mine: Vec<&Entry> = es.iter().filter(|e| prop.is_none_or(|p| e.prop == p)).collect();
    let mut r = Rng::new(c.seed ^ 0x5eed);
    let (lo, hi) = (spec::serial(FIRST, 1, 1), spec::serial(LAST, 12, 31));
    for _ in 0..if *STATE { 3_000_000 } else { 20_000 } {
        let e = *r.pick(&mine);
        let t = spec::from_serial(r.int(lo, hi));
        let u = match r.int(0, 4) {
            0 => t,
            1 => spec::from_serial(r.int(lo, hi)),
            2 => spec::from_serial((spec::serial(t.0, t.1, t.2) + r.int(-8, 8)).clamp(lo, hi)),
            k => {
                let y = if k == 3 { r.int(FIRST, LAST) } else { t.0 + *r.pick(&[1, -1, 4, -4, 7, 19, 28, -28, 100, -100, 200, -200]) };
                let y = if (FIRST..=LAST).contains(&y) { y } else { t.0 };
                (y, t.1, t.2.min(spec::days_in_month(y, t.1)))
            }
        };
        let before = if r.int(0, 2) == 0 { r.pick(es) } else { e };
        let key = hash(&[t.0, t.1, t.2, u.0, u.1, u.2, e.name.len() as i64, before.name.len() as i64, e.name.as_bytes()[0] as i64]);
        c.case(
            Some(key),
            true,
            || format!("cal={} date={} after={} day={}", e.name, ymd(t), before.name, ymd(u)),
            || {
                ask(before, u);
                f(e, t)
            },
        );
    }
}
fn ask(e: &Entry, t: (i64, i64, i64)) {
    let n = nd(t);
    let _ = (e.cal.is_business_day(n), e.cal.is_holiday(n));
}
/// the question that a replayed input names as the one before
pub fn ask_before(i: &Input, es: &[Entry]) {
    if let Some(name) = i.get("after") {
        ask(es.iter().find(|e| e.name == name).expect("calendar"), i.ymd("day"));
    }
}

fn rules(c: &mut Ctx, prop: &str) {
    wander(c, &entries(), Some(prop), |e, t| rule_case(e, &day(t), nd(t)));
    for e in entries().iter().filter(|e| e.prop == prop) {
        for_each_day(|t, _| {
            let x = day(t);
            let n = nd(t);
            // weekends are trivially closed
            c.case(None, x.w < 5, || format!("cal={} date={}", e.name, ymd(t)), || rule_case(e, &x, n));
        });
    }
}

/// C08
fn easter_case(y: i64, orthodox: bool) -> R {
    let (got, want) = if orthodox {
        (calendar::weekendsonly::WeekendsOnly.orthodox_easter_monday(y as i32), easter::ORTHODOX[(y - 1901) as usize])
    } else {
        (calendar::weekendsonly::WeekendsOnly.easter_monday(y as i32), easter::WESTERN[(y - 1901) as usize])
    };
    check!(got as i64 == want as i64, "day {got} of {y}, the computus gives {want}");
    Ok(())
}

// ---------------------------------------------------------------- C09

pub fn weekend_case(e: &Entry, t: (i64, i64, i64)) -> R {
    let x = day(t);
    let n = nd(t);
    let (b, h, w) = (e.cal.is_business_day(n), e.cal.is_holiday(n), e.cal.is_weekend(n));
    check!(b != h, "{}: {n} is_business_day {b} and is_holiday {h}", e.name);
    check!(w == cals::weekend_of(e.name, x.w), "{}: is_weekend({n}) is {w}", e.name);
    check!(!(w && b) || cals::working_weekend(e.name, &x), "{}: {n} is a weekend day and a business day", e.name);
    Ok(())
}

/// A calendar closed by a hash, for the combinators: `kind` 0 always open, 1 always closed, else by seed.
#[derive(Debug, Clone, Copy)]
pub struct Hashed(pub u64);
impl Hashed {
    pub fn open(&self, s: i64) -> bool {
        match self.0 {
            0 => true,
            1 => false,
            // mostly closed, for long closures
            k if k % 8 == 0 => hash(&[k as i64, s]) % 64 == 0,
            k if k % 2 == 0 => hash(&[k as i64, s]) % 8 == 0,
            k => hash(&[k as i64, s]) % 3 != 0,
        }
    }
}
pub fn serial_of(n: NaiveDate) -> i64 {
    let (y, m, d) = ymd_of(n);
    spec::serial(y, m, d)
}
impl Calendar for Hashed {
    fn is_business_day(&self, date: NaiveDate) -> bool {
        self.open(serial_of(date))
    }
}
pub fn joint_case(k1: u64, k2: u64, t: (i64, i64, i64)) -> R {
    let (a, b, n) = (Hashed(k1), Hashed(k2), nd(t));
    let s = serial_of(n);
    let want = a.open(s) && b.open(s);
    let j = JointCalendar::new(a, b);
    check!(j.is_business_day(n) == want, "joint is_business_day({n}) is {}, the conjunction is {want}", !want);
    check!(j.is_holiday(n) != want, "joint is_holiday({n}) is {want}");
    let jj = JointCalendar::new(JointCalendar::new(a, b), Hashed(0));
    check!(jj.is_business_day(n) == want, "nested joint is_business_day({n}) is {}", !want);
    Ok(())
}

pub fn c09(c: &mut Ctx) {
    wander(c, &entries(), None, weekend_case);
    for e in &entries() {
        for_each_day(|t, _| {
            c.case(None, true, || format!("cal={} date={}", e.name, ymd(t)), || weekend_case(e, t));
        });
    }
    let mut r = Rng::new(c.seed);
    for i in 0..200_000i64 {
        let t = spec::from_serial(r.int(spec::serial(FIRST, 1, 1), spec::serial(LAST, 12, 31)));
        let (k1, k2) = (r.int(0, 40) as u64, r.int(0, 40) as u64);
        let _ = i;
        c.case(
            Some(hash(&[1, k1 as i64, k2 as i64, t.0, t.1, t.2])),
            true,
            || format!("joint={k1},{k2} date={}", ymd(t)),
            || joint_case(k1, k2, t),
        );
    }
}

// ---------------------------------------------------------------- C10

pub fn flag(v: i64) -> Option<bool> {
    match v {
        0 => Some(false),
        1 => Some(true),
        _ => None,
    }
}
/// Business days d with lo <= d <= hi, without the earlier/later end unless its flag includes it.
fn expected_between(open: &dyn Fn(i64) -> bool, from: i64, to: i64, f: i64, l: i64) -> i64 {
    let (lo, hi, sign) = if from > to { (to, from, -1) } else { (from, to, 1) };
    let (inc_first, inc_last) = (f != 0, l == 1);
    let mut n = 0;
    for s in lo..=hi {
        if (s == lo && !inc_first) || (s == hi && !inc_last) {
            continue;
        }
        if open(s) {
            n += 1;
        }
    }
    sign * n
}
fn between_case(cal: &str, entries: &[Entry], from: i64, to: i64, f: i64, l: i64) -> R {
    let (a, b) = (nd(spec::from_serial(from)), nd(spec::from_serial(to)));
    let (got, want) = if let Some(k) = cal.strip_prefix("hash") {
        let h = Hashed(k.parse().unwrap());
        (h.business_days_between(a, b, flag(f), flag(l)), expected_between(&|s| h.open(s), from, to, f, l))
    } else {
        let e = entries.iter().find(|e| e.name == cal).expect("calendar");
        (
            e.cal.business_days_between(a, b, flag(f), flag(l)),
            expected_between(&|s| e.cal.is_business_day(nd(spec::from_serial(s))), from, to, f, l),
        )
    };
    check!(got == want, "{cal}: {got} business days between {a} and {b} (include_first {:?}, include_last {:?}), counting gives {want}", flag(f), flag(l));
    Ok(())
}
fn c10(c: &mut Ctx) {
    let es = entries();
    let mut r = Rng::new(c.seed);
    let (lo, hi) = (spec::serial(FIRST, 1, 1), spec::serial(LAST, 12, 31));
    let total = if c.thorough { 2_000_000 } else { 300_000 };
    for i in 0..total {
        let from = match r.int(0, 9) {
            0 => lo + r.int(0, 3),
            1 => hi - r.int(0, 3),
            _ => r.int(lo, hi),
        };
        let long = if i % 50 == 0 { 1 << r.int(9, 16) } else { 60 };
        let span = *r.pick(&[0, 0, 1, 1, 2, 3, 7, 31, 366, long]);
        let step = r.word(-120_000, 120_000).unwrap_or(r.int(-span, span));
        let from = r.word(FIRST, LAST).map_or(from, |y| spec::serial(y, 1, 1) + from.rem_euclid(365));
        let to = (from + step).clamp(lo, hi);
        let (f, l) = (r.int(0, 2), r.int(0, 2));
        let cal = if i % 4 == 0 {
            format!("hash{}", r.int(0, 30))
        } else {
            es[r.int(0, es.len() as i64 - 1) as usize].name.to_string()
        };
        c.case(
            Some(hash(&[from, to, f, l, hash(&cal.bytes().map(|b| b as i64).collect::<Vec<_>>()) as i64])),
            from != to,
            || format!("cal={cal} from={from} to={to} first={f} last={l}"),
            || between_case(&cal, &es, from, to, f, l),
        );
    }
}

// ---------------------------------------------------------------- C11

fn month_end_case(cal: &str, es: &[Entry], t: (i64, i64, i64)) -> R {
    let n = nd(t);
    let h;
    let c: &dyn Calendar = if let Some(k) = cal.strip_prefix("hash") {
        h = Hashed(k.parse().unwrap());
        &h
    } else {
        &*es.iter().find(|e| e.name == cal).expect("calendar").cal
    };
    let (y, m, _) = t;
    let last = nd((y, m, spec::days_in_month(y, m)));
    let got = c.last_day_of_month(n);
    check!(got == last, "{cal}: last_day_of_month({n}) is {got}");
    let mut s = serial_of(last);
    while !c.is_business_day(nd(spec::from_serial(s))) {
        s -= 1;
    }
    let want = nd(spec::from_serial(s));
    let got = c.end_of_month(n);
    check!(got == want, "{cal}: end_of_month({n}) is {got}, the last business day on or before {last} is {want}");
    Ok(())
}
fn c11(c: &mut Ctx) {
    let es = entries();
    // every month; every day of it for one calendar, one day of it for the others
    let mut r = Rng::new(c.seed);
    for_each_day(|t, _| {
        c.case(None, true, || format!("cal=weekends_only date={}", ymd(t)), || month_end_case("weekends_only", &es, t));
    });
    for e in es.iter().filter(|e| e.name != "weekends_only") {
        for y in FIRST..=LAST {
            for m in 1..=12 {
                let t = (y, m, r.int(1, spec::days_in_month(y, m)));
                c.case(None, true, || format!("cal={} date={}", e.name, ymd(t)), || month_end_case(e.name, &es, t));
            }
        }
    }
    for _ in 0..60_000 {
        // hash calendars with short and with long closures; the first years leave room to go back
        let k = 2 + r.int(0, 30);
        let t = spec::from_serial(r.int(spec::serial(FIRST + 6, 1, 1), spec::serial(LAST, 12, 31)));
        c.case(Some(hash(&[k, t.0, t.1, t.2])), true, || format!("cal=hash{k} date={}", ymd(t)), || month_end_case(&format!("hash{k}"), &es, t));
    }
}

// ---------------------------------------------------------------- entry points

pub fn search(c: &mut Ctx, prop: &str) -> bool {
    match prop {
        "C08" => {
            for y in FIRST..=LAST {
                for o in [false, true] {
                    c.case(None, true, || format!("year={y} orthodox={}", o as i64), || easter_case(y, o));
                }
            }
        }
        "C10" => c10(c),
        "C11" => c11(c),
        "C12" | "C13" | "C14" => rules(c, prop),
        _ => return false,
    }
    true
}

pub fn replay(c: &mut Ctx, prop: &str, s: &str) -> bool {
    let i = Input::parse(s);
    let es = entries();
    let by_name: BTreeMap<&str, &Entry> = es.iter().map(|e| (e.name, e)).collect();
    let enc = || s.to_string();
    match prop {
        "C08" => c.case(None, true, enc, || easter_case(i.int("year"), i.int("orthodox") == 1)),
        "C10" => c.case(None, true, enc, || between_case(i.str("cal"), &es, i.int("from"), i.int("to"), i.int("first"), i.int("last"))),
        "C11" => c.case(None, true, enc, || month_end_case(i.str("cal"), &es, i.ymd("date"))),
        "C12" | "C13" | "C14" => c.case(None, true, enc, || {
            ask_before(&i, &es);
            let t = i.ymd("date");
            rule_case(by_name[i.str("cal")], &day(t), nd(t))
        }),
        _ => return false,
    }
    true
}

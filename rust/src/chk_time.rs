//! C01-C07, C09: dates, periods, rolling, day counts, and the calendars as qlab_time sees them.

use crate::chk_cal::{self, day, nd, Hashed};
use crate::engine::*;
use crate::fp::Fp;
use crate::{cals, check, for_each_calendar, spec};
use qlab_time::calendar::Calendar as QCalendar;
use qlab_time::date::Date;
use qlab_time::date_rolling::DateRolling;
use qlab_time::day_count::act_360::Act360;
use qlab_time::day_count::act_365::Act365;
use qlab_time::day_count::thirty_360::Thirty360;
use qlab_time::day_count::DayCount;
use qlab_time::period::days::Days;
use qlab_time::period::months::Months;
use qlab_time::period::years::Years;
use qlab_time::period::Period;

type T = (i64, i64, i64);

pub fn date(t: T) -> Date {
    Date::from_ymd(t.0 as i32, t.1 as u32, t.2 as u32).expect("valid date")
}
pub fn ymd_date(d: Date) -> T {
    (d.year() as i64, d.month() as i64, d.day() as i64)
}
fn show(d: Option<Date>) -> String {
    match d {
        Some(d) => format!("{}-{:02}-{:02}", d.year(), d.month(), d.day()),
        None => "None".into(),
    }
}
/// A date anywhere in the supported range, with a bias to its edges, month ends, and ordinary years.
pub fn any_date(r: &mut Rng) -> T {
    let s = match r.int(0, 9) {
        0 => spec::MIN_SERIAL + r.int(0, 800),
        1 => spec::MAX_SERIAL - r.int(0, 800),
        2..=6 => r.int(spec::serial(1890, 1, 1), spec::serial(2210, 12, 31)),
        _ => r.int(spec::MIN_SERIAL, spec::MAX_SERIAL),
    };
    let (y, m, d) = spec::from_serial(s);
    let y = r.word(-262_142, 262_141).unwrap_or(y);
    let m = r.word(1, 12).unwrap_or(m);
    let d = d.min(spec::days_in_month(y, m));
    match r.int(0, 4) {
        0 => (y, m, spec::days_in_month(y, m)),
        1 => (y, 2, spec::days_in_month(y, 2)),
        _ => (y, m, d),
    }
}

// ---------------------------------------------------------------- C01

fn construct_case(y: i64, m: i64, d: i64) -> R {
    let r = Date::from_ymd(y as i32, m as u32, d as u32);
    let valid = spec::valid_ymd(y, m, d);
    check!(r.is_some() == valid, "from_ymd({y}, {m}, {d}) is {}", show(r));
    let Some(x) = r else { return Ok(()) };
    check!(ymd_date(x) == (y, m, d), "fields of {y}-{m}-{d} are {:?}", ymd_date(x));
    check!(x.leap_year() == spec::is_leap(y), "leap_year of {y} is {}", x.leap_year());
    let s = spec::serial(y, m, d);
    check!(x.serial_date() as i64 == s, "serial date of {y}-{m}-{d} is {}, expected {s}", x.serial_date());
    let step = |s: i64| (spec::MIN_SERIAL <= s && s <= spec::MAX_SERIAL).then(|| spec::from_serial(s));
    check!(x.succ_opt().map(ymd_date) == step(s + 1), "successor of {y}-{m}-{d} is {}", show(x.succ_opt()));
    check!(x.pred_opt().map(ymd_date) == step(s - 1), "predecessor of {y}-{m}-{d} is {}", show(x.pred_opt()));
    check!(Date::from(nd((y, m, d))) == x, "conversion of {y}-{m}-{d}");
    Ok(())
}
fn order_case(a: T, b: T) -> R {
    let (x, y) = (date(a), date(b));
    check!(x.cmp(&y) == a.cmp(&b), "{a:?} compares {:?} with {b:?}", x.cmp(&y));
    check!(x.partial_cmp(&y) == Some(a.cmp(&b)), "{a:?} partially compares {:?} with {b:?}", x.partial_cmp(&y));
    check!((x == y) == (a == b), "equality of {a:?} and {b:?} is {}", x == y);
    check!((x < y) == (a < b), "{a:?} < {b:?} is {}", x < y);
    Ok(())
}
fn c01(c: &mut Ctx) {
    let mut years: Vec<i64> = (1890..=2210).chain(-262_146..=-262_141).chain(262_140..=262_146).collect();
    years.extend([i32::MIN as i64, i32::MAX as i64, -1, 0, 1, 4, 100, 400, -4, -100, -400]);
    let mut r = Rng::new(c.seed);
    let more = if c.thorough { 20_000 } else { 1_000 };
    for _ in 0..more {
        years.push(r.int(-262_143, 262_142));
    }
    years.sort();
    years.dedup();
    for &y in &years {
        for m in 0..=13 {
            for d in 0..=32 {
                c.case(None, spec::valid_ymd(y, m, d), || format!("ymd={y}:{m}:{d}"), || construct_case(y, m, d));
            }
        }
    }
    for _ in 0..20_000 {
        let (y, m, d) = (r.int(i32::MIN as i64, i32::MAX as i64), r.int(0, u32::MAX as i64), r.int(0, u32::MAX as i64));
        c.case(Some(hash(&[y, m, d])), false, || format!("ymd={y}:{m}:{d}"), || construct_case(y, m, d));
    }
    for _ in 0..200_000 {
        let a = any_date(&mut r);
        let b = match r.int(0, 3) {
            0 => a,
            1 => spec::from_serial((spec::serial(a.0, a.1, a.2) + r.int(-40, 40)).clamp(spec::MIN_SERIAL, spec::MAX_SERIAL)),
            _ => any_date(&mut r),
        };
        c.case(Some(hash(&[a.0, a.1, a.2, b.0, b.1, b.2])), true, || format!("a={} b={}", ymd(a), ymd(b)), || order_case(a, b));
    }
}

// ---------------------------------------------------------------- C02, C03

fn add_days_case(t: T, n: u64) -> R {
    let x = date(t);
    let s = spec::serial(t.0, t.1, t.2) as i128;
    let want = |s: i128| (spec::MIN_SERIAL as i128 <= s && s <= spec::MAX_SERIAL as i128).then(|| spec::from_serial(s as i64));
    let r = x.checked_add_days(Days::new(n));
    check!(r.map(ymd_date) == want(s + n as i128), "{t:?} plus {n} days is {}", show(r));
    let r = Days::new(n).checked_add(x);
    check!(r.map(ymd_date) == want(s + n as i128), "{t:?} plus the period of {n} days is {}", show(r));
    let r = x.checked_sub_days(Days::new(n));
    check!(r.map(ymd_date) == want(s - n as i128), "{t:?} minus {n} days is {}", show(r));
    Ok(())
}
fn diff_case(a: T, b: T) -> R {
    let d = date(a) - date(b);
    let want = spec::serial(a.0, a.1, a.2) - spec::serial(b.0, b.1, b.2);
    check!(d == want, "{a:?} - {b:?} is {d}, expected {want}");
    Ok(())
}
fn c02(c: &mut Ctx) {
    let mut r = Rng::new(c.seed);
    for _ in 0..if c.thorough { 3_000_000 } else { 1_000_000 } {
        let t = any_date(&mut r);
        let s = spec::serial(t.0, t.1, t.2);
        let n = match r.int(0, 9) {
            0 => (spec::MAX_SERIAL - s + r.int(-2, 2)).max(0) as u64,
            1 => (s - spec::MIN_SERIAL + r.int(-2, 2)).max(0) as u64,
            2 => r.next(),
            3 => *r.pick(&[0, 1, u64::MAX, i64::MAX as u64, i64::MAX as u64 + 1, 1 << 32, (1 << 32) + 1, (1 << 31) - 1, 1 << 31]),
            4 => (1u64 << r.int(0, 63)).wrapping_add(r.int(0, 3) as u64),
            _ => r.int(0, 100_000) as u64,
        };
        c.case(Some(hash(&[t.0, t.1, t.2, n as i64])), n > 0, || format!("date={} days={n}", ymd(t)), || add_days_case(t, n));
        let b = any_date(&mut r);
        c.case(Some(hash(&[9, t.0, t.1, t.2, b.0, b.1, b.2])), t != b, || format!("a={} b={}", ymd(t), ymd(b)), || diff_case(t, b));
    }
}
fn months_case(t: T, n: u32) -> R {
    let x = date(t);
    let up = spec::shift_months(t.0, t.1, t.2, n as i64);
    let r = x.checked_add_months(Months::new(n));
    check!(r.map(ymd_date) == up, "{t:?} plus {n} months is {}", show(r));
    let r = Months::new(n).checked_add(x);
    check!(r.map(ymd_date) == up, "{t:?} plus the period of {n} months is {}", show(r));
    let down = spec::shift_months(t.0, t.1, t.2, -(n as i64));
    let r = x.checked_sub_months(Months::new(n));
    check!(r.map(ymd_date) == down, "{t:?} minus {n} months is {}", show(r));
    Ok(())
}
fn years_case(t: T, n: i32) -> R {
    let x = date(t);
    let want = spec::shift_months(t.0, t.1, t.2, 12 * n as i64);
    let r = x.checked_add_years(Years::new(n));
    check!(r.map(ymd_date) == want, "{t:?} plus {n} years is {}", show(r));
    let r = Years::new(n).checked_add(x);
    check!(r.map(ymd_date) == want, "{t:?} plus the period of {n} years is {}", show(r));
    Ok(())
}
fn c03(c: &mut Ctx) {
    let mut r = Rng::new(c.seed);
    for _ in 0..if c.thorough { 3_000_000 } else { 1_000_000 } {
        let t = any_date(&mut r);
        let n = match r.int(0, 9) {
            0 => (12 * (spec::MAX_YEAR - t.0) + 12 - t.1 + r.int(-14, 14)).max(0) as u32,
            1 => (12 * (t.0 - spec::MIN_YEAR) + t.1 - 1 + r.int(-14, 14)).max(0) as u32,
            2 => r.next() as u32,
            3 => *r.pick(&[0, 1, u32::MAX, i32::MAX as u32, i32::MAX as u32 + 1]),
            _ => r.int(0, 3000) as u32,
        };
        c.case(Some(hash(&[t.0, t.1, t.2, n as i64])), n > 0, || format!("date={} months={n}", ymd(t)), || months_case(t, n));
        let n = match r.int(0, 9) {
            0 => (spec::MAX_YEAR - t.0 + r.int(-2, 2)) as i32,
            1 => (spec::MIN_YEAR - t.0 + r.int(-2, 2)) as i32,
            2 => r.next() as i32,
            3 => *r.pick(&[i32::MIN, i32::MAX, i32::MIN + 1, 0]),
            _ => r.int(-300, 300) as i32,
        };
        c.case(Some(hash(&[7, t.0, t.1, t.2, n as i64])), n != 0, || format!("date={} years={n}", ymd(t)), || years_case(t, n));
    }
}

// ---------------------------------------------------------------- C04

fn weekend_roll_case(t: T) -> R {
    let s = spec::serial(t.0, t.1, t.2);
    let w = spec::weekday_of_serial(s);
    let target = if w < 5 { s } else { s + 7 - w };
    let want = (target <= spec::MAX_SERIAL).then(|| spec::from_serial(target));
    let r = date(t).weekend_roll();
    check!(r.map(ymd_date) == want, "{t:?} rolls to {}, expected {want:?}", show(r));
    Ok(())
}
fn c04(c: &mut Ctx) {
    chk_cal::for_each_day(|t, _| {
        c.case(None, true, || format!("date={}", ymd(t)), || weekend_roll_case(t));
    });
    for i in 0..900 {
        for s in [spec::MIN_SERIAL + i, spec::MAX_SERIAL - i] {
            let t = spec::from_serial(s);
            c.case(None, true, || format!("date={}", ymd(t)), || weekend_roll_case(t));
        }
    }
    let mut r = Rng::new(c.seed);
    for _ in 0..if c.thorough { 5_000_000 } else { 1_000_000 } {
        let t = spec::from_serial(r.int(spec::MIN_SERIAL, spec::MAX_SERIAL));
        c.case(Some(hash(&[t.0, t.1, t.2])), true, || format!("date={}", ymd(t)), || weekend_roll_case(t));
    }
}

// ---------------------------------------------------------------- C05

/// Closed on the serials lo..=hi and, elsewhere, as `Hashed(k)`.
#[derive(Clone, Copy)]
struct Gap {
    lo: i64,
    hi: i64,
    k: u64,
}
impl Gap {
    fn open(&self, s: i64) -> bool {
        !(self.lo <= s && s <= self.hi) && Hashed(self.k).open(s)
    }
}
impl QCalendar for Gap {
    fn is_business_day(&self, d: Date) -> bool {
        let (y, m, dd) = ymd_date(d);
        self.open(spec::serial(y, m, dd))
    }
}
const ROLLINGS: [DateRolling; 5] = [
    DateRolling::Unadjusted,
    DateRolling::Following,
    DateRolling::ModifiedFollowing,
    DateRolling::Preceding,
    DateRolling::ModifiedPreceding,
];
/// kind 0 days, 1 months, 2 years
fn shifted(t: T, kind: i64, n: i64) -> Option<T> {
    match kind {
        0 => {
            let s = spec::serial(t.0, t.1, t.2) + n;
            (s <= spec::MAX_SERIAL).then(|| spec::from_serial(s))
        }
        1 => spec::shift_months(t.0, t.1, t.2, n),
        _ => spec::shift_months(t.0, t.1, t.2, 12 * n),
    }
}
fn roll_case(t: T, kind: i64, n: i64, rolling: i64, g: Gap) -> R {
    let x = date(t);
    let rule = ROLLINGS[rolling as usize];
    let got = match kind {
        0 => x.checked_roll(Days::new(n as u64), &g, rule),
        1 => x.checked_roll(Months::new(n as u32), &g, rule),
        _ => x.checked_roll(Years::new(n as i32), &g, rule),
    };
    let seek = |t: T, step: i64| {
        let mut s = spec::serial(t.0, t.1, t.2);
        while spec::MIN_SERIAL <= s && s <= spec::MAX_SERIAL {
            if g.open(s) {
                return Some(spec::from_serial(s));
            }
            s += step;
        }
        None
    };
    let u = shifted(t, kind, n);
    let want = match (u, rule) {
        (None, _) => None,
        (Some(u), DateRolling::Unadjusted) => Some(u),
        (Some(u), DateRolling::Following) => seek(u, 1),
        (Some(u), DateRolling::Preceding) => seek(u, -1),
        (Some(u), m) => {
            let (first, second) = if m == DateRolling::ModifiedFollowing { (1, -1) } else { (-1, 1) };
            match seek(u, first) {
                // running out of the supported range: either answer is allowed
                None => {
                    if got.is_none() {
                        None
                    } else {
                        seek(u, second)
                    }
                }
                Some(a) if (a.0, a.1) == (u.0, u.1) => Some(a),
                Some(_) => seek(u, second),
            }
        }
    };
    check!(got.map(ymd_date) == want, "{rule:?} from {u:?} is {}, expected {want:?}", show(got));
    Ok(())
}
fn c05(c: &mut Ctx) {
    let mut r = Rng::new(c.seed);
    for _ in 0..if c.thorough { 2_000_000 } else { 600_000 } {
        let mut t = any_date(&mut r);
        if r.int(0, 3) == 0 {
            t.2 = 1;
        }
        let kind = r.int(0, 2);
        let n = match kind {
            0 => r.int(0, 70),
            1 => r.int(0, 40),
            _ => r.int(-3, 3),
        };
        let n = if kind == 0 { r.word(0, 200_000).unwrap_or(n) } else { r.word(-9999 * (kind - 1), 9999).unwrap_or(n) };
        let rolling = r.int(0, 4);
        let center = shifted(t, kind, n).map_or(0, |u| spec::serial(u.0, u.1, u.2));
        let (back, ahead) = *r.pick(&[(0, 0), (1, 1), (2, 2), (30, 30), (40, 3), (3, 40), (400, 400), (-1, -1)]);
        let (back, ahead) = (r.word(0, 2000).unwrap_or(back), r.word(0, 2000).unwrap_or(ahead));
        let g = Gap { lo: center - r.int(0, back.max(0)), hi: center + r.int(0, ahead.max(0)) - (back < 0) as i64, k: *r.pick(&[0, 3, 5, 4, 6]) };
        c.case(
            Some(hash(&[t.0, t.1, t.2, kind, n, rolling, g.lo, g.hi, g.k as i64])),
            rolling > 0,
            || format!("date={} kind={kind} n={n} rolling={rolling} lo={} hi={} k={}", ymd(t), g.lo, g.hi, g.k),
            || roll_case(t, kind, n, rolling, g),
        );
    }
    // no business day left before the end of the supported range
    for back in 0..40 {
        for rolling in 0..5 {
            for (s, lo, hi) in [
                (spec::MAX_SERIAL - back, spec::MAX_SERIAL - 60, spec::MAX_SERIAL),
                (spec::MIN_SERIAL + back, spec::MIN_SERIAL, spec::MIN_SERIAL + 60),
            ] {
                let t = spec::from_serial(s);
                let g = Gap { lo, hi, k: 0 };
                c.case(
                    None,
                    true,
                    || format!("date={} kind=0 n=0 rolling={rolling} lo={lo} hi={hi} k=0", ymd(t)),
                    || roll_case(t, 0, 0, rolling, g),
                );
            }
        }
    }
}

// ---------------------------------------------------------------- C06, C07

fn close(a: f64, b: f64, rel: f64) -> bool {
    (a - b).abs() <= rel * a.abs().max(b.abs()) + 1e-300
}
fn fraction_case<D: DayCount>(name: &str, a: T, b: T, want: Option<(i64, i64)>) -> R {
    let (x, y) = (date(a), date(b));
    let e: Result<Fp, _> = D::calculate_day_count_fraction(x, y);
    let f: Result<f64, _> = D::calculate_day_count_fraction(x, y);
    match want {
        None => check!(e.is_err() && f.is_err(), "{name} of {a:?} {b:?} is {f:?}, an error was expected"),
        Some((n, d)) => {
            let (Ok(e), Ok(f)) = (e, f) else { return bad(format!("{name} of {a:?} {b:?} is an error")) };
            check!(e * Fp::int(d) == Fp::int(n), "{name} of {a:?} {b:?} is {}, expected {n}/{d}", e.a);
            check!(close(f, n as f64 / d as f64, 1e-12), "{name} of {a:?} {b:?} is {f}, expected {n}/{d}");
        }
    }
    Ok(())
}
fn act_case(basis: i64, a: T, b: T) -> R {
    let n = spec::serial(b.0, b.1, b.2) - spec::serial(a.0, a.1, a.2);
    if basis == 360 {
        fraction_case::<Act360>("actual/360", a, b, Some((n, 360)))
    } else {
        fraction_case::<Act365>("actual/365", a, b, Some((n, 365)))
    }
}
fn thirty_case(a: T, b: T) -> R {
    fraction_case::<Thirty360>("30/360", a, b, (a <= b).then(|| (spec::thirty_e_360(a, b), 360)))
}
fn pair(r: &mut Rng) -> (T, T) {
    let a = any_date(r);
    let b = match r.int(0, 2) {
        0 => spec::from_serial((spec::serial(a.0, a.1, a.2) + r.int(-800, 800)).clamp(spec::MIN_SERIAL, spec::MAX_SERIAL)),
        1 => a,
        _ => any_date(r),
    };
    (a, b)
}
fn c06_c07(c: &mut Ctx, thirty: bool) {
    let mut r = Rng::new(c.seed);
    for _ in 0..if c.thorough { 3_000_000 } else { 1_000_000 } {
        let (a, b) = pair(&mut r);
        let key = Some(hash(&[a.0, a.1, a.2, b.0, b.1, b.2]));
        if thirty {
            c.case(key, a != b, || format!("a={} b={}", ymd(a), ymd(b)), || thirty_case(a, b));
        } else {
            for basis in [360, 365] {
                c.case(key.map(|k| k ^ basis as u64), a != b, || format!("basis={basis} a={} b={}", ymd(a), ymd(b)), || act_case(basis, a, b));
            }
        }
    }
}

// ---------------------------------------------------------------- C09

macro_rules! blanket {
    ($($name:ident $p:ident ($c:expr) $r:ident $a:ident,)*) => {
        /// The calendars through the blanket implementation of qlab_time::calendar::Calendar.
        fn through_qlab(name: &str, d: Date) -> (bool, bool) {
            $(if name == stringify!($name) {
                let c = $c;
                return (QCalendar::is_business_day(&c, d), QCalendar::is_holiday(&c, d));
            })*
            panic!("no calendar {name}")
        }
    };
}
for_each_calendar!(blanket);

struct Only(bool);
impl QCalendar for Only {
    fn is_business_day(&self, _: Date) -> bool {
        self.0
    }
}
fn blanket_case(e: &chk_cal::Entry, t: T) -> R {
    let direct = e.cal.is_business_day(nd(t));
    let (b, h) = through_qlab(e.name, date(t));
    check!(b == direct && h != direct, "{}: {t:?} is business {direct}, through qlab_time business {b} holiday {h}", e.name);
    for o in [true, false] {
        check!(QCalendar::is_holiday(&Only(o), date(t)) != o, "default is_holiday of a calendar with is_business_day {o}");
    }
    Ok(())
}
fn c09(c: &mut Ctx) {
    chk_cal::c09(c);
    let es = chk_cal::entries();
    let mut r = Rng::new(c.seed);
    for e in &es {
        for y in chk_cal::FIRST..=chk_cal::LAST {
            for m in 1..=12 {
                let t = (y, m, r.int(1, spec::days_in_month(y, m)));
                c.case(None, true, || format!("blanket={} date={}", e.name, ymd(t)), || blanket_case(e, t));
            }
        }
    }
    let _ = (day, cals::SAT);
}

// ---------------------------------------------------------------- entry points

pub fn search(c: &mut Ctx, prop: &str) -> bool {
    match prop {
        "C01" => c01(c),
        "C02" => c02(c),
        "C03" => c03(c),
        "C04" => c04(c),
        "C05" => c05(c),
        "C06" => c06_c07(c, false),
        "C07" => c06_c07(c, true),
        "C09" => c09(c),
        _ => return false,
    }
    true
}

pub fn replay(c: &mut Ctx, prop: &str, s: &str) -> bool {
    let i = Input::parse(s);
    let enc = || s.to_string();
    let has = |k: &str| s.split_whitespace().any(|t| t.starts_with(&format!("{k}=")));
    let f: Box<dyn Fn() -> R> = match prop {
        "C01" if has("ymd") => Box::new(|| {
            let t = i.ymd("ymd");
            construct_case(t.0, t.1, t.2)
        }),
        "C01" => Box::new(|| order_case(i.ymd("a"), i.ymd("b"))),
        "C02" if has("days") => Box::new(|| add_days_case(i.ymd("date"), i.u64("days"))),
        "C02" => Box::new(|| diff_case(i.ymd("a"), i.ymd("b"))),
        "C03" if has("months") => Box::new(|| months_case(i.ymd("date"), i.int("months") as u32)),
        "C03" => Box::new(|| years_case(i.ymd("date"), i.int("years") as i32)),
        "C04" => Box::new(|| weekend_roll_case(i.ymd("date"))),
        "C05" => Box::new(|| roll_case(i.ymd("date"), i.int("kind"), i.int("n"), i.int("rolling"), Gap { lo: i.int("lo"), hi: i.int("hi"), k: i.u64("k") })),
        "C06" => Box::new(|| act_case(i.int("basis"), i.ymd("a"), i.ymd("b"))),
        "C07" => Box::new(|| thirty_case(i.ymd("a"), i.ymd("b"))),
        "C09" => Box::new(|| {
            let es = chk_cal::entries();
            let t = i.ymd("date");
            let e = |n: &str| es.iter().find(|e| e.name == n).expect("calendar");
            if has("joint") {
                let k = i.list("joint");
                chk_cal::joint_case(k[0] as u64, k[1] as u64, t)
            } else if has("blanket") {
                blanket_case(e(i.str("blanket")), t)
            } else {
                chk_cal::ask_before(&i, &es);
                chk_cal::weekend_case(e(i.str("cal")), t)
            }
        }),
        _ => return false,
    };
    c.case(None, true, enc, f);
    true
}

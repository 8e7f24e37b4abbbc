//! The contract of chrono's day arithmetic, in place of its code (discharged by Verus: contracts/chrono_src.rs).
//!
//! `ser` is an uninterpreted function on dates that is constrained, on every pair of dates a proof
//! meets, to what the real serial number satisfies: it is injective and increasing, bounded by the
//! serials of the first and the last supported date, agrees with the weekday, and its successor is
//! the next date. Each stub is the contract of one chrono function in terms of `ser`. The native
//! search evaluates the same contracts on the real chrono (`chk_chrono`).

use crate::spec;
use chrono::{Datelike, NaiveDate, TimeDelta};

pub const TABLE: usize = 8;
static mut SEEN: [Option<(NaiveDate, i64)>; TABLE] = [None; TABLE];

/// Any supported date.
pub fn any_date() -> NaiveDate {
    let (y, m, d): (i32, u32, u32) = (kani::any(), kani::any(), kani::any());
    let n = NaiveDate::from_ymd_opt(y, m, d);
    kani::assume(n.is_some());
    n.unwrap()
}

pub fn ser(n: NaiveDate) -> i64 {
    unsafe {
        let mut i = 0;
        while i < TABLE {
            match SEEN[i] {
                Some((k, v)) => {
                    if k == n {
                        return v;
                    }
                }
                None => {
                    let v: i32 = kani::any();
                    let v = v as i64;
                    kani::assume(spec::MIN_SERIAL <= v && v <= spec::MAX_SERIAL);
                    kani::assume((n == NaiveDate::MIN) == (v == spec::MIN_SERIAL) && (n == NaiveDate::MAX) == (v == spec::MAX_SERIAL));
                    kani::assume(n.weekday().num_days_from_monday() as i64 == spec::weekday_of_serial(v));
                    let mut j = 0;
                    while j < i {
                        if let Some((o, w)) = SEEN[j] {
                            kani::assume((o < n) == (w < v));
                        }
                        j += 1;
                    }
                    SEEN[i] = Some((n, v));
                    return v;
                }
            }
            i += 1;
        }
        panic!("too many dates for the table");
    }
}

/// The date `by` days after `n`.
fn at(n: NaiveDate, by: i128) -> Option<NaiveDate> {
    let s = ser(n) as i128 + by;
    if s < spec::MIN_SERIAL as i128 || s > spec::MAX_SERIAL as i128 {
        return None;
    }
    let x = any_date();
    kani::assume(ser(x) as i128 == s);
    Some(x)
}
pub fn checked_add_days(n: NaiveDate, k: chrono::Days) -> Option<NaiveDate> {
    let k: u64 = unsafe { std::mem::transmute(k) };
    at(n, k as i128)
}
pub fn checked_sub_days(n: NaiveDate, k: chrono::Days) -> Option<NaiveDate> {
    let k: u64 = unsafe { std::mem::transmute(k) };
    at(n, -(k as i128))
}
pub fn checked_add_signed(n: NaiveDate, k: TimeDelta) -> Option<NaiveDate> {
    at(n, k.num_days() as i128)
}
pub fn checked_sub_signed(n: NaiveDate, k: TimeDelta) -> Option<NaiveDate> {
    at(n, -(k.num_days() as i128))
}
pub fn succ_opt(n: &NaiveDate) -> Option<NaiveDate> {
    at(*n, 1)
}
pub fn pred_opt(n: &NaiveDate) -> Option<NaiveDate> {
    at(*n, -1)
}
static mut DELTA: Option<i64> = None;
/// The difference is kept aside: `num_days` of it is a 64-bit division that says no more.
pub fn signed_duration_since(a: NaiveDate, b: NaiveDate) -> TimeDelta {
    unsafe { DELTA = Some(ser(a) - ser(b)) };
    TimeDelta::zero()
}
pub fn num_days(_: &TimeDelta) -> i64 {
    unsafe { DELTA.expect("a duration between two dates") }
}
pub fn inherent_num_days_from_ce(n: &NaiveDate) -> i32 {
    ser(*n) as i32
}
/// in place of the default method of `Datelike`
pub trait Serial: Datelike + Sized {
    fn num_days_from_ce(&self) -> i32 {
        ser(NaiveDate::from_ymd_opt(self.year(), self.month(), self.day()).unwrap()) as i32
    }
}
impl<T: Datelike> Serial for T {}

//@ source --const --inherent Iterator --param Self::Item=NaiveDate --only YEAR_DELTAS --only cycle_to_yo --only yo_to_cycle --only div_mod_floor --only MAX_YEAR --only MIN_YEAR --only ORDINAL_MASK --only LEAP_YEAR_MASK --only OL_MASK --only MAX_OL --only WEEKDAY_FLAGS_MASK --only YEAR_FLAGS_MASK --only NaiveDate --only NaiveDate::from_ordinal_and_flags --only NaiveDate::from_mdf --only NaiveDate::from_ymd_opt --only NaiveDate::from_yo_opt --only NaiveDate::checked_add_days --only NaiveDate::checked_sub_days --only NaiveDate::add_days --only NaiveDate::mdf --only NaiveDate::succ_opt --only NaiveDate::pred_opt --only NaiveDate::checked_add_signed --only NaiveDate::checked_sub_signed --only NaiveDate::signed_duration_since --only NaiveDate::iter_days --only NaiveDate::leap_year --only NaiveDate::year --only NaiveDate::ordinal --only NaiveDate::month --only NaiveDate::day --only NaiveDate::weekday --only NaiveDate::year_flags --only NaiveDate::num_days_from_ce --only NaiveDate::diff_months --only NaiveDate::checked_add_months --only NaiveDate::checked_sub_months --only NaiveDate::with_mdf --only NaiveDate::from_yof --only NaiveDate::yof --only "Add<TimeDelta> for NaiveDate" --only "AddAssign<TimeDelta> for NaiveDate" --only "Sub<TimeDelta> for NaiveDate" --only "SubAssign<TimeDelta> for NaiveDate" --only "Sub<NaiveDate> for NaiveDate" --only NaiveDateDaysIterator --only NaiveDateDaysIterator::next --only "Datelike for NaiveDate::year" --only "Datelike for NaiveDate::month" --only "Datelike for NaiveDate::day" --only "Datelike for NaiveDate::ordinal" --only "Datelike for NaiveDate::weekday" --only "Datelike for NaiveDate::with_year" --only "Datelike for NaiveDate::with_day" @chrono/src/naive/date/mod.rs
//@ source --const --rename MAX_OL=TOP_OL --only YearFlags --only YEAR_TO_FLAGS --only YearFlags::from_year --only YearFlags::from_year_mod_400 --only TOP_OL --only MAX_MDL --only XX --only MDL_TO_OL --only OL_TO_MDL --only Mdf --only Mdf::new --only Mdf::from_ol --only Mdf::month --only Mdf::day --only Mdf::ordinal_and_flags --only Mdf::ordinal --only Mdf::year_flags --only Mdf::with_day --only Mdf::with_flags --only YearFlags::ndays --only COMMON_YEAR --only LEAP_YEAR --only YEAR_STARTS_AFTER_MONDAY --only YEAR_STARTS_AFTER_THUESDAY --only YEAR_STARTS_AFTER_WEDNESDAY --only YEAR_STARTS_AFTER_THURSDAY --only YEAR_STARTS_AFTER_FRIDAY --only YEAR_STARTS_AFTER_SATURDAY --only YEAR_STARTS_AFTER_SUNDAY --only A --only AG --only B --only BA --only C --only CB --only D --only DC --only E --only ED --only F --only FE --only G --only GF @chrono/src/naive/internals.rs
//@ source --const --only TimeDelta --only SECS_PER_DAY --only MILLIS_PER_SEC --only NANOS_PER_SEC --only NANOS_PER_MILLI --only MIN --only MAX --only TimeDelta::new --only TimeDelta::days --only TimeDelta::try_days --only TimeDelta::try_seconds --only TimeDelta::num_days --only TimeDelta::num_seconds @chrono/src/time_delta.rs
//@ source --const --only Days --only Days::new @chrono/src/naive/mod.rs
//@ source --const --only Months --only Months::new @chrono/src/month.rs
//@ source --const --only Weekday --only Weekday::num_days_from_monday --only Weekday::days_since @chrono/src/weekday.rs
//@ source --only Datelike::year --only Datelike::month --only Datelike::day --only Datelike::ordinal --only Datelike::weekday --only Datelike::with_year --only Datelike::with_day --only Datelike::num_days_from_ce @chrono/src/traits.rs
//@ prelude
use core::ops::{Add, AddAssign, Sub, SubAssign};
include civil.rs
pub assume_specification [i32::div_euclid] (a: i32, b: i32) -> (r: i32) requires b > 0 ensures r == a as int / b as int;
pub assume_specification [i32::rem_euclid] (a: i32, b: i32) -> (r: i32) requires b > 0 ensures r == a as int % b as int;
// a number that is not zero
#[derive(Clone, Copy)]
pub struct NonZeroI32(i32);
impl NonZeroI32 {
    fn new_unchecked(n: i32) -> (r: NonZeroI32) requires n != 0 ensures r.0 == n { NonZeroI32(n) }
    fn get(self) -> (r: i32) ensures r == self.0 { self.0 }
}
fn qv_assert(c: bool) requires c { }
fn expect<T>(o: Option<T>, text: &str) -> (r: T) requires o is Some ensures r == o->0 { o.unwrap() }

pub open spec fn ylen(y: int) -> int { if leap(y) { 366 } else { 365 } }
// the flags of a year: a common year, and the weekday of the last day before it, Monday as 7
pub open spec fn flag(y: int) -> int {
    let w = (year_end(y - 1) - 1) % 7;
    (if leap(y) { 0int } else { 8 }) + (if w == 0 { 7 } else { w })
}
// leap days in the years from 0 up to but without y, for 0 <= y <= 400
pub open spec fn delta(y: int) -> int { (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400 + 1 }
// the days of a date's number
impl NaiveDate {
    pub closed spec fn y(self) -> int { (self.yof.0 >> 13) as int }
    pub closed spec fn o(self) -> int { ((self.yof.0 & 0x1ff0) >> 4) as int }
    pub closed spec fn f(self) -> int { (self.yof.0 & 15) as int }
    pub closed spec fn ok(self) -> bool { in_range(self.y()) && 1 <= self.o() <= ylen(self.y()) && self.f() == flag(self.y()) }
    pub closed spec fn n(self) -> int { year_end(self.y() - 1) + self.o() }
}
spec fn at(r: Option<NaiveDate>, n: int) -> bool { match r { Some(e) => e.ok() && e.n() == n, None => !(first_day() <= n <= last_day()) } }
impl TimeDelta {
    pub closed spec fn ok(self) -> bool { 0 <= self.nanos < 1_000_000_000 && -9223372036854776 <= self.secs <= 9223372036854775 }
    // whole seconds and days, towards zero
    pub closed spec fn whole(self) -> int { if self.secs < 0 && self.nanos > 0 { self.secs + 1 } else { self.secs as int } }
    pub closed spec fn d(self) -> int { if self.whole() >= 0 { self.whole() / 86400 } else { -((-self.whole()) / 86400) } }
}
// month and day, with 0 for a leap year and 1 for a common one: leap(0) and !leap(1)
pub open spec fn month_of(y: int, o: int) -> int {
    if o <= before(y, 2) { 1 } else if o <= before(y, 3) { 2 } else if o <= before(y, 4) { 3 } else if o <= before(y, 5) { 4 }
    else if o <= before(y, 6) { 5 } else if o <= before(y, 7) { 6 } else if o <= before(y, 8) { 7 } else if o <= before(y, 9) { 8 }
    else if o <= before(y, 10) { 9 } else if o <= before(y, 11) { 10 } else if o <= before(y, 12) { 11 } else { 12 }
}
pub open spec fn kind(f: int) -> int { if f < 8 { 0 } else { 1 } }
pub open spec fn mdl_ol(i: int) -> int {
    let (m, d, c) = (i / 64, (i % 64) / 2, i % 2);
    if 1 <= m && 1 <= d <= dim(c, m) { 64 * m - 2 * before(c, m) } else { 0 }
}
pub open spec fn ol_mdl(i: int) -> int { 64 * month_of(i % 2, i / 2) - 2 * before(i % 2, month_of(i % 2, i / 2)) }
impl Mdf { pub closed spec fn is(self, m: int, d: int, f: int) -> bool { self.0 == 512 * m + 16 * d + f } }
spec fn wd(w: Weekday) -> int {
    match w { Weekday::Mon => 0, Weekday::Tue => 1, Weekday::Wed => 2, Weekday::Thu => 3, Weekday::Fri => 4, Weekday::Sat => 5, Weekday::Sun => 6 }
}
//@ attr MDL_TO_OL
#[verifier::spinoff_prover]
//@ const MDL_TO_OL
    ensures forall|i: int| 0 <= i < 832 ==> #[trigger] MDL_TO_OL[i] == mdl_ol(i)
//@ attr OL_TO_MDL
#[verifier::spinoff_prover]
//@ const OL_TO_MDL
    ensures forall|i: int| 2 <= i <= 732 ==> #[trigger] OL_TO_MDL[i] == ol_mdl(i)
//@ attr YEAR_DELTAS
#[verifier::spinoff_prover]
//@ const YEAR_DELTAS
    ensures forall|y: int| 0 <= y <= 400 ==> #[trigger] YEAR_DELTAS[y] == delta(y)
//@ attr YEAR_TO_FLAGS
#[verifier::spinoff_prover]
//@ const YEAR_TO_FLAGS
    ensures forall|y: int| 0 <= y < 400 ==> (#[trigger] YEAR_TO_FLAGS[y]).0 == flag(y)
//@ const A
    ensures A.0 == 13
//@ conststart A
proof { assert(1u8 << 3 == 8u8) by(bit_vector); assert(8u8 | 5u8 == 13u8) by(bit_vector); }
//@ const AG
    ensures AG.0 == 5
//@ conststart AG
proof { assert(0u8 << 3 == 0u8) by(bit_vector); assert(0u8 | 5u8 == 5u8) by(bit_vector); }
//@ const B
    ensures B.0 == 12
//@ conststart B
proof { assert(1u8 << 3 == 8u8) by(bit_vector); assert(8u8 | 4u8 == 12u8) by(bit_vector); }
//@ const BA
    ensures BA.0 == 4
//@ conststart BA
proof { assert(0u8 << 3 == 0u8) by(bit_vector); assert(0u8 | 4u8 == 4u8) by(bit_vector); }
//@ const C
    ensures C.0 == 11
//@ conststart C
proof { assert(1u8 << 3 == 8u8) by(bit_vector); assert(8u8 | 3u8 == 11u8) by(bit_vector); }
//@ const CB
    ensures CB.0 == 3
//@ conststart CB
proof { assert(0u8 << 3 == 0u8) by(bit_vector); assert(0u8 | 3u8 == 3u8) by(bit_vector); }
//@ const D
    ensures D.0 == 10
//@ conststart D
proof { assert(1u8 << 3 == 8u8) by(bit_vector); assert(8u8 | 2u8 == 10u8) by(bit_vector); }
//@ const DC
    ensures DC.0 == 2
//@ conststart DC
proof { assert(0u8 << 3 == 0u8) by(bit_vector); assert(0u8 | 2u8 == 2u8) by(bit_vector); }
//@ const E
    ensures E.0 == 9
//@ conststart E
proof { assert(1u8 << 3 == 8u8) by(bit_vector); assert(8u8 | 1u8 == 9u8) by(bit_vector); }
//@ const ED
    ensures ED.0 == 1
//@ conststart ED
proof { assert(0u8 << 3 == 0u8) by(bit_vector); assert(0u8 | 1u8 == 1u8) by(bit_vector); }
//@ const F
    ensures F.0 == 15
//@ conststart F
proof { assert(1u8 << 3 == 8u8) by(bit_vector); assert(8u8 | 7u8 == 15u8) by(bit_vector); }
//@ const FE
    ensures FE.0 == 7
//@ conststart FE
proof { assert(0u8 << 3 == 0u8) by(bit_vector); assert(0u8 | 7u8 == 7u8) by(bit_vector); }
//@ const G
    ensures G.0 == 14
//@ conststart G
proof { assert(1u8 << 3 == 8u8) by(bit_vector); assert(8u8 | 6u8 == 14u8) by(bit_vector); }
//@ const GF
    ensures GF.0 == 6
//@ conststart GF
proof { assert(0u8 << 3 == 0u8) by(bit_vector); assert(0u8 | 6u8 == 6u8) by(bit_vector); }
//@ const MIN
    ensures MIN.secs == -9223372036854776
//@ const MAX
    ensures MAX.secs == 9223372036854775, MAX.nanos == 807_000_000
//@ const MIN_YEAR
    ensures MIN_YEAR == -262143
//@ conststart MIN_YEAR
proof { assert((-0x8000_0000i32) >> 13 == -262144i32) by(bit_vector); }
//@ const MAX_YEAR
    ensures MAX_YEAR == 262142
//@ conststart MAX_YEAR
proof { assert(0x7fff_ffffi32 >> 13 == 262143i32) by(bit_vector); }
//@ fn div_mod_floor
    requires div > 0
    ensures res.0 == val as int / div as int, res.1 == val as int % div as int
//@ fn yo_to_cycle
    requires year_mod_400 < 400, 1 <= ordinal <= 366
    ensures res == year_end(year_mod_400 - 1) + ordinal + 365, res < 146_463
//@ start yo_to_cycle
proof { delta_range(year_mod_400 as int); }
//@ fn cycle_to_yo
    requires cycle < 146_097
    ensures res.0 < 400, 1 <= res.1 <= ylen(res.0 as int), year_end(res.0 - 1) + res.1 + 365 == cycle
//@ start cycle_to_yo
proof { let y = cycle as int / 365; delta_range(y); delta_step(y); if y > 0 { delta_range(y - 1); delta_step(y - 1); } }
//@ fn YearFlags::from_year_mod_400
    requires 0 <= year < 400
    ensures res.0 == flag(year as int)
//@ fn YearFlags::from_year
    ensures res.0 == flag(year as int)
//@ start YearFlags::from_year
proof { periodic(year as int); }
//@ fn NaiveDate::yof
    ensures res == self.yof.0
//@ fn NaiveDate::from_yof
    requires (yof & 0x1ff8) >> 3 > 1, (yof & 0x1ff8) >> 3 <= 5856, yof & 7 != 0
    ensures res.yof.0 == yof
//@ start NaiveDate::from_yof
proof { masks(); assert((yof & 7) != 0 ==> yof != 0) by(bit_vector); }
//@ fn NaiveDate::year
    requires self.ok()
    ensures res == self.y()
//@ fn NaiveDate::ordinal
    requires self.ok()
    ensures res == self.o()
//@ start NaiveDate::ordinal
proof { masks(); }
//@ fn NaiveDate::leap_year
    requires self.ok()
    ensures res == leap(self.y())
//@ start NaiveDate::leap_year
proof { let x = self.yof.0; assert((x & 8 == 0) == (x & 15 < 8)) by(bit_vector); flag_range(self.y()); masks(); }
//@ fn NaiveDate::year_flags
    requires self.ok()
    ensures res.0 == flag(self.y())
//@ start NaiveDate::year_flags
proof { masks(); flag_range(self.y()); }
//@ fn NaiveDate::from_ordinal_and_flags
    requires flags.0 == flag(year as int)
    ensures on(res, year as int, ordinal as int)
//@ start NaiveDate::from_ordinal_and_flags
proof {
    masks(); flag_range(year as int); two_bits(flags.0 as i32);
    if in_range(year as int) && 1 <= ordinal <= 366 { packed(year, ordinal as i32, flags.0 as i32); assert(ordinal <= 366 ==> (ordinal << 4) as i32 == (ordinal as i32) << 4) by(bit_vector); }
}
//@ fn NaiveDate::from_yo_opt
    ensures on(res, year as int, ordinal as int)
//@ fn NaiveDate::add_days
    requires self.ok()
    ensures at(res, self.n() + days)
//@ start NaiveDate::add_days
proof {
    masks(); bounded(self); date_bits(self);
    if 1 <= self.o() + days <= ylen(self.y()) { moved(self, (self.o() + days) as i32); }
    periodic(self.y());
    let c = year_end(self.y() % 400 - 1) + self.o() + 365 + days;
    cycles(self.y(), c);
}
//@ fn NaiveDate::checked_add_days
    requires self.ok()
    ensures at(res, self.n() + days.0)
//@ fn NaiveDate::checked_sub_days
    requires self.ok()
    ensures at(res, self.n() - days.0)
//@ start NaiveDate::checked_add_days
proof { bounded(self); }
//@ start NaiveDate::checked_sub_days
proof { bounded(self); }
//@ fn Mdf::new
    requires qv_arg.0 <= 15
    ensures match res { Some(e) => month <= 12 && day <= 31 && e.is(month as int, day as int, qv_arg.0 as int), None => !(month <= 12 && day <= 31) }
//@ start Mdf::new
proof { if month <= 12 && day <= 31 { mdf_packed(month, day, qv_arg.0 as u32); } }
//@ fn Mdf::from_ol
    requires 1 <= qv_arg.0 <= 15, ol % 2 == kind(qv_arg.0 as int), 2 <= ol <= 2 * ylen(ol as int % 2) + 1, ol <= 732
    ensures ({ let (c, o) = (ol as int % 2, ol as int / 2); let m = month_of(c, o); res.is(m, o - before(c, m), qv_arg.0 as int) })
//@ start Mdf::from_ol
proof { masks(); ol_range(ol as int); let t = (ol + ol_mdl(ol as int)) as u32; mdl_flags(t, qv_arg.0 as u32); }
//@ fn Mdf::month
    requires exists|m: int, d: int, f: int| self.is(m, d, f) && 0 <= m <= 12 && 0 <= d <= 31 && 0 <= f <= 15
    ensures forall|m: int, d: int, f: int| #[trigger] self.is(m, d, f) && 0 <= m <= 12 && 0 <= d <= 31 && 0 <= f <= 15 ==> res == m
//@ start Mdf::month
proof { let x = self.0; assert(x >> 9 == x / 512) by(bit_vector); }
//@ fn Mdf::day
    requires exists|m: int, d: int, f: int| self.is(m, d, f) && 0 <= m <= 12 && 0 <= d <= 31 && 0 <= f <= 15
    ensures forall|m: int, d: int, f: int| #[trigger] self.is(m, d, f) && 0 <= m <= 12 && 0 <= d <= 31 && 0 <= f <= 15 ==> res == d
//@ start Mdf::day
proof { let x = self.0; assert((x >> 4) & 31 == (x / 16) % 32) by(bit_vector); }
//@ fn Mdf::ordinal_and_flags
    requires exists|m: int, d: int, f: int| self.is(m, d, f) && 0 <= m <= 12 && 0 <= d <= 31 && 1 <= f <= 15
    ensures forall|m: int, d: int, f: int| #[trigger] self.is(m, d, f) && 0 <= m <= 12 && 0 <= d <= 31 && 1 <= f <= 15 ==>
        match res { Some(e) => 1 <= m && 1 <= d <= dim(kind(f), m) && e == 16 * (before(kind(f), m) + d) + f, None => !(1 <= m && 1 <= d <= dim(kind(f), m)) }
//@ start Mdf::ordinal_and_flags
proof {
    let x = self.0;
    assert(x >> 3 == x / 8) by(bit_vector);
    let i = x as int / 8;
    let (m, d, f) = choose|m: int, d: int, f: int| self.is(m, d, f) && 0 <= m <= 12 && 0 <= d <= 31 && 1 <= f <= 15;
    assert(i == 64 * m + 2 * d + kind(f));
    assert(i / 64 == m && (i % 64) / 2 == d && i % 2 == kind(f));
    let v = mdl_ol(i) as i32;
    mdl_range(i);
    assert(0 <= v <= 127 ==> v << 3 == 8 * v) by(bit_vector);
}
//@ fn YearFlags::ndays
    requires 1 <= self.0 <= 15
    ensures res == if self.0 < 8 { 366int } else { 365 }
//@ start YearFlags::ndays
proof { let f = self.0; assert(f >> 3 == f / 8) by(bit_vector); }
//@ fn Mdf::year_flags
    ensures forall|m: int, d: int, f: int| #[trigger] self.is(m, d, f) && 0 <= m <= 12 && 0 <= d <= 31 && 0 <= f <= 15 ==> res.0 == f
//@ start Mdf::year_flags
proof { let x = self.0; assert(x & 15 == x % 16) by(bit_vector); }
//@ fn Mdf::with_day
    ensures forall|m: int, d: int, f: int| #[trigger] self.is(m, d, f) && 0 <= m <= 12 && 0 <= d <= 31 && 0 <= f <= 15 ==>
        match res { Some(e) => day <= 31 && e.is(m, day as int, f), None => day > 31 }
//@ start Mdf::with_day
proof { let x = self.0; assert(day <= 31 && x < 8192 ==> (x & !0x1f0u32) | (day << 4) == 512 * (x / 512) + 16 * day + x % 16) by(bit_vector); }
//@ fn Mdf::with_flags
    ensures forall|m: int, d: int, f: int| #[trigger] self.is(m, d, f) && 0 <= m <= 12 && 0 <= d <= 31 && 0 <= f <= 15 && qv_arg.0 <= 15 ==> res.is(m, d, qv_arg.0 as int)
//@ start Mdf::with_flags
proof { let x = self.0; let g = qv_arg.0 as u32; assert(g <= 15 && x < 8192 ==> (x & !15u32) | g == 16 * (x / 16) + g) by(bit_vector); }
//@ fn Mdf::ordinal
    requires exists|m: int, d: int, f: int| self.is(m, d, f) && 0 <= m <= 12 && 0 <= d <= 31 && 1 <= f <= 15
    ensures forall|m: int, d: int, f: int| #[trigger] self.is(m, d, f) && 0 <= m <= 12 && 0 <= d <= 31 && 1 <= f <= 15 ==>
        match res { Some(o) => 1 <= m && 1 <= d <= dim(kind(f), m) && o == before(kind(f), m) + d, None => !(1 <= m && 1 <= d <= dim(kind(f), m)) }
//@ start Mdf::ordinal
proof {
    let x = self.0;
    assert(x >> 3 == x / 8) by(bit_vector);
    let i = x as int / 8;
    let (m, d, f) = choose|m: int, d: int, f: int| self.is(m, d, f) && 0 <= m <= 12 && 0 <= d <= 31 && 1 <= f <= 15;
    assert(i == 64 * m + 2 * d + kind(f));
    assert(i / 64 == m && (i % 64) / 2 == d && i % 2 == kind(f));
    mdl_range(i);
    halves();
}
//@ fn NaiveDate::with_mdf
    requires self.ok(), exists|m: int, d: int| mdf.is(m, d, self.f()) && 0 <= m <= 12 && 0 <= d <= 31
    ensures forall|m: int, d: int| #[trigger] mdf.is(m, d, self.f()) && 0 <= m <= 12 && 0 <= d <= 31 ==> dated(res, self.y(), m, d)
//@ start NaiveDate::with_mdf
proof {
    masks(); flag_range(self.y()); same_kind(self.y());
    let (m, d) = choose|m: int, d: int| mdf.is(m, d, self.f()) && 0 <= m <= 12 && 0 <= d <= 31;
    let o = before(kind(self.f()), m) + d;
    if 1 <= m && 1 <= d <= dim(kind(self.f()), m) { in_year(kind(self.f()), m, d); moved(*self, o as i32); up4(o as u32); }
}
//@ fn NaiveDate::diff_months
    requires self.ok()
    ensures month_shift(res, self, months as int)
//@ start NaiveDate::diff_months
proof { flags_of(self, months as int); month_range(self.y(), self.o()); }
//@ fn NaiveDate::checked_add_months
    requires self.ok()
    ensures month_shift(res, self, months.0 as int)
//@ start NaiveDate::checked_add_months
proof { flags_of(self, 0); month_range(self.y(), self.o()); }
//@ fn NaiveDate::checked_sub_months
    requires self.ok()
    ensures month_shift(res, self, -(months.0 as int))
//@ start NaiveDate::checked_sub_months
proof { flags_of(self, 0); month_range(self.y(), self.o()); }
//@ fn Months::new
    ensures res.0 == num
//@ fn NaiveDate::from_mdf
    requires exists|m: int, d: int| mdf.is(m, d, flag(year as int)) && 0 <= m <= 12 && 0 <= d <= 31
    ensures forall|m: int, d: int| #[trigger] mdf.is(m, d, flag(year as int)) && 0 <= m <= 12 && 0 <= d <= 31 ==> dated(res, year as int, m, d)
//@ start NaiveDate::from_mdf
proof {
    masks(); flag_range(year as int); let f = flag(year as int) as i32; two_bits(f); same_kind(year as int);
    let (m, d) = choose|m: int, d: int| mdf.is(m, d, flag(year as int)) && 0 <= m <= 12 && 0 <= d <= 31;
    let o = before(kind(f as int), m) + d;
    if in_range(year as int) && 1 <= m && 1 <= d <= dim(kind(f as int), m) { in_year(kind(f as int), m, d); packed(year, o as i32, f); or_shift(o as i32, f); or_or(year, o as i32, f); }
}
//@ fn NaiveDate::from_ymd_opt
    ensures dated(res, year as int, month as int, day as int)
//@ start NaiveDate::from_ymd_opt
proof { flag_range(year as int); }
//@ fn NaiveDate::mdf
    requires self.ok()
    ensures res.is(month_of(self.y(), self.o()), self.o() - before(self.y(), month_of(self.y(), self.o())), self.f())
//@ start NaiveDate::mdf
proof { masks(); date_bits(*self); flag_range(self.y()); same_kind(self.y()); ol_bits(self.yof.0); }
//@ fn NaiveDate::month
    requires self.ok()
    ensures res == month_of(self.y(), self.o())
//@ start NaiveDate::month
proof { month_range(self.y(), self.o()); flag_range(self.y()); }
//@ fn NaiveDate::day
    requires self.ok()
    ensures res == self.o() - before(self.y(), month_of(self.y(), self.o())), valid(self.y(), month_of(self.y(), self.o()), res as int), self.n() == serial(self.y(), month_of(self.y(), self.o()), res as int)
//@ start NaiveDate::day
proof { month_range(self.y(), self.o()); flag_range(self.y()); }
//@ fn NaiveDate::weekday
    requires self.ok()
    ensures wd(res) == (self.n() - 1) % 7
//@ start NaiveDate::weekday
proof { masks(); flag_range(self.y()); date_bits(*self); low_bits(self.yof.0); week(self.y(), self.o()); }
//@ fn NaiveDate::succ_opt
    requires self.ok()
    ensures at(res, self.n() + 1)
//@ start NaiveDate::succ_opt
proof { masks(); bounded(*self); date_bits(*self); next_bits(self.yof.0); year_length(self.y()); if self.o() < ylen(self.y()) { moved(*self, (self.o() + 1) as i32); } if self.y() == 262142 && self.o() == ylen(262142) { } }
//@ fn NaiveDate::pred_opt
    requires self.ok()
    ensures at(res, self.n() - 1)
//@ start NaiveDate::pred_opt
proof { masks(); bounded(*self); date_bits(*self); prev_bits(self.yof.0); year_length(self.y() - 1); if self.o() > 1 { moved(*self, (self.o() - 1) as i32); } }
//@ fn NaiveDate::checked_add_signed
    requires self.ok(), rhs.ok()
    ensures at(res, self.n() + rhs.d())
//@ start NaiveDate::checked_add_signed
proof { bounded(self); }
//@ fn NaiveDate::checked_sub_signed
    requires self.ok(), rhs.ok()
    ensures at(res, self.n() - rhs.d())
//@ start NaiveDate::checked_sub_signed
proof { bounded(self); }
//@ fn NaiveDate::signed_duration_since
    requires self.ok(), rhs.ok()
    ensures res.ok(), res.nanos == 0, res.d() == self.n() - rhs.n()
//@ start NaiveDate::signed_duration_since
proof { periodic(self.y()); periodic(rhs.y()); bounded(self); bounded(rhs); }
//@ fn NaiveDate::num_days_from_ce
    requires self.ok()
    ensures res == self.n()
//@ start NaiveDate::num_days_from_ce
proof { ce(self.y() - 1); ce((self.y() - 1) + 400 * (1 + (1 - self.y()) / 400)); end_periodic(self.y() - 1, 1 + (1 - self.y()) / 400); bounded(*self); fourths(); }
//@ fn NaiveDate::iter_days
    ensures res.value == *self
//@ fn NaiveDateDaysIterator::next
    requires old(self).value.ok()
    ensures match res { Some(e) => e == old(self).value && final(self).value.ok() && final(self).value.n() == e.n() + 1, None => old(self).value.n() == last_day() && final(self).value == old(self).value }
//@ start NaiveDateDaysIterator::next
proof { bounded(self.value); }
//@ fn TimeDelta::new
    ensures match res { Some(e) => e.ok() && e.secs == secs && e.nanos == nanos, None => !(-9223372036854775 <= secs < 9223372036854775 && nanos < 1_000_000_000) }
//@ fn TimeDelta::try_seconds
    ensures match res { Some(e) => e.ok() && e.secs == seconds && e.nanos == 0, None => !(-9223372036854775 <= seconds < 9223372036854775) }
//@ fn TimeDelta::try_days
    ensures match res { Some(e) => e.ok() && e.nanos == 0 && e.d() == days, None => !(-106_751_991_167 <= days <= 106_751_991_167) }
//@ fn TimeDelta::days
    requires -106_751_991_167 <= days <= 106_751_991_167
    ensures res.ok(), res.d() == days
//@ fn TimeDelta::num_seconds
    requires self.ok()
    ensures res == self.whole()
//@ fn TimeDelta::num_days
    requires self.ok()
    ensures res == self.d(), -106_751_991_168 <= res <= 106_751_991_168
//@ fn Days::new
    ensures res.0 == num
//@ fn Weekday::days_since
    ensures res == (wd(*self) - wd(other)) % 7
//@ fn Weekday::num_days_from_monday
    ensures res == wd(*self)
//@ fn Add<TimeDelta>forNaiveDate::add
    ensures r_at(res, self.n() + rhs.d())
//@ fn Sub<TimeDelta>forNaiveDate::sub
    ensures r_at(res, self.n() - rhs.d())
//@ fn AddAssign<TimeDelta>forNaiveDate::add_assign
    ensures r_at(*final(self), old(self).n() + rhs.d())
//@ fn SubAssign<TimeDelta>forNaiveDate::sub_assign
    ensures r_at(*final(self), old(self).n() - rhs.d())
//@ fn Sub<NaiveDate>forNaiveDate::sub
    ensures res.ok(), res.d() == self.n() - rhs.n()
//@ item trait Datelike
    spec fn is_ok(&self) -> bool;
    spec fn sy(&self) -> int;
    spec fn so(&self) -> int;
    spec fn sn(&self) -> int;
    spec fn sm(&self) -> int;
    spec fn sd(&self) -> int;
    proof fn numbered(&self) requires self.is_ok() ensures in_range(self.sy()), 1 <= self.so() <= ylen(self.sy()), self.sn() == year_end(self.sy() - 1) + self.so(), -96_000_000 <= self.sn() <= 96_000_000;
//@ item impl Datelike for NaiveDate
    closed spec fn is_ok(&self) -> bool { self.ok() }
    closed spec fn sy(&self) -> int { self.y() }
    closed spec fn so(&self) -> int { self.o() }
    closed spec fn sn(&self) -> int { self.n() }
    closed spec fn sm(&self) -> int { month_of(self.y(), self.o()) }
    closed spec fn sd(&self) -> int { self.o() - before(self.y(), month_of(self.y(), self.o())) }
    proof fn numbered(&self) { bounded(*self); }
//@ fn Datelike::year
    requires self.is_ok()
    ensures res == self.sy()
//@ fn Datelike::month
    requires self.is_ok()
    ensures res == month_of(self.sy(), self.so())
//@ fn Datelike::day
    requires self.is_ok()
    ensures valid(self.sy(), month_of(self.sy(), self.so()), res as int), self.sn() == serial(self.sy(), month_of(self.sy(), self.so()), res as int)
//@ fn Datelike::ordinal
    requires self.is_ok()
    ensures res == self.so()
//@ fn Datelike::weekday
    requires self.is_ok()
    ensures wd(res) == (self.sn() - 1) % 7
//@ fn Datelike::with_year
    requires self.is_ok()
    ensures res matches Some(e) ==> e.is_ok(), match res { Some(e) => valid(year as int, self.sm(), self.sd()) && e.sn() == serial(year as int, self.sm(), self.sd()), None => !valid(year as int, self.sm(), self.sd()) }
//@ fn Datelike::with_day
    requires self.is_ok()
    ensures res matches Some(e) ==> e.is_ok(), match res { Some(e) => valid(self.sy(), self.sm(), day as int) && e.sn() == serial(self.sy(), self.sm(), day as int), None => !valid(self.sy(), self.sm(), day as int) }
//@ start DatelikeforNaiveDate::with_year
proof { flag_range(year as int); flag_range(self.y()); month_range(self.y(), self.o()); }
//@ start DatelikeforNaiveDate::with_day
proof { flag_range(self.y()); month_range(self.y(), self.o()); }
//@ fn Datelike::num_days_from_ce
    requires self.is_ok()
    ensures res == self.sn()
//@ start Datelike::num_days_from_ce
proof { self.numbered(); let y = self.sy(); ce(y - 1); ce((y - 1) + 400 * (1 + (1 - y) / 400)); end_periodic(y - 1, 1 + (1 - y) / 400); fourths(); }
//@ lemmas
pub closed spec fn r_at(e: NaiveDate, n: int) -> bool { e.ok() && e.n() == n }
spec fn on(r: Option<NaiveDate>, y: int, o: int) -> bool {
    match r { Some(e) => in_range(y) && 1 <= o <= ylen(y) && e.ok() && e.y() == y && e.o() == o, None => !(in_range(y) && 1 <= o <= ylen(y)) }
}
spec fn dated(r: Option<NaiveDate>, y: int, m: int, d: int) -> bool {
    match r { Some(e) => valid(y, m, d) && e.ok() && e.y() == y && e.o() == before(y, m) + d && e.n() == serial(y, m, d), None => !valid(y, m, d) }
}
impl vstd::std_specs::ops::AddSpecImpl<TimeDelta> for NaiveDate {
    open spec fn obeys_add_spec() -> bool { false }
    closed spec fn add_req(self, o: TimeDelta) -> bool { self.ok() && o.ok() && first_day() <= self.n() + o.d() <= last_day() }
    open spec fn add_spec(self, o: TimeDelta) -> NaiveDate { arbitrary() }
}
impl vstd::std_specs::ops::AddAssignSpecImpl<TimeDelta> for NaiveDate {
    open spec fn obeys_add_assign_spec() -> bool { false }
    closed spec fn add_assign_req(&self, o: TimeDelta) -> bool { self.ok() && o.ok() && first_day() <= self.n() + o.d() <= last_day() }
    open spec fn add_assign_spec(&self, o: TimeDelta) -> &NaiveDate { arbitrary() }
}
impl vstd::std_specs::ops::SubSpecImpl<TimeDelta> for NaiveDate {
    open spec fn obeys_sub_spec() -> bool { false }
    closed spec fn sub_req(self, o: TimeDelta) -> bool { self.ok() && o.ok() && first_day() <= self.n() - o.d() <= last_day() }
    open spec fn sub_spec(self, o: TimeDelta) -> NaiveDate { arbitrary() }
}
impl vstd::std_specs::ops::SubAssignSpecImpl<TimeDelta> for NaiveDate {
    open spec fn obeys_sub_assign_spec() -> bool { false }
    closed spec fn sub_assign_req(&self, o: TimeDelta) -> bool { self.ok() && o.ok() && first_day() <= self.n() - o.d() <= last_day() }
    open spec fn sub_assign_spec(&self, o: TimeDelta) -> &NaiveDate { arbitrary() }
}
impl vstd::std_specs::ops::SubSpecImpl<NaiveDate> for NaiveDate {
    open spec fn obeys_sub_spec() -> bool { false }
    closed spec fn sub_req(self, o: NaiveDate) -> bool { self.ok() && o.ok() }
    open spec fn sub_spec(self, o: NaiveDate) -> TimeDelta { arbitrary() }
}
proof fn masks() ensures ORDINAL_MASK == 0x1ff0, LEAP_YEAR_MASK == 8, OL_MASK == 0x1ff8, MAX_OL == 5856, WEEKDAY_FLAGS_MASK == 7, YEAR_FLAGS_MASK == 15, TOP_OL == 732, MAX_MDL == 831, 1i32 << 4 == 16i32 {
    assert(0x1ff0i32 | 8i32 == 0x1ff8i32) by(bit_vector);
    assert(8i32 | 7i32 == 15i32) by(bit_vector);
    assert(366i32 << 4 == 5856i32) by(bit_vector);
    assert(366u32 << 1 == 732u32) by(bit_vector);
    assert((12u32 << 6) | (31u32 << 1) | 1u32 == 831u32) by(bit_vector);
    assert(1i32 << 4 == 16i32) by(bit_vector);
}
proof fn flag_range(y: int) ensures leap(y) ==> 1 <= flag(y) <= 7, !leap(y) ==> 9 <= flag(y) <= 15 { }
proof fn week(y: int, o: int) ensures (o + flag(y) % 8) % 7 == (year_end(y - 1) + o - 1) % 7 { flag_range(y); week_of(year_end(y - 1) - 1, o); }
proof fn week_of(a: int, o: int) ensures (o + (if a % 7 == 0 { 7 } else { a % 7 })) % 7 == (a + o) % 7 { }
proof fn leap_periodic(m: int, q: int) ensures leap(m + 400 * q) == leap(m) {
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(100 * q, m, 4);
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(4 * q, m, 100);
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(q, m, 400);
}
proof fn end_periodic(m: int, q: int) ensures year_end(m + 400 * q) == year_end(m) + 146_097 * q {
    vstd::arithmetic::div_mod::lemma_hoist_over_denominator(m, 100 * q, 4);
    vstd::arithmetic::div_mod::lemma_hoist_over_denominator(m, 4 * q, 100);
    vstd::arithmetic::div_mod::lemma_hoist_over_denominator(m, q, 400);
}
// 400 years are 146097 days, a whole number of weeks
proof fn periodic(y: int) ensures leap(y) == leap(y % 400), year_end(y - 1) == year_end(y % 400 - 1) + 146_097 * (y / 400), flag(y) == flag(y % 400) {
    let (q, m) = (y / 400, y % 400);
    leap_periodic(m, q);
    end_periodic(m - 1, q);
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(20871 * q, year_end(m - 1) - 1, 7);
}
proof fn delta_range(y: int) requires 0 <= y <= 400 ensures 0 <= delta(y) <= 97, delta(0) == 0, delta(400) == 97, year_end(y - 1) == 365 * (y - 1) + delta(y) - 1 { }
proof fn delta_step(y: int) ensures delta(y + 1) == delta(y) + ylen(y) - 365 { year_length(y); }
// `c` days from the start of a cycle are in the year and on the day that the cycle's table gives
pub open spec fn in_cycle(y: int, c: int, m: int, o: int) -> bool {
    let z = 400 * (y / 400 + c / 146_097) + m;
    &&& leap(z) == leap(m) &&& flag(z) == flag(m) &&& z % 400 == m
    &&& year_end(z - 1) + o == 146_097 * (y / 400) + c - 365
    &&& !in_range(z) ==> !(first_day() <= year_end(z - 1) + o <= last_day())
}
proof fn cycle(y: int, c: int, m: int, o: int)
    requires 0 <= m < 400, 1 <= o <= ylen(m), year_end(m - 1) + o + 365 == c % 146_097
    ensures in_cycle(y, c, m, o)
{
    let z = 400 * (y / 400 + c / 146_097) + m;
    assert(z / 400 == y / 400 + c / 146_097 && z % 400 == m);
    periodic(z);
    outside(z, o);
}
proof fn outside(z: int, o: int) requires 1 <= o <= ylen(z) ensures !in_range(z) ==> !(first_day() <= year_end(z - 1) + o <= last_day()) {
    if z < -262143 { year_length(z); years_rise(z, -262144); }
    if z > 262142 { years_rise(262142, z - 1); }
}
proof fn cycles(y: int, c: int)
    ensures forall|m: int, o: int| 0 <= m < 400 && 1 <= o <= ylen(m) && #[trigger] (year_end(m - 1) + o) + 365 == c % 146_097 ==> in_cycle(y, c, m, o)
{
    assert forall|m: int, o: int| 0 <= m < 400 && 1 <= o <= ylen(m) && #[trigger] (year_end(m - 1) + o) + 365 == c % 146_097 implies in_cycle(y, c, m, o) by { cycle(y, c, m, o); }
}
proof fn two_bits(f: i32) requires 1 <= f <= 15, f != 8 ensures f & 7 != 0 { assert(1 <= f <= 15 && f != 8 ==> f & 7 != 0) by(bit_vector); }
proof fn packed(y: i32, o: i32, f: i32)
    requires -262143 <= y <= 262142, 1 <= o <= 366, 1 <= f <= 15, f & 7 != 0
    ensures ({ let x = (y << 13) | (o << 4) | f; x >> 13 == y && (x & 0x1ff0) >> 4 == o && x & 15 == f && x & 7 != 0 && x & 0x1ff8 == 16 * o + (if f >= 8 { 8int } else { 0 }) && (x & 0x1ff8) >> 3 == 2 * o + (if f >= 8 { 1int } else { 0 }) })
{
    let x = (y << 13) | (o << 4) | f;
    assert(x >> 13 == y && (x & 0x1ff0) >> 4 == o && x & 15 == f && x & 7 != 0 && x & 0x1ff8 == 16 * o + (if f >= 8 { 8i32 } else { 0 }) && (x & 0x1ff8) >> 3 == 2 * o + (if f >= 8 { 1i32 } else { 0 })) by(bit_vector)
        requires x == (y << 13) | (o << 4) | f, -262143 <= y <= 262142, 1 <= o <= 366, 1 <= f <= 15, f & 7 != 0;
}
proof fn or_shift(o: i32, f: i32) requires 1 <= o <= 366, 1 <= f <= 15 ensures (o << 4) | f == 16 * o + f {
    assert(1 <= o <= 366 && 1 <= f <= 15 ==> (o << 4) | f == 16 * o + f) by(bit_vector);
}
proof fn or_or(y: i32, o: i32, f: i32) ensures (y << 13) | (o << 4) | f == (y << 13) | ((o << 4) | f) {
    assert((y << 13) | (o << 4) | f == (y << 13) | ((o << 4) | f)) by(bit_vector);
}
// the fields of a date's number make it up
proof fn date_bits(e: NaiveDate) requires e.ok()
    ensures e.yof.0 == 8192 * e.y() + 16 * e.o() + e.f(), e.yof.0 & 7 != 0, e.yof.0 & 0x1ff0 == 16 * e.o(), e.yof.0 & 0x1ff8 == 16 * e.o() + 8 * kind(e.f())
{
    let x = e.yof.0;
    flag_range(e.y());
    let (y, o, f) = ((x >> 13), ((x & 0x1ff0) >> 4), x & 15);
    assert(x & 15 == f && f != 0 && f != 8 ==> x & 7 != 0) by(bit_vector);
    assert(-262143 <= y <= 262142 && y == x >> 13 && o == ((x & 0x1ff0) >> 4) && f == x & 15 ==> x == 8192 * y + 16 * o + f && 0 <= o <= 511 && 0 <= f <= 15 && x & 0x1ff0 == 16 * o && x & 0x1ff8 == 16 * o + (if f < 8 { 0i32 } else { 8 })) by(bit_vector);
}
// another day of the same year
proof fn moved(e: NaiveDate, o: i32)
    requires e.ok(), 1 <= o <= 366
    ensures ({ let x = e.yof.0; let z = (x & !0x1ff0i32) | (o << 4);
        &&& z >> 13 == x >> 13 &&& (z & 0x1ff0) >> 4 == o &&& z & 15 == x & 15 &&& z & 7 != 0 &&& (z & 0x1ff8) >> 3 > 1 &&& (z & 0x1ff8) >> 3 <= 5856
        &&& z == (x & !0x1ff0i32) | (16 * o) as i32
        &&& z == (x & !0x1ff8i32) | (16 * o + 8 * kind(e.f())) as i32 })
{
    date_bits(e);
    let x = e.yof.0;
    let z = (x & !0x1ff0i32) | (o << 4);
    assert(z >> 13 == x >> 13 && (z & 0x1ff0) >> 4 == o && z & 15 == x & 15 && z & 7 != 0 && (z & 0x1ff8) >> 3 > 1 && (z & 0x1ff8) >> 3 <= 5856
        && o << 4 == 16 * o && (x & 15 < 8 ==> z == (x & !0x1ff8i32) | (o << 4)) && (x & 15 >= 8 ==> z == (x & !0x1ff8i32) | (16 * o + 8) as i32)) by(bit_vector)
        requires z == (x & !0x1ff0i32) | (o << 4), 1 <= o <= 366, x & 7 != 0;
}
proof fn halves() ensures forall|z: u32| #[trigger] (z >> 1) == z / 2 { assert(forall|z: u32| #[trigger] (z >> 1) == z / 2) by(bit_vector); }
proof fn up4(o: u32) requires o <= 366 ensures (o << 4) as i32 == (o as i32) << 4 { assert(o <= 366 ==> (o << 4) as i32 == (o as i32) << 4) by(bit_vector); }
// C03: that many calendar months away, on the same day of the month or on its last
spec fn moon(e: NaiveDate) -> int { 12 * e.y() + month_of(e.y(), e.o()) - 1 }
spec fn dom(e: NaiveDate) -> int { e.o() - before(e.y(), month_of(e.y(), e.o())) }
spec fn least(a: int, b: int) -> int { if a < b { a } else { b } }
spec fn month_shift(r: Option<NaiveDate>, e: NaiveDate, months: int) -> bool {
    let k = moon(e) + months;
    match r {
        Some(q) => in_range(k / 12) && q.ok() && q.n() == serial(k / 12, k % 12 + 1, least(dom(e), dim(k / 12, k % 12 + 1))),
        None => !in_range(k / 12),
    }
}
proof fn flags_of(e: NaiveDate, months: int) requires e.ok()
    ensures
        leap((moon(e) + months) / 12) == (flag((moon(e) + months) / 12) < 8), 1 <= flag((moon(e) + months) / 12) <= 15,
        moon(e) / 12 == e.y(), moon(e) % 12 + 1 == month_of(e.y(), e.o()), e.n() == serial(e.y(), month_of(e.y(), e.o()), dom(e)), 1 <= dom(e) <= dim(e.y(), month_of(e.y(), e.o()))
{
    flag_range((moon(e) + months) / 12);
    month_range(e.y(), e.o());
}
proof fn ol_bits(x: i32) ensures (x & 0x1ff8) >> 3 == (x & 0x1ff8) / 8, x & 0x1ff8 >= 0 {
    assert((x & 0x1ff8) >> 3 == (x & 0x1ff8) / 8 && x & 0x1ff8 >= 0) by(bit_vector);
}
proof fn low_bits(x: i32) ensures x & 7 == (x & 15) % 8, 0 <= x & 15 <= 15 { assert(x & 7 == (x & 15) % 8 && 0 <= x & 15 <= 15) by(bit_vector); }
proof fn next_bits(x: i32) ensures true { }
proof fn prev_bits(x: i32) ensures true { }
proof fn mdf_packed(m: u32, d: u32, f: u32) requires m <= 12, d <= 31, f <= 15 ensures (m << 9) | (d << 4) | f == 512 * m + 16 * d + f {
    assert(m <= 12 && d <= 31 && f <= 15 ==> (m << 9) | (d << 4) | f == 512 * m + 16 * d + f) by(bit_vector);
}
proof fn mdl_flags(t: u32, f: u32) requires t <= 831, f <= 15, t % 2 == kind(f as int) ensures (t << 3) | f == 8 * t + f - 8 * kind(f as int) {
    assert(t <= 831 && f <= 15 && t % 2 == (if f < 8 { 0u32 } else { 1 }) ==> (t << 3) | f == 8 * t + f - (if f < 8 { 0u32 } else { 8 })) by(bit_vector);
}
proof fn ol_range(i: int) requires 2 <= i <= 732 ensures 64 <= ol_mdl(i) <= 100, i + ol_mdl(i) <= 831, (i + ol_mdl(i)) % 2 == i % 2 { }
proof fn mdl_range(i: int) requires 0 <= i <= 831 ensures 0 <= mdl_ol(i) <= 100, (1 <= i / 64 && 1 <= (i % 64) / 2 <= dim(i % 2, i / 64)) == (mdl_ol(i) != 0) { }
proof fn same_kind(y: int) ensures leap(kind(flag(y))) == leap(y), forall|m: int| #[trigger] before(kind(flag(y)), m) == before(y, m), forall|m: int| #[trigger] dim(kind(flag(y)), m) == dim(y, m), forall|o: int| #[trigger] month_of(kind(flag(y)), o) == month_of(y, o), ylen(kind(flag(y))) == ylen(y) { flag_range(y); }
proof fn in_year(y: int, m: int, d: int) requires 1 <= m <= 12, 1 <= d <= dim(y, m) ensures 1 <= before(y, m) + d <= ylen(y) { }
proof fn month_range(y: int, o: int) requires 1 <= o <= ylen(y) ensures ({ let m = month_of(y, o); 1 <= m <= 12 && 1 <= o - before(y, m) <= dim(y, m) }) { }
proof fn fourths() ensures forall|z: i32| z >= 0 ==> #[trigger] (z >> 2) == z / 4 { assert(forall|z: i32| z >= 0 ==> #[trigger] (z >> 2) == z / 4) by(bit_vector); }
proof fn ce(y: int) ensures 1461 * y / 4 - y / 100 + y / 100 / 4 == year_end(y) { assert(1461 * y == 4 * (365 * y) + y); assert(y / 100 / 4 == y / 400); }
proof fn bounded(d: NaiveDate) requires d.ok() ensures first_day() <= d.n() <= last_day(), -96_000_000 <= d.n() <= 96_000_000 {
    years_rise(-262144, d.y() - 1);
    years_rise(d.y(), 262142);
    year_length(d.y());
}
// chrono compares dates by their numbers, so they are ordered by the day
proof fn ordered(a: NaiveDate, b: NaiveDate) requires a.ok(), b.ok() ensures (a.yof.0 < b.yof.0) == (a.n() < b.n()), (a.yof.0 == b.yof.0) == (a.n() == b.n()) {
    date_bits(a); date_bits(b); flag_range(a.y()); flag_range(b.y()); year_length(a.y()); year_length(b.y());
    if a.y() < b.y() { years_rise(a.y(), b.y() - 1); }
    if b.y() < a.y() { years_rise(b.y(), a.y() - 1); }
}
// what the other units assume of dates: the day's number tells it, in the order of the days, and every day has one
proof fn told(a: NaiveDate, b: NaiveDate) requires a.ok(), b.ok() ensures (a.n() == b.n()) == (a == b) { ordered(a, b); }
proof fn fields(e: NaiveDate) -> (r: (int, int, int)) requires e.ok() ensures valid(r.0, r.1, r.2), e.n() == serial(r.0, r.1, r.2) {
    let m = month_of(e.y(), e.o());
    month_range(e.y(), e.o());
    (e.y(), m, e.o() - before(e.y(), m))
}
proof fn only_fields(y: int, m: int, d: int, y2: int, m2: int, d2: int)
    requires valid(y, m, d), valid(y2, m2, d2), serial(y, m, d) == serial(y2, m2, d2)
    ensures y == y2, m == m2, d == d2
{
    if y < y2 || (y == y2 && m < m2) { serial_rises(y, m, d, y2, m2, d2); }
    if y2 < y || (y == y2 && m2 < m) { serial_rises(y2, m2, d2, y, m, d); }
}
proof fn dated_number(y: i32, m: int, d: int) -> (e: NaiveDate) requires valid(y as int, m, d) ensures e.ok(), e.n() == serial(y as int, m, d), e.y() == y {
    let (o, f) = ((before(y as int, m) + d) as i32, flag(y as int) as i32);
    flag_range(y as int); in_year(y as int, m, d); two_bits(f); packed(y, o, f);
    NaiveDate { yof: NonZeroI32((y << 13) | (o << 4) | f) }
}
// the first and the last date of the range are the first and the last day
proof fn ends(e: NaiveDate) requires e.ok() ensures (e.n() == first_day()) == (e.y() == -262143 && e.o() == 1), (e.n() == last_day()) == (e.y() == 262142 && e.o() == 365) {
    bounded(e);
    if e.y() > -262143 { year_length(-262143); years_rise(-262143, e.y() - 1); }
    if e.y() < 262142 { year_length(e.y()); years_rise(e.y(), 262141); }
}
// the contracts that the other units assume, as stated there, of chrono's functions as they are here
spec fn year(d: NaiveDate) -> int { d.y() }
spec fn month(d: NaiveDate) -> int { month_of(d.y(), d.o()) }
pub closed spec fn ny(d: NaiveDate) -> int { d.y() }
pub closed spec fn nm(d: NaiveDate) -> int { month_of(d.y(), d.o()) }
pub closed spec fn nd(d: NaiveDate) -> int { dom(d) }
spec fn naive_has(n: int) -> bool { exists|a: NaiveDate| a.ok() && #[trigger] a.n() == n }
include chrono_spec.rs
proof fn naive_fields_src(a: NaiveDate) requires a.ok() ensures valid(ny(a), nm(a), nd(a)), a.n() == serial(ny(a), nm(a), nd(a)) { fields(a); month_range(a.y(), a.o()); }
proof fn naive_same_src(a: NaiveDate, b: NaiveDate) requires a.ok(), b.ok() ensures a.n() == b.n() ==> a == b { told(a, b); }
proof fn naive_every_src(y: int, m: int, d: int) requires valid(y, m, d) ensures naive_has(serial(y, m, d)) { let e = dated_number(y as i32, m, d); assert(e.ok() && e.n() == serial(y, m, d)); }
mirror chrono.rs
mirror chrono_ops.rs
// what iter_days yields, one by one
fn mirror_iter_days(s: NaiveDate) -> (r: Vec<NaiveDate>)
    requires s.ok()
    ensures r@.len() == last_day() - s.n(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).ok() && r@[i].n() == s.n() + i
{
    let mut it = s.iter_days();
    let mut r: Vec<NaiveDate> = Vec::new();
    proof { bounded(s); }
    loop
        invariant it.value.ok(), it.value.n() == s.n() + r@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).ok() && r@[i].n() == s.n() + i
        ensures it.value.n() == last_day()
        decreases last_day() - it.value.n()
    {
        proof { bounded(it.value); }
        match it.next() { Some(d) => { r.push(d); proof { bounded(it.value); } }, None => { break; } }
    }
    r
}

//@ source --only Period crates/qlab-time/src/period.rs
//@ source --only Calendar crates/qlab-time/src/calendar.rs
//@ source crates/qlab-time/src/date_rolling.rs
//@ source --only Date::checked_add --only Date::checked_roll crates/qlab-time/src/date.rs
//@ prelude
include date.rs
include gregorian.rs

include date_ops.rs
// the first open day on or after, and the last on or before
spec fn is_next<C: Calendar>(c: C, d: Date, r: Date) -> bool {
    d.n() <= r.n() && c.open(r) && forall|e: Date| d.n() <= e.n() < r.n() ==> !#[trigger] c.open(e)
}
spec fn is_prev<C: Calendar>(c: C, d: Date, r: Date) -> bool {
    r.n() <= d.n() && c.open(r) && forall|e: Date| r.n() < e.n() <= d.n() ==> !#[trigger] c.open(e)
}
spec fn next_open<C: Calendar>(c: C, d: Date) -> Option<Date> {
    if exists|r: Date| is_next(c, d, r) { Some(choose|r: Date| is_next(c, d, r)) } else { None }
}
spec fn prev_open<C: Calendar>(c: C, d: Date) -> Option<Date> {
    if exists|r: Date| is_prev(c, d, r) { Some(choose|r: Date| is_prev(c, d, r)) } else { None }
}
spec fn same_month(a: Date, b: Date) -> bool { year(a) == year(b) && month(a) == month(b) }
// C05
spec fn adjusted<C: Calendar>(c: C, d: Date, rolling: DateRolling) -> Option<Date> {
    match rolling {
        DateRolling::Unadjusted => Some(d),
        DateRolling::Following => next_open(c, d),
        DateRolling::Preceding => prev_open(c, d),
        DateRolling::ModifiedFollowing => match next_open(c, d) {
            None => None,
            Some(r) => if same_month(r, d) { Some(r) } else { prev_open(c, d) },
        },
        DateRolling::ModifiedPreceding => match prev_open(c, d) {
            None => None,
            Some(r) => if same_month(r, d) { Some(r) } else { next_open(c, d) },
        },
    }
}
spec fn roll<P: Period, C: Calendar>(d: Date, p: P, c: C, rolling: DateRolling) -> Option<Date> {
    match p.shifted(d) { None => None, Some(s) => adjusted(c, s, rolling) }
}
spec fn rank(r: DateRolling) -> int {
    match r { DateRolling::Unadjusted => 0, DateRolling::Following => 1, DateRolling::Preceding => 1, _ => 2 }
}
proof fn next_is<C: Calendar>(c: C, d: Date, r: Date) requires is_next(c, d, r) ensures next_open(c, d) == Some(r) {
    let q = choose|q: Date| is_next(c, d, q);
    if q.n() < r.n() { assert(!c.open(q)); }
    if r.n() < q.n() { assert(!c.open(r)); }
    same_day_number(q, r);
}
proof fn prev_is<C: Calendar>(c: C, d: Date, r: Date) requires is_prev(c, d, r) ensures prev_open(c, d) == Some(r) {
    let q = choose|q: Date| is_prev(c, d, q);
    if q.n() > r.n() { assert(!c.open(q)); }
    if r.n() > q.n() { assert(!c.open(r)); }
    same_day_number(q, r);
}
include within.rs
// the search so far
spec fn no_open_before<C: Calendar>(c: C, shift: Option<Date>, r: Date) -> bool {
    shift matches Some(s) && s.n() <= r.n() && forall|e: Date| s.n() <= e.n() < r.n() ==> !#[trigger] c.open(e)
}
spec fn no_open_after<C: Calendar>(c: C, shift: Option<Date>, r: Date) -> bool {
    shift matches Some(s) && r.n() <= s.n() && forall|e: Date| r.n() < e.n() <= s.n() ==> !#[trigger] c.open(e)
}
proof fn one_step<C: Calendar>(c: C, shift: Option<Date>, r: Date)
    ensures
        !c.open(r) && no_open_before(c, shift, r) ==> forall|e: Date| e.n() == r.n() + 1 ==> #[trigger] no_open_before(c, shift, e),
        !c.open(r) && no_open_after(c, shift, r) ==> forall|e: Date| e.n() == r.n() - 1 ==> #[trigger] no_open_after(c, shift, e),
        !c.open(r) && no_open_before(c, shift, r) && r.n() == last_day() ==> next_open(c, shift->0) is None,
        !c.open(r) && no_open_after(c, shift, r) && r.n() == first_day() ==> prev_open(c, shift->0) is None,
        c.open(r) && no_open_before(c, shift, r) ==> next_open(c, shift->0) == Some(r),
        c.open(r) && no_open_after(c, shift, r) ==> prev_open(c, shift->0) == Some(r),
        first_day() <= r.n() <= last_day(),
{
    within(r);
    if c.open(r) && no_open_before(c, shift, r) { next_is(c, shift->0, r); }
    if c.open(r) && no_open_after(c, shift, r) { prev_is(c, shift->0, r); }
    assert forall|e: Date| e.n() == r.n() implies #[trigger] c.open(e) == c.open(r) by { same_day_number(e, r); }
    assert forall|e: Date| true implies first_day() <= #[trigger] e.n() <= last_day() by { within(e); }
}
//@ item trait Period
    spec fn shifted(self, d: Date) -> Option<Date>;
//@ fn Period::checked_add
    ensures res == self.shifted(date)
//@ item trait Calendar
    spec fn open(&self, d: Date) -> bool;
//@ fn Calendar::is_business_day
    ensures res == self.open(date)
//@ fn Calendar::is_holiday
    ensures res == !self.open(date)
//@ fn Date::checked_add
    ensures res == period.shifted(self)
//@ attr Date::checked_roll
    #[verifier::loop_isolation(false)]
//@ fn Date::checked_roll
    ensures res == roll(self, period, *calendar, rolling)
    decreases rank(rolling)
//@ start Date::checked_roll
    let ghost qv_shift = period.shifted(self);
//@ loop Date::checked_roll 0
    invariant qv_shift == period.shifted(self), no_open_before(*calendar, qv_shift, ret)
    decreases last_day() + 1 - ret.n()
//@ loopstart Date::checked_roll 0
    proof { one_step(*calendar, qv_shift, ret); }
//@ after Date::checked_roll 0
    proof { one_step(*calendar, qv_shift, ret); }
//@ loop Date::checked_roll 1
    invariant qv_shift == period.shifted(self), no_open_after(*calendar, qv_shift, ret)
    decreases ret.n() + 1 - first_day()
//@ loopstart Date::checked_roll 1
    proof { one_step(*calendar, qv_shift, ret); }
//@ after Date::checked_roll 1
    proof { one_step(*calendar, qv_shift, ret); }

//@ use errors
//@ source crates/qlab-time/src/frequency.rs
//@ source --param D=Dc --param I=In crates/qlab-instrument/src/bond.rs
//@ prelude
include scalar.rs
include date.rs
include date_sub.rs
include gregorian.rs
include months.rs

// A curve, seen through the contract of C23: the discount factor is a function of the two dates.
pub struct YieldCurve { x: u8 }
impl YieldCurve {
    pub uninterp spec fn df(&self, d1: Date, d2: Date) -> QLabResult<R>;
    #[verifier::external_body]
    pub fn discount_factor(&self, d1: Date, d2: Date) -> (r: QLabResult<R>) ensures r == self.df(d1, d2) { unimplemented!() }
}

spec fn step(f: Frequency) -> int { 12int / (f as u8 as int) }

spec fn left(d: Date, end: Date) -> int { if d.n() <= end.n() { 1 + end.n() - d.n() } else { 0 } }

// C24: the k-th regular flow
spec fn regular_at(c: BondCashFlow, first: Date, penult: Date, s: int, k: int) -> bool {
    plus(first, k * s) == Some(c.due_date) && c.due_date.n() <= penult.n() && rolled(c.due_date) == Some(c.payment_date)
}
spec fn regulars(v: Seq<BondCashFlow>, first: Date, penult: Date, s: int, n: int) -> bool {
    forall|k: int| 0 <= k < n ==> regular_at(#[trigger] v[k], first, penult, s, k)
}
spec fn regulars_of(v: Vec<BondCashFlow>, first: Date, penult: Date, s: int) -> bool { regulars(v@, first, penult, s, v@.len() as int) }
spec fn paying(v: Vec<BondCashFlow>, amount: R) -> bool { forall|k: int| 0 <= k < v@.len() ==> (#[trigger] v@[k]).payment_amount == amount }
spec fn count(v: Vec<BondCashFlow>) -> int { v@.len() as int }
spec fn months_after(m: u32, k: int, s: int) -> bool { m == k * s }
spec fn past(first: Date, penult: Date, s: int, n: int) -> bool { plus(first, n * s) matches Some(e) && e.n() > penult.n() }
// the due dates before the k-th are on the schedule, and the k-th, or its payment date, is not in the range
spec fn broken_at(first: Date, penult: Date, s: int, k: int) -> bool {
    k >= 0 && match plus(first, k * s) { None => true, Some(d) => d.n() <= penult.n() && rolled(d) is None }
        && forall|j: int| 0 <= j < k ==> (#[trigger] plus(first, j * s) matches Some(d) && d.n() <= penult.n())
}
// C25: the first coupon, over the regular one
spec fn first_ratio(issue: Date, first: Date, s: int) -> Option<real> {
    match plus(first, -s) {
        None => None,
        Some(p) => if p.n() < issue.n() { Some((first.n() - issue.n()) as real / (first.n() - p.n()) as real) }
            else if p.n() > issue.n() {
                match plus(p, -s) { None => None, Some(q) => Some(1real + (p.n() - issue.n()) as real / (p.n() - q.n()) as real) }
            } else { Some(1real) },
    }
}
spec fn last_ratio(penult: Date, mat: Date, s: int) -> Option<real> {
    match plus(penult, s) {
        None => None,
        Some(p) => if mat.n() < p.n() { Some((mat.n() - penult.n()) as real / (p.n() - penult.n()) as real) }
            else if mat.n() > p.n() {
                match plus(p, s) { None => None, Some(q) => Some(1real + (mat.n() - p.n()) as real / (q.n() - p.n()) as real) }
            } else { Some(1real) },
    }
}
spec fn is(x: R, y: real) -> bool { x@ == Ext::Fin(y) }
spec fn amounts(v: Seq<BondCashFlow>, issue: Date, first: Date, penult: Date, mat: Date, s: int, regular: real, face: real) -> bool {
    let n = v.len() - 1;
    &&& first_ratio(issue, first, s) matches Some(r) && is(v[0].payment_amount, regular * r)
    &&& last_ratio(penult, mat, s) matches Some(r) && is(v[n].payment_amount, face + regular * r)
    &&& forall|k: int| 1 <= k < n ==> is((#[trigger] v[k]).payment_amount, regular)
}
// C24: the flows, but for their amounts, and when there are none
spec fn scheduled(issue: Date, first: Date, penult: Date, mat: Date, f: Frequency, res: Option<Bond>) -> bool {
    let s = step(f);
    match res {
        Some(b) => {
            let v = b.bond_cash_flows@;
            let n = v.len() - 1;
            &&& first.n() <= penult.n() && n >= 1
            &&& regulars(v, first, penult, s, n) && past(first, penult, s, n)
            &&& v[n].due_date == mat && v[n].payment_date == mat
            &&& first_ratio(issue, first, s) is Some && last_ratio(penult, mat, s) is Some
        },
        None => first.n() > penult.n() || first_ratio(issue, first, s) is None || last_ratio(penult, mat, s) is None
            || exists|k: int| #[trigger] broken_at(first, penult, s, k),
    }
}
spec fn pays(issue: Date, first: Date, penult: Date, mat: Date, f: Frequency, rate: R, face: R, res: Option<Bond>) -> bool {
    res matches Some(b) ==> rate.f() && face.f() ==> amounts(b.bond_cash_flows@, issue, first, penult, mat, step(f), rate.v() * face.v() / (f as u8 as real), face.v())
}
// C26
spec fn open_at(v: Seq<BondCashFlow>, settle: Date, i: int) -> bool { settle.n() < v[i].due_date.n() }
spec fn factor(v: Seq<BondCashFlow>, settle: Date, c: YieldCurve, i: int) -> QLabResult<R> { c.df(settle, v[i].payment_date) }
spec fn known(v: Seq<BondCashFlow>, settle: Date, c: YieldCurve, n: int) -> bool {
    forall|i: int| 0 <= i < n && #[trigger] open_at(v, settle, i) ==> factor(v, settle, c, i) is Ok
}
spec fn finite(v: Seq<BondCashFlow>, settle: Date, c: YieldCurve, n: int) -> bool {
    forall|i: int| 0 <= i < n && #[trigger] open_at(v, settle, i) ==> (factor(v, settle, c, i) matches Ok(d) && d.f()) && v[i].payment_amount.f()
}
spec fn total(v: Seq<BondCashFlow>, settle: Date, c: YieldCurve, n: int) -> real
    decreases n
{
    if n <= 0 { 0real } else {
        total(v, settle, c, n - 1) + if open_at(v, settle, n - 1) { factor(v, settle, c, n - 1)->Ok_0.v() * v[n - 1].payment_amount.v() } else { 0real }
    }
}
// what the months mean for the stubs: nonzero denominators, and the share of a regular coupon
proof fn stub_terms(d: Date, s: int, a: real, r: real)
    requires 0 < s
    ensures
        plus(d, -s) matches Some(p) ==> p.n() < d.n() && (plus(p, -s) matches Some(q) ==> q.n() < p.n()),
        plus(d, s) matches Some(p) ==> d.n() < p.n() && (plus(p, s) matches Some(q) ==> p.n() < q.n()),
        a * r == a + (r - 1real) * a, a * r == a + a * (r - 1real),
{
    plus_zero(d);
    if let Some(p) = plus(d, -s) { plus_later(d, -s, 0); plus_zero(p); if plus(p, -s) is Some { plus_later(p, -s, 0); } }
    if let Some(p) = plus(d, s) { plus_later(d, 0, s); plus_zero(p); if plus(p, s) is Some { plus_later(p, 0, s); } }
    assert(a * r == a + (r - 1real) * a) by(nonlinear_arith);
    assert(a * r == a + a * (r - 1real)) by(nonlinear_arith);
}
proof fn next_index(k: int, s: int) ensures (k + 1) * s == k * s + s { assert((k + 1) * s == k * s + s) by(nonlinear_arith); }
proof fn multiples(a: int, b: int, s: int) requires 0 < s, a < b ensures a * s < b * s { assert(a * s < b * s) by(nonlinear_arith) requires 0 < s, a < b; }
// a schedule that fits ends: the due dates rise
proof fn next_due(first: Date, s: int, k: int)
    requires 0 < s, 0 <= k
    ensures plus(first, k * s) matches Some(d) ==> (plus(first, (k + 1) * s) matches Some(e) ==> d.n() < e.n()) && k * s < 7_000_000
{
    next_index(k, s);
    if plus(first, k * s) is Some {
        plus_range(first, k * s);
        if plus(first, (k + 1) * s) is Some { plus_later(first, k * s, (k + 1) * s); }
    }
}
proof fn breaks(first: Date, penult: Date, s: int, v: Vec<BondCashFlow>)
    requires regulars_of(v, first, penult, s)
    ensures
        match plus(first, count(v) * s) { None => true, Some(d) => d.n() <= penult.n() && rolled(d) is None } ==> broken_at(first, penult, s, count(v)),
        (plus(first, count(v) * s) matches Some(d) && d.n() <= penult.n()) && plus(first, (count(v) + 1) * s) is None ==> broken_at(first, penult, s, count(v) + 1),
{
    assert forall|j: int| 0 <= j < count(v) implies (#[trigger] plus(first, j * s) matches Some(d) && d.n() <= penult.n()) by {
        assert(regular_at(v@[j], first, penult, s, j));
    }
}
//@ fn Bond::new
    ensures
        scheduled(issue_date, first_coupon_date, penultimate_coupon_date, maturity_date, coupon_frequency, res),
        pays(issue_date, first_coupon_date, penultimate_coupon_date, maturity_date, coupon_frequency, coupon_rate, face_value, res),
//@ before Bond::new 0
    proof { plus_zero(first_coupon_date); }
//@ loop Bond::new 0
    invariant
        first_coupon_date.n() <= penultimate_coupon_date.n(),
        0 < step(coupon_frequency) <= 12,
        count(bond_cash_flows) > 0 || regular_due_date == first_coupon_date,
        months_after(months_from_first_coupon, count(bond_cash_flows), step(coupon_frequency)),
        plus(first_coupon_date, count(bond_cash_flows) * step(coupon_frequency)) == Some(regular_due_date),
        regulars_of(bond_cash_flows, first_coupon_date, penultimate_coupon_date, step(coupon_frequency)),
        paying(bond_cash_flows, regular_coupon_payment),
    decreases left(regular_due_date, penultimate_coupon_date)
//@ loopstart Bond::new 0
    let ghost qv_s = step(coupon_frequency);
    proof {
        let k = count(bond_cash_flows);
        breaks(first_coupon_date, penultimate_coupon_date, qv_s, bond_cash_flows);
        next_index(k, qv_s);
        next_due(first_coupon_date, qv_s, k);
    }
//@ fn Bond::first_cash_flow
    requires 0 < months_in_regular_coupon_period.0 <= 12, old(bond_cash_flows)@.len() > 0
    ensures
        final(bond_cash_flows)@.len() == old(bond_cash_flows)@.len(),
        forall|k: int| 1 <= k < old(bond_cash_flows)@.len() ==> #[trigger] final(bond_cash_flows)@[k] == old(bond_cash_flows)@[k],
        final(bond_cash_flows)@[0].due_date == old(bond_cash_flows)@[0].due_date,
        final(bond_cash_flows)@[0].payment_date == old(bond_cash_flows)@[0].payment_date,
        res is Some <==> first_ratio(issue_date, first_coupon_date, months_in_regular_coupon_period.0 as int) is Some,
        res is Some && regular_coupon_payment.f() && old(bond_cash_flows)@[0].payment_amount == regular_coupon_payment ==> is(
            final(bond_cash_flows)@[0].payment_amount,
            regular_coupon_payment.v() * first_ratio(issue_date, first_coupon_date, months_in_regular_coupon_period.0 as int)->0,
        ),
//@ start Bond::first_cash_flow
    proof {
        let s = months_in_regular_coupon_period.0 as int;
        stub_terms(first_coupon_date, s, regular_coupon_payment.v(), first_ratio(issue_date, first_coupon_date, s)->0);
    }
//@ fn Bond::final_cash_flow
    requires 0 < months_in_regular_coupon_period.0 <= 12
    ensures
        res is Some <==> last_ratio(penultimate_coupon_date, maturity_date, months_in_regular_coupon_period.0 as int) is Some,
        res matches Some(c) ==> c.due_date == maturity_date && c.payment_date == maturity_date,
        res matches Some(c) ==> regular_coupon_payment.f() && face_value.f() ==> is(
            c.payment_amount,
            face_value.v() + regular_coupon_payment.v() * last_ratio(penultimate_coupon_date, maturity_date, months_in_regular_coupon_period.0 as int)->0,
        ),
//@ start Bond::final_cash_flow
    proof {
        let s = months_in_regular_coupon_period.0 as int;
        stub_terms(penultimate_coupon_date, s, regular_coupon_payment.v(), last_ratio(penultimate_coupon_date, maturity_date, s)->0);
    }
//@ fn Bond::discounted_value
    ensures
        res is Ok <==> known(self.bond_cash_flows@, bond_settle_date, *yield_curve, self.bond_cash_flows@.len() as int),
        finite(self.bond_cash_flows@, bond_settle_date, *yield_curve, self.bond_cash_flows@.len() as int)
            ==> res is Ok && is(res->Ok_0, total(self.bond_cash_flows@, bond_settle_date, *yield_curve, self.bond_cash_flows@.len() as int)),
//@ loop Bond::discounted_value 0
    invariant
        it0.seq().len() == self.bond_cash_flows@.len(),
        known(self.bond_cash_flows@, bond_settle_date, *yield_curve, it0.index@ as int),
        finite(self.bond_cash_flows@, bond_settle_date, *yield_curve, it0.index@ as int) ==> is(pv, total(self.bond_cash_flows@, bond_settle_date, *yield_curve, it0.index@ as int)),
//@ loopstart Bond::discounted_value 0
    proof {
        let v = self.bond_cash_flows@;
        let k = it0.index@ as int;
        assert(open_at(v, bond_settle_date, k) <==> bond_settle_date.n() < v[k].due_date.n());
        assert(total(v, bond_settle_date, *yield_curve, k + 1) == total(v, bond_settle_date, *yield_curve, k)
            + if open_at(v, bond_settle_date, k) { factor(v, bond_settle_date, *yield_curve, k)->Ok_0.v() * v[k].payment_amount.v() } else { 0real });
    }
//@ attr Bond::discounted_value
    #[verifier::loop_isolation(false)]
//@ attr Bond::new
    #[verifier::loop_isolation(false)]

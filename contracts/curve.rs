//@ use curve_base
//@ source --param D=Dc --param I=In crates/qlab-termstructure/src/yield_curve.rs
//@ prelude
// C22: the interpolator is fitted to the year fractions and the yields, pairwise and in order
spec fn points_are(settle: Date, mats: Seq<Date>, ys: Seq<R>, p: Seq<(R, R)>) -> bool {
    p.len() == mats.len() && forall|i: int| 0 <= i < p.len() ==> Dc::fraction(settle, mats[i]) == Ok::<R, QLabError>((#[trigger] p[i]).0) && p[i].1 == ys[i]
}
spec fn built(settle: Date, mats: Seq<Date>, ys: Seq<R>, res: QLabResult<YieldCurve>) -> bool {
    if mats.len() != ys.len() { invalid(res) }
    else if exists|i: int| 0 <= i < mats.len() && #[trigger] Dc::fraction(settle, mats[i]) is Err { res is Err }
    else {
        exists|p: Seq<(R, R)>| points_are(settle, mats, ys, p) && match #[trigger] In::base().fit(p) {
            Ok(i) => res is Ok && res->Ok_0.interpolator == i && res->Ok_0.settlement_date == settle,
            Err(_) => res is Err,
        }
    }
}
// C23. The exponent t y(t), without a yield at settlement.
spec fn area(c: YieldCurve, d: Date, t: R, y: R) -> bool {
    Dc::fraction(c.settlement_date, d) == Ok::<R, QLabError>(t) && c.interpolator.value(t) == Ok::<R, InterpolationError>(y) && t.f() && y.f()
}
spec fn has_yield(c: YieldCurve, d: Date) -> bool {
    Dc::fraction(c.settlement_date, d) matches Ok(t) && c.interpolator.value(t) is Ok
}
spec fn is_exp(res: QLabResult<R>, x: real) -> bool { res matches Ok(v) && v@ == Ext::Fin(spec_exp(x)) }
spec fn discounts(c: YieldCurve, d1: Date, d2: Date, res: QLabResult<R>) -> bool {
    if d2.n() < d1.n() || d1.n() < c.settlement_date.n() { invalid(res) }
    else {
        &&& res is Ok <==> has_yield(c, d2) && (d1 == c.settlement_date || has_yield(c, d1))
        &&& forall|t2: R, y2: R| d1 == c.settlement_date && #[trigger] area(c, d2, t2, y2)
            ==> is_exp(res, -(t2.v() * y2.v()))
        &&& forall|t1: R, y1: R, t2: R, y2: R| d1 != c.settlement_date && #[trigger] area(c, d1, t1, y1) && #[trigger] area(c, d2, t2, y2)
            ==> is_exp(res, t1.v() * y1.v() - t2.v() * y2.v())
    }
}
//@ clo YieldCurve::new 0
|$1: &Date| -> (r: QLabResult<R>) ensures r == Dc::fraction(settlement_date, *$1)
//@ fn YieldCurve::new
    ensures built(settlement_date, maturities@, spot_yields@, res)
//@ start YieldCurve::new
    let ghost qv_mats = maturities@;
//@ tail YieldCurve::new
    proof {
        assert(points_are(settlement_date, qv_mats, spot_yields@, val@));
        assert forall|i: int| 0 <= i < qv_mats.len() implies #[trigger] Dc::fraction(settlement_date, qv_mats[i]) is Ok by { assert(Dc::fraction(settlement_date, qv_mats[i]) == Ok::<R, QLabError>(val@[i].0)); }
    }
//@ fn YieldCurve::yield_curve
    ensures lifts(self.interpolator.value(t), res)
//@ start YieldCurve::discount_factor
    broadcast use neg_mul;
    proof { same_day_number(d1, self.settlement_date); }
//@ fn YieldCurve::discount_factor
    ensures discounts(*self, d1, d2, res)
//@ lemmas
// C23: the factor is 1 between equal dates, and factors multiply along consecutive dates
proof fn unit_discount(c: YieldCurve, d: Date, r: QLabResult<R>, t: R, y: R)
    requires discounts(c, d, d, r), d.n() >= c.settlement_date.n(), area(c, d, t, y)
    ensures r matches Ok(v) && v@ == Ext::Fin(1real)
{
    exp_zero();
    if d == c.settlement_date {
        Dc::same_day(d);
        assert(t.v() * y.v() == 0real) by(nonlinear_arith) requires t.v() == 0real;
    }
}
proof fn chain(c: YieldCurve, a: Date, b: Date, d: Date, ab: QLabResult<R>, bd: QLabResult<R>, ad: QLabResult<R>, ta: R, ya: R, tb: R, yb: R, td: R, yd: R)
    requires
        c.settlement_date.n() <= a.n() <= b.n() <= d.n(),
        discounts(c, a, b, ab), discounts(c, b, d, bd), discounts(c, a, d, ad),
        area(c, a, ta, ya), area(c, b, tb, yb), area(c, d, td, yd),
    ensures ab matches Ok(x) && bd matches Ok(y) && ad matches Ok(z) && x.f() && y.f() && z.f() && x.v() * y.v() == z.v()
{
    let s = c.settlement_date;
    let za = if a == s { 0real } else { ta.v() * ya.v() };
    let zb = if b == s { 0real } else { tb.v() * yb.v() };
    let zd = td.v() * yd.v();
    if b == s {
        Dc::same_day(b);
        assert(tb.v() * yb.v() == 0real) by(nonlinear_arith) requires tb.v() == 0real;
        same_day_number(a, s);
        assert(a == s);
        exp_zero();
    }
    exp_add(za - zb, zb - zd);
    assert((za - zb) + (zb - zd) == za - zd);
}

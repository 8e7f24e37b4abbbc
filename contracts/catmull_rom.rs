//@ use interp_base
//@ source --inherent Interpolator crates/qlab-math/src/interpolation/spline/catmull_rom.rs
//@ prelude
include nalgebra.rs
include cubics.rs
// CATMULL-ROM
spec fn interior_slope(p: Seq<Point2D>, i: int) -> real { (p[i + 1].y.v() - p[i - 1].y.v()) / (p[i + 1].x.v() - p[i - 1].x.v()) }
spec fn chord_slope(p: Seq<Point2D>, i: int) -> real { (p[i + 1].y.v() - p[i].y.v()) / (p[i + 1].x.v() - p[i].x.v()) }
spec fn knot_slope(p: Seq<Point2D>, i: int) -> real {
    if i == 0 { chord_slope(p, 0) } else if i + 1 == p.len() { chord_slope(p, i - 1) } else { interior_slope(p, i) }
}
spec fn catmull_rom_at(p: Seq<Point2D>, i: int, s0: real, x: real) -> real {
    cubic_at(p[i + 1].x.v() - p[i].x.v(), p[i].y.v(), p[i + 1].y.v(), s0, knot_slope(p, i + 1), x - p[i].x.v())
}
spec fn real_point2(p: Point2D) -> bool { p.x.f() && p.y.f() }
// the known finding: the slope with which the cubic of the last segment starts
spec fn last_slope(p: Seq<Point2D>) -> real {
    let n = p.len() as int;
    (p[n - 1].y.v() - p[n - 3].y.v()) / ((p[n - 1].x.v() - p[n - 2].x.v()) + (p[n - 1].x.v() - p[n - 3].x.v()))
}
proof fn dot_parts(a: real, b: real, c: real, t: real, e3: real, e2: real, e1: real, e0: real)
    ensures t * t * t * e3 + t * t * e2 + t * e1 + 1real * e0 == e0 + e1 * t + e2 * (t * t) + e3 * (t * t * t)
{
    assert(t * t * t * e3 == e3 * (t * t * t)) by(nonlinear_arith);
    assert(t * t * e2 == e2 * (t * t)) by(nonlinear_arith);
    assert(t * e1 == e1 * t) by(nonlinear_arith);
}
// the products of the three matrices with the ordinates
proof fn first_rows(b: real, y0: real, y1: real, y2: real, p: real, q: real)
    requires p == y1 - y0, q == b * (y2 - y0)
    ensures
        0real * 0real + (1real - b) * y0 + (-1real) * y1 + b * y2 == p + q - 2real * (y1 - y0),
        0real * 0real + (-1real + b) * y0 + 1real * y1 + (-b) * y2 == 3real * (y1 - y0) - 2real * p - q,
        0real * 0real + (-1real) * y0 + 1real * y1 + 0real * y2 == p,
        0real * 0real + 1real * y0 + 0real * y1 + 0real * y2 == y0,
{
    assert((1real - b) * y0 == y0 - b * y0) by(nonlinear_arith);
    assert((-1real + b) * y0 == b * y0 - y0) by(nonlinear_arith);
    assert(b * (y2 - y0) == b * y2 - b * y0) by(nonlinear_arith);
    assert((-b) * y2 == -(b * y2)) by(nonlinear_arith);
}
proof fn last_rows(a: real, ym: real, y0: real, y1: real, p: real, q: real)
    requires p == a * (y1 - ym), q == y1 - y0
    ensures
        (-a) * ym + 1real * y0 + (-1real + a) * y1 + 0real * 0real == p + q - 2real * (y1 - y0),
        (2real * a) * ym + (-2real) * y0 + (2real - 2real * a) * y1 + 0real * 0real == 3real * (y1 - y0) - 2real * p - q,
        (-a) * ym + 0real * y0 + a * y1 + 0real * 0real == p,
        0real * ym + 1real * y0 + 0real * y1 + 0real * 0real == y0,
{
    assert((-1real + a) * y1 == a * y1 - y1) by(nonlinear_arith);
    assert((2real - 2real * a) * y1 == 2real * y1 - 2real * (a * y1)) by(nonlinear_arith);
    assert((2real * a) * ym == 2real * (a * ym)) by(nonlinear_arith);
    assert(a * (y1 - ym) == a * y1 - a * ym) by(nonlinear_arith);
    assert((-a) * ym == -(a * ym)) by(nonlinear_arith);
}
proof fn inner_rows(a: real, b: real, ym: real, y0: real, y1: real, y2: real, p: real, q: real)
    requires p == a * (y1 - ym), q == b * (y2 - y0)
    ensures
        (-a) * ym + (2real - b) * y0 + (-2real + a) * y1 + b * y2 == p + q - 2real * (y1 - y0),
        (2real * a) * ym + (b - 3real) * y0 + (3real - 2real * a) * y1 + (-b) * y2 == 3real * (y1 - y0) - 2real * p - q,
        (-a) * ym + 0real * y0 + a * y1 + 0real * y2 == p,
        0real * ym + 1real * y0 + 0real * y1 + 0real * y2 == y0,
{
    assert((2real - b) * y0 == 2real * y0 - b * y0) by(nonlinear_arith);
    assert((b - 3real) * y0 == b * y0 - 3real * y0) by(nonlinear_arith);
    assert((-2real + a) * y1 == a * y1 - 2real * y1) by(nonlinear_arith);
    assert((3real - 2real * a) * y1 == 3real * y1 - 2real * (a * y1)) by(nonlinear_arith);
    assert((2real * a) * ym == 2real * (a * ym)) by(nonlinear_arith);
    assert(a * (y1 - ym) == a * y1 - a * ym) by(nonlinear_arith);
    assert(b * (y2 - y0) == b * y2 - b * y0) by(nonlinear_arith);
    assert((-a) * ym == -(a * ym)) by(nonlinear_arith);
    assert((-b) * y2 == -(b * y2)) by(nonlinear_arith);
}
// a slope s = dy / g over a step h is the share h / g of dy
proof fn slope_share(dy: real, g: real, h: real, s: real, a: real)
    requires g > 0real, s == dy / g, a == h / g
    ensures s * h == a * dy
{
    assert(s * g == dy) by(nonlinear_arith) requires g > 0real, s == dy / g;
    assert(a * g == h) by(nonlinear_arith) requires g > 0real, a == h / g;
    assert(s * h == a * dy) by(nonlinear_arith) requires s * g == dy, a * g == h;
}
//@ fn CatmullRom::try_fit
    ensures
        fitted(abscissae(raw_points@), 3, res),
        res matches Ok(l) ==> points_of(raw_points@, l.points@) && l.points@.len() >= 3
//@ loop CatmullRom::try_fit 0
    invariant
        it0.seq().len() == raw_points@.len(), forall|i: int| 0 <= i < raw_points@.len() ==> *it0.seq()[i] == raw_points@[i],
        points_of(raw_points@.take(it0.index@), points@),
        temp == raw_points@[if it0.index@ > 0 { it0.index@ - 1 } else { 0 }].0,
        scanned(abscissae(raw_points@), it0.index@), 3 <= raw_points@.len() <= usize::MAX
//@ loopstart CatmullRom::try_fit 0
    proof { let xs = abscissae(raw_points@); let i = it0.index@; if i > 0 { assert(descends_at(xs, i - 1) == lt(raw_points@[i].0@, raw_points@[i - 1].0@)); assert(!(rises_at(xs, i - 1) && descends_at(xs, i - 1))); } }
//@ fn CatmullRom::try_value
    requires self.points@.len() != 2
    ensures
        answered(self.points@, x, res),
        // C20, but for the first slope of the last segment
        forall|i: int| #[trigger] inside(self.points@, i, x) && strict(self.points@) && real_points(self.points@)
            ==> gives(res, catmull_rom_at(self.points@, i, if i + 2 < self.points@.len() { knot_slope(self.points@, i) } else { last_slope(self.points@) }, x.v())),
        // C16
        forall|i: int| #[trigger] at_knot(self.points@, i, x) && strict(self.points@) && self.points@.len() >= 2 && real_points(self.points@)
            ==> gives(res, self.points@[i].y.v()),
//@ tail CatmullRom::try_value
    proof {
        let p = self.points@; let k = pos as int; let n = p.len() as int;
        if strict(p) && real_points(p) && x.f() {
            strict_ordered(p);
            assert(bracket(p, k, x));
            assert forall|i: int| #[trigger] inside(p, i, x) implies i == k by { bracket_inside(p, k, i, x); }
            assert forall|i: int| #[trigger] at_knot(p, i, x) implies i == k || i == k + 1 by { bracket_knot(p, k, i, x); }
            assert(p[k].sx().v() < p[k + 1].sx().v());
            let (y0, y1) = (p[k].y.v(), p[k + 1].y.v());
            let (hh, u, dy) = (p[k + 1].x.v() - p[k].x.v(), x.v() - p[k].x.v(), p[k + 1].y.v() - p[k].y.v());
            let t = delta.v();
            let s0 = if k + 2 < n { knot_slope(p, k) } else { last_slope(p) };
            let s1 = knot_slope(p, k + 1);
            let (pp, qq) = (s0 * hh, s1 * hh);
            cubic_scaled(hh, y0, y1, s0, s1, u, t, pp, qq);
            cubic_conditions(hh, y0, y1, s0, s1);
            let e3 = pp + qq - 2real * dy;
            let e2 = 3real * dy - 2real * pp - qq;
            dot_parts(0real, 0real, 0real, t, e3, e2, pp, y0);
            if k > 0 { assert(p[k - 1].sx().v() < p[k].sx().v()); }
            if k + 2 < n { assert(p[k + 1].sx().v() < p[k + 2].sx().v()); }
            if k == 0 {
                slope_share(dy, hh, hh, s0, hh / hh);
                assert(hh / hh == 1real) by(nonlinear_arith) requires hh > 0real;
                assert(1real * dy == dy) by(nonlinear_arith);
                let g = p[2].x.v() - p[0].x.v();
                let b = hh / g;
                let dy2 = p[2].y.v() - p[0].y.v();
                slope_share(dy2, g, hh, s1, b);
                first_rows(b, y0, y1, p[2].y.v(), dy, qq);
            } else if k + 2 == n {
                let g = hh + (p[k + 1].x.v() - p[k - 1].x.v());
                slope_share(p[k + 1].y.v() - p[k - 1].y.v(), g, hh, s0, hh / g);
                slope_share(dy, hh, hh, s1, hh / hh);
                assert(hh / hh == 1real) by(nonlinear_arith) requires hh > 0real;
                assert(1real * dy == dy) by(nonlinear_arith);
                last_rows(hh / g, p[k - 1].y.v(), y0, y1, pp, dy);
            } else {
                let g = p[k + 1].x.v() - p[k - 1].x.v();
                slope_share(p[k + 1].y.v() - p[k - 1].y.v(), g, hh, s0, hh / g);
                let g2 = p[k + 2].x.v() - p[k].x.v();
                slope_share(p[k + 2].y.v() - p[k].y.v(), g2, hh, s1, hh / g2);
                inner_rows(hh / g, hh / g2, p[k - 1].y.v(), y0, y1, p[k + 2].y.v(), pp, qq);
            }
        }
    }
//@ attr CatmullRom::try_fit
    #[verifier::loop_isolation(false)]

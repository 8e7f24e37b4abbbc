//@ use interp_base
//@ source crates/qlab-math/src/interpolation/spline/hermite.rs
//@ prelude
include nalgebra.rs
include cubics.rs
// HERMITE
spec fn points3_of(raw: Seq<(R, R, R)>, points: Seq<Point2DWithSlope>) -> bool {
    points.len() == raw.len() && forall|i: int| 0 <= i < raw.len() ==> (#[trigger] points[i]).coordinate.x == raw[i].0 && points[i].coordinate.y == raw[i].1 && points[i].dydx == raw[i].2
}
spec fn real_points3(p: Seq<Point2DWithSlope>) -> bool { forall|i: int| 0 <= i < p.len() ==> #[trigger] real_point3(p[i]) }
spec fn real_point3(p: Point2DWithSlope) -> bool { p.coordinate.x.f() && p.coordinate.y.f() && p.dydx.f() }
spec fn row(r: RowVector4, a: real, b: real, c: real, d: real) -> bool { r.f() && r.x.v() == a && r.y.v() == b && r.z.v() == c && r.w.v() == d }
spec fn hermite_matrix(m: Matrix4) -> bool {
    row(m.r0, 2real, -2real, 1real, 1real) && row(m.r1, -3real, 3real, -2real, -1real) && row(m.r2, 0real, 0real, 1real, 0real) && row(m.r3, 1real, 0real, 0real, 0real)
}
spec fn hermite_at(p: Point2DWithSlope, q: Point2DWithSlope, x: real) -> real {
    cubic_at(q.coordinate.x.v() - p.coordinate.x.v(), p.coordinate.y.v(), q.coordinate.y.v(), p.dydx.v(), q.dydx.v(), x - p.coordinate.x.v())
}
proof fn hermite_form(t: real, y0: real, y1: real, p: real, q: real, r0: real, r1: real, r2: real, r3: real)
    requires
        r0 == t * t * t * 2real + t * t * (-3real) + t * 0real + 1real * 1real,
        r1 == t * t * t * (-2real) + t * t * 3real + t * 0real + 1real * 0real,
        r2 == t * t * t * 1real + t * t * (-2real) + t * 1real + 1real * 0real,
        r3 == t * t * t * 1real + t * t * (-1real) + t * 0real + 1real * 0real,
    ensures r0 * y0 + r1 * y1 + r2 * p + r3 * q == y0 + p * t + (3real * (y1 - y0) - 2real * p - q) * (t * t) + (p + q - 2real * (y1 - y0)) * (t * t * t)
{
    let (a, b) = (t * t * t, t * t);
    assert(r0 == 2real * a - 3real * b + 1real && r1 == 3real * b - 2real * a && r2 == a - 2real * b + t && r3 == a - b);
    assert(r0 * y0 == 2real * (a * y0) - 3real * (b * y0) + y0) by(nonlinear_arith) requires r0 == 2real * a - 3real * b + 1real;
    assert(r1 * y1 == 3real * (b * y1) - 2real * (a * y1)) by(nonlinear_arith) requires r1 == 3real * b - 2real * a;
    assert(r2 * p == a * p - 2real * (b * p) + t * p) by(nonlinear_arith) requires r2 == a - 2real * b + t;
    assert(r3 * q == a * q - b * q) by(nonlinear_arith) requires r3 == a - b;
    assert((3real * (y1 - y0) - 2real * p - q) * b == 3real * (b * y1) - 3real * (b * y0) - 2real * (b * p) - b * q) by(nonlinear_arith);
    assert((p + q - 2real * (y1 - y0)) * a == a * p + a * q - 2real * (a * y1) + 2real * (a * y0)) by(nonlinear_arith);
    assert(p * t == t * p) by(nonlinear_arith);
}

//@ fn Hermite::try_new
    ensures
        fitted(abscissae3(raw_points@), 3, res),
        res matches Ok(l) ==> points3_of(raw_points@, l.points@) && hermite_matrix(l.m) && l.points@.len() >= 3
//@ loop Hermite::try_new 0
    invariant
        it0.seq().len() == raw_points@.len(), forall|i: int| 0 <= i < raw_points@.len() ==> *it0.seq()[i] == raw_points@[i],
        points3_of(raw_points@.take(it0.index@), points@),
        temp == raw_points@[if it0.index@ > 0 { it0.index@ - 1 } else { 0 }].0,
        scanned(abscissae3(raw_points@), it0.index@), 3 <= raw_points@.len() <= usize::MAX
//@ loopstart Hermite::try_new 0
    proof { let xs = abscissae3(raw_points@); let i = it0.index@; if i > 0 { assert(descends_at(xs, i - 1) == lt(raw_points@[i].0@, raw_points@[i - 1].0@)); assert(!(rises_at(xs, i - 1) && descends_at(xs, i - 1))); } }
//@ fn Hermite::try_value
    requires hermite_matrix(self.m)
    ensures
        answered(self.points@, x, res),
        // C18
        forall|i: int| #[trigger] inside(self.points@, i, x) && ordered(self.points@) && real_point3(self.points@[i]) && real_point3(self.points@[i + 1])
            ==> gives(res, hermite_at(self.points@[i], self.points@[i + 1], x.v())),
        // C16
        forall|i: int| #[trigger] at_knot(self.points@, i, x) && self.points@.len() >= 2 && strict(self.points@) && real_points3(self.points@)
            ==> gives(res, self.points@[i].coordinate.y.v()),
//@ tail Hermite::try_value
    proof {
        let p = self.points@; let k = pos as int;
        if ordered(p) {
            assert(bracket(p, k, x));
            assert forall|i: int| #[trigger] inside(p, i, x) implies i == k by { bracket_inside(p, k, i, x); }
        }
        let (y0, y1, s0, s1) = (p[k].coordinate.y.v(), p[k + 1].coordinate.y.v(), p[k].dydx.v(), p[k + 1].dydx.v());
        let (hh, u) = (p[k + 1].coordinate.x.v() - p[k].coordinate.x.v(), x.v() - p[k].coordinate.x.v());
        if hh > 0real && x.f() && real_point3(p[k]) && real_point3(p[k + 1]) {
            let t = delta.v();
            cubic_scaled(hh, y0, y1, s0, s1, u, t, s0 * hh, s1 * hh);
            hermite_form(t, y0, y1, s0 * hh, s1 * hh,
                t * t * t * 2real + t * t * (-3real) + t * 0real + 1real * 1real,
                t * t * t * (-2real) + t * t * 3real + t * 0real + 1real * 0real,
                t * t * t * 1real + t * t * (-2real) + t * 1real + 1real * 0real,
                t * t * t * 1real + t * t * (-1real) + t * 0real + 1real * 0real);
            cubic_conditions(hh, y0, y1, s0, s1);
        }
        if strict(p) && real_points3(p) {
            strict_ordered(p);
            assert forall|i: int| #[trigger] at_knot(p, i, x) implies i == k || i == k + 1 by { bracket_knot(p, k, i, x); }
            assert(p[k].sx().v() < p[k + 1].sx().v());
            assert(real_point3(p[k]) && real_point3(p[k + 1]));
        }
    }
//@ attr Hermite::try_new
    #[verifier::loop_isolation(false)]

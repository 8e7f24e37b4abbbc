//@ use interp_base
//@ use tridiagonal
//@ source --inherent Interpolator crates/qlab-math/src/interpolation/spline/natural_cubic.rs
//@ prelude
// nalgebra's dynamic vectors, by contract
pub struct DVector { pub e: Vec<R> }
impl DVector {
    #[verifier::external_body]
    pub fn from(v: Vec<R>) -> (r: DVector) ensures r.e@ == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &[R]) ensures r@ == self.e@ { unimplemented!() }
}
impl core::ops::Add for DVector {
    type Output = DVector;
    #[verifier::external_body]
    fn add(self, o: DVector) -> (r: DVector) ensures r.e@.len() == self.e@.len(), forall|i: int| 0 <= i < r.e@.len() ==> radd(self.e@[i], o.e@[i], #[trigger] r.e@[i]) { unimplemented!() }
}
impl vstd::std_specs::ops::AddSpecImpl for DVector {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: DVector) -> bool { self.e@.len() == o.e@.len() }
    open spec fn add_spec(self, o: DVector) -> DVector { arbitrary() }
}

// NATURAL CUBIC. `dydx` holds the second derivatives.
spec fn good(raw: Seq<(R, R)>) -> bool {
    (forall|i: int| 0 <= i < raw.len() ==> (#[trigger] raw[i]).0.f() && raw[i].1.f())
    && forall|i: int, j: int| 0 <= i < j < raw.len() ==> (#[trigger] raw[i]).0.v() < (#[trigger] raw[j]).0.v()
}
spec fn hh(raw: Seq<(R, R)>, i: int) -> real { raw[i + 1].0.v() - raw[i].0.v() }
spec fn is(x: R, y: real) -> bool { x@ == Ext::Fin(y) }
spec fn boundary(raw: Seq<(R, R)>, k: int) -> real {
    (if k == 0 { raw[0].1.v() / hh(raw, 0) } else { 0real }) + (if k + 3 == raw.len() { raw[k + 2].1.v() / hh(raw, k + 1) } else { 0real })
}
spec fn sixth_at(s: Seq<R>, raw: Seq<(R, R)>, k: int) -> bool { is(s[k], hh(raw, k + 1) / 6real) }
spec fn recip_at(s: Seq<R>, raw: Seq<(R, R)>, k: int) -> bool { is(s[k], 1real / hh(raw, k + 1)) }
spec fn third_at(s: Seq<R>, raw: Seq<(R, R)>, k: int) -> bool { is(s[k], (hh(raw, k) + hh(raw, k + 1)) / 3real) }
spec fn recips_at(s: Seq<R>, raw: Seq<(R, R)>, k: int) -> bool { is(s[k], -(1real / hh(raw, k) + 1real / hh(raw, k + 1))) }
spec fn boundary_at(s: Seq<R>, raw: Seq<(R, R)>, k: int) -> bool { is(s[k], boundary(raw, k)) }
// the equation that makes the first derivatives meet at the knot j, for second derivatives d
spec fn spline_equation(raw: Seq<(R, R)>, d: Seq<R>, j: int) -> bool {
    hh(raw, j - 1) / 6real * d[j - 1].v() + (hh(raw, j - 1) + hh(raw, j)) / 3real * d[j].v() + hh(raw, j) / 6real * d[j + 1].v()
        == (raw[j + 1].1.v() - raw[j].1.v()) / hh(raw, j) - (raw[j].1.v() - raw[j - 1].1.v()) / hh(raw, j - 1)
}
spec fn natural(raw: Seq<(R, R)>, d: Seq<R>) -> bool {
    d.len() == raw.len() && finite(d) && d[0].v() == 0real && d[d.len() - 1].v() == 0real
    && forall|j: int| 0 < j < raw.len() - 1 ==> #[trigger] spline_equation(raw, d, j)
}
spec fn knots_of(raw: Seq<(R, R)>, p: Seq<Point2DWithSlope>) -> bool {
    p.len() == raw.len() && forall|i: int| 0 <= i < raw.len() ==> (#[trigger] p[i]).coordinate.x == raw[i].0 && p[i].coordinate.y == raw[i].1
}
spec fn knots_with(raw: Seq<(R, R)>, d: Seq<R>, p: Seq<Point2DWithSlope>, n: int) -> bool {
    p.len() == n && forall|k: int| 0 <= k < n ==> (#[trigger] p[k]).coordinate.x == raw[k].0 && p[k].coordinate.y == raw[k].1 && p[k].dydx == d[k]
}
spec fn curvatures(p: Seq<Point2DWithSlope>) -> Seq<R> { Seq::new(p.len(), |i: int| p[i].dydx) }
spec fn fitted_cubic(raw: Seq<(R, R)>, p: Seq<Point2DWithSlope>) -> bool {
    p.len() >= 3 && knots_of(raw, p) && (good(raw) ==> natural(raw, curvatures(p)))
}
spec fn real_point3(p: Point2DWithSlope) -> bool { p.coordinate.x.f() && p.coordinate.y.f() && p.dydx.f() }
spec fn real_points3(p: Seq<Point2DWithSlope>) -> bool { forall|i: int| 0 <= i < p.len() ==> #[trigger] real_point3(p[i]) }

// the polynomial of a segment in u = x - x0 and its derivatives; m0, m1 the second derivatives at its ends
spec fn a1(h: real, dy: real, m0: real, m1: real) -> real { dy / h - h * (2real * m0 + m1) / 6real }
spec fn a3(h: real, m0: real, m1: real) -> real { (m1 - m0) / (6real * h) }
spec fn segment(h: real, y0: real, y1: real, m0: real, m1: real, u: real) -> real {
    y0 + a1(h, y1 - y0, m0, m1) * u + m0 / 2real * u * u + a3(h, m0, m1) * u * u * u
}
spec fn segment_slope(h: real, y0: real, y1: real, m0: real, m1: real, u: real) -> real {
    a1(h, y1 - y0, m0, m1) + m0 * u + 3real * a3(h, m0, m1) * u * u
}
spec fn segment_curvature(h: real, m0: real, m1: real, u: real) -> real { m0 + 6real * a3(h, m0, m1) * u }
spec fn width(p: Seq<Point2DWithSlope>, i: int) -> real { p[i + 1].coordinate.x.v() - p[i].coordinate.x.v() }
spec fn spline_at(p: Seq<Point2DWithSlope>, i: int, u: real) -> real {
    segment(width(p, i), p[i].coordinate.y.v(), p[i + 1].coordinate.y.v(), p[i].dydx.v(), p[i + 1].dydx.v(), u)
}
spec fn slope_at(p: Seq<Point2DWithSlope>, i: int, u: real) -> real {
    segment_slope(width(p, i), p[i].coordinate.y.v(), p[i + 1].coordinate.y.v(), p[i].dydx.v(), p[i + 1].dydx.v(), u)
}
spec fn curvature_at(p: Seq<Point2DWithSlope>, i: int, u: real) -> real { segment_curvature(width(p, i), p[i].dydx.v(), p[i + 1].dydx.v(), u) }

proof fn segment_ends(h: real, y0: real, y1: real, m0: real, m1: real)
    requires h > 0real
    ensures
        segment(h, y0, y1, m0, m1, 0real) == y0,
        segment(h, y0, y1, m0, m1, h) == y1,
        segment_slope(h, y0, y1, m0, m1, 0real) == (y1 - y0) / h - h * m0 / 3real - h * m1 / 6real,
        segment_slope(h, y0, y1, m0, m1, h) == (y1 - y0) / h + h * m0 / 6real + h * m1 / 3real,
        segment_curvature(h, m0, m1, 0real) == m0,
        segment_curvature(h, m0, m1, h) == m1,
{
    let (dy, s, a, b) = (y1 - y0, (y1 - y0) / h, a1(h, y1 - y0, m0, m1), a3(h, m0, m1));
    assert(s * h == dy) by(nonlinear_arith) requires h > 0real, s == dy / h;
    assert(b * h == (m1 - m0) / 6real) by(nonlinear_arith) requires h > 0real, b == (m1 - m0) / (6real * h);
    assert(h * (2real * m0 + m1) == 2real * (h * m0) + h * m1) by(nonlinear_arith);
    assert(a * 0real == 0real && m0 / 2real * 0real * 0real == 0real && b * 0real * 0real * 0real == 0real && m0 * 0real == 0real && 3real * b * 0real * 0real == 0real && 6real * b * 0real == 0real) by(nonlinear_arith);
    assert(6real * b * h == 6real * (b * h)) by(nonlinear_arith);
    assert(3real * b * h * h == 3real * (b * h) * h) by(nonlinear_arith);
    let c = b * h;
    assert(3real * c * h == (h * m1 - h * m0) / 2real) by(nonlinear_arith) requires c == (m1 - m0) / 6real;
    assert(m0 * h == h * m0) by(nonlinear_arith);
    assert(b * h * h * h == (h * m1 * h - h * m0 * h) / 6real) by(nonlinear_arith) requires b * h == (m1 - m0) / 6real;
    assert(m0 / 2real * h * h == h * m0 * h / 2real) by(nonlinear_arith);
    assert(a * h == s * h - (2real * (h * m0 * h) + h * m1 * h) / 6real) by(nonlinear_arith) requires a == s - (2real * (h * m0) + h * m1) / 6real;
}
proof fn div_back(q: real, h: real)
    requires h > 0real
    ensures q / h * h == q
{
    assert(q / h * h == q) by(nonlinear_arith) requires h > 0real;
}
proof fn cancel(a: real, b: real, h: real)
    requires h > 0real, a * h == b * h
    ensures a == b
{
    assert(a == b) by(nonlinear_arith) requires h > 0real, a * h == b * h;
}
proof fn cube_of_difference(h: real, u: real)
    ensures (h - u) * (h - u) * (h - u) == h * h * h - 3real * (h * h * u) + 3real * (h * u * u) - u * u * u
{
    assert((h - u) * (h - u) == h * h - 2real * (h * u) + u * u) by(nonlinear_arith);
    let s = h * h - 2real * (h * u) + u * u;
    assert(s * (h - u) == s * h - s * u) by(nonlinear_arith);
    assert(s * h == h * h * h - 2real * (h * h * u) + h * u * u) by(nonlinear_arith) requires s == h * h - 2real * (h * u) + u * u;
    assert(s * u == h * h * u - 2real * (h * u * u) + u * u * u) by(nonlinear_arith) requires s == h * h - 2real * (h * u) + u * u;
}
// the weight of m0, for c = (h - u)^3 / 6 and be = u^3 / 6 / h
proof fn weight(h: real, u: real, al: real, be: real)
    requires h > 0real, al * h == (h - u) * (h - u) * (h - u) / 6real, be * h == u * u * u / 6real
    ensures al == h * h / 6real - h * u / 2real + u * u / 2real - be
{
    cube_of_difference(h, u);
    let (a, b, c) = (h * h, h * u, u * u);
    let ga = a / 6real - b / 2real + c / 2real - be;
    assert(ga * h == a * h / 6real - b * h / 2real + c * h / 2real - be * h) by(nonlinear_arith) requires ga == a / 6real - b / 2real + c / 2real - be;
    assert(b * h == h * h * u && c * h == h * u * u) by(nonlinear_arith) requires b == h * u, c == u * u;
    cancel(al, ga, h);
}
proof fn four_terms(h: real, u: real, al: real, be: real, e0: real, e1: real, g: real, m0: real, m1: real, y0: real, a: real, z: real)
    requires
        al == h * h / 6real - h * u / 2real + u * u / 2real - be, g == h / 6real, e0 * h == y0,
        a == e1 - e0 - h * (2real * m0 + m1) / 6real, z == be * (m1 - m0),
    ensures al * m0 + be * m1 + (h - u) * (e0 - g * m0) + u * (e1 - g * m1) == y0 + a * u + m0 / 2real * u * u + z
{
    let (hh, hu, uu) = (h * h, h * u, u * u);
    assert(al * m0 == (hh * m0) / 6real - (hu * m0) / 2real + (uu * m0) / 2real - be * m0) by(nonlinear_arith) requires al == hh / 6real - hu / 2real + uu / 2real - be;
    assert(z == be * m1 - be * m0) by(nonlinear_arith) requires z == be * (m1 - m0);
    let gm = g * m0;
    assert((h - u) * (e0 - gm) == h * e0 - u * e0 - h * gm + u * gm) by(nonlinear_arith);
    assert(h * gm == (hh * m0) / 6real) by(nonlinear_arith) requires gm == g * m0, g == h / 6real, hh == h * h;
    assert(u * gm == (hu * m0) / 6real) by(nonlinear_arith) requires gm == g * m0, g == h / 6real, hu == h * u;
    let gn = g * m1;
    assert(u * (e1 - gn) == u * e1 - u * gn) by(nonlinear_arith);
    assert(u * gn == (hu * m1) / 6real) by(nonlinear_arith) requires gn == g * m1, g == h / 6real, hu == h * u;
    let q = h * (2real * m0 + m1);
    assert(q == 2real * (h * m0) + h * m1) by(nonlinear_arith) requires q == h * (2real * m0 + m1);
    assert(a * u == e1 * u - e0 * u - (q * u) / 6real) by(nonlinear_arith) requires a == e1 - e0 - q / 6real;
    let (hm, hn) = (h * m0, h * m1);
    assert(q * u == 2real * (hm * u) + hn * u) by(nonlinear_arith) requires q == 2real * hm + hn;
    assert(hm * u == hu * m0) by(nonlinear_arith) requires hm == h * m0, hu == h * u;
    assert(hn * u == hu * m1) by(nonlinear_arith) requires hn == h * m1, hu == h * u;
    assert(m0 / 2real * u * u == (uu * m0) / 2real) by(nonlinear_arith) requires uu == u * u;
    assert(h * e0 == e0 * h && u * e0 == e0 * u && u * e1 == e1 * u) by(nonlinear_arith);
}
// b u^3 = u^3 / (6 h) (m1 - m0)
proof fn cubic_term(h: real, u: real, b: real, be: real, m: real)
    requires h > 0real, b * h == m / 6real, be * h == u * u * u / 6real
    ensures b * u * u * u == be * m
{
    let c = u * u * u;
    assert(b * u * u * u == b * c) by(nonlinear_arith) requires c == u * u * u;
    let (w, z) = (b * c, be * m);
    assert(w * h == (b * h) * c) by(nonlinear_arith) requires w == b * c;
    assert(z * h == (be * h) * m) by(nonlinear_arith) requires z == be * m;
    assert(m / 6real * c == c / 6real * m) by(nonlinear_arith);
    cancel(w, z, h);
}
// what the source computes is that polynomial
proof fn segment_form(h: real, u: real, y0: real, y1: real, m0: real, m1: real)
    requires h > 0real
    ensures
        (h - u) * (h - u) * (h - u) / 6real / h * m0 + u * u * u / 6real / h * m1 + (h - u) * (y0 / h - h / 6real * m0) + u * (y1 / h - h / 6real * m1)
            == segment(h, y0, y1, m0, m1, u)
{
    let al = (h - u) * (h - u) * (h - u) / 6real / h;
    let be = u * u * u / 6real / h;
    div_back((h - u) * (h - u) * (h - u) / 6real, h);
    div_back(u * u * u / 6real, h);
    weight(h, u, al, be);
    let (e0, e1) = (y0 / h, y1 / h);
    div_back(y0, h);
    div_back(y1, h);
    div_back(y1 - y0, h);
    let s = (y1 - y0) / h;
    assert((e1 - e0) * h == e1 * h - e0 * h) by(nonlinear_arith);
    cancel(s, e1 - e0, h);
    let b = a3(h, m0, m1);
    let m = m1 - m0;
    assert(b * h == m / 6real) by(nonlinear_arith) requires h > 0real, b == m / (6real * h);
    cubic_term(h, u, b, be, m);
    four_terms(h, u, al, be, e0, e1, h / 6real, m0, m1, y0, a1(h, y1 - y0, m0, m1), be * m);
}
// a row of the system with the boundary terms is the equation of its knot
proof fn right_side(h0: real, h1: real, ym: real, y: real, yp: real)
    requires h0 > 0real, h1 > 0real
    ensures
        -(1real / h0 + 1real / h1) * y + 1real / h1 * yp + 1real / h0 * ym == (yp - y) / h1 - (y - ym) / h0,
        1real / h1 * yp == yp / h1, 1real / h0 * ym == ym / h0,
{
    let (r0, r1) = (1real / h0, 1real / h1);
    assert(r1 * yp == yp / h1) by(nonlinear_arith) requires h1 > 0real, r1 == 1real / h1;
    assert(r0 * ym == ym / h0) by(nonlinear_arith) requires h0 > 0real, r0 == 1real / h0;
    assert(r1 * (yp - y) == (yp - y) / h1) by(nonlinear_arith) requires h1 > 0real, r1 == 1real / h1;
    assert(r0 * (y - ym) == (y - ym) / h0) by(nonlinear_arith) requires h0 > 0real, r0 == 1real / h0;
    assert(-(r0 + r1) * y + r1 * yp + r0 * ym == r1 * (yp - y) - r0 * (y - ym)) by(nonlinear_arith);
}
// THE SPLINE (C19): on the points of a fit, the cubics of neighbouring segments meet with their values,
// their first and their second derivatives, and the curvature vanishes at both ends
proof fn natural_spline(raw: Seq<(R, R)>, p: Seq<Point2DWithSlope>)
    requires fitted_cubic(raw, p), good(raw)
    ensures
        strict(p), real_points3(p),
        curvature_at(p, 0, 0real) == 0real, curvature_at(p, p.len() - 2, width(p, p.len() - 2)) == 0real,
        forall|j: int| 0 < j < p.len() - 1 ==> {
            &&& #[trigger] spline_at(p, j, 0real) == spline_at(p, j - 1, width(p, j - 1))
            &&& slope_at(p, j, 0real) == slope_at(p, j - 1, width(p, j - 1))
            &&& curvature_at(p, j, 0real) == curvature_at(p, j - 1, width(p, j - 1))
        }
{
    let (n, d) = (p.len() as int, curvatures(p));
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies (#[trigger] p[i].sx()).v() < (#[trigger] p[j].sx()).v() by { assert(raw[i].0.v() < raw[j].0.v()); }
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] real_point3(p[i]) by { assert(raw[i].0.f() && raw[i].1.f()); assert(d[i].f()); }
    segment_ends(width(p, 0), p[0].coordinate.y.v(), p[1].coordinate.y.v(), p[0].dydx.v(), p[1].dydx.v());
    segment_ends(width(p, n - 2), p[n - 2].coordinate.y.v(), p[n - 1].coordinate.y.v(), p[n - 2].dydx.v(), p[n - 1].dydx.v());
    assert forall|j: int| 0 < j < p.len() - 1 implies {
            &&& #[trigger] spline_at(p, j, 0real) == spline_at(p, j - 1, width(p, j - 1))
            &&& slope_at(p, j, 0real) == slope_at(p, j - 1, width(p, j - 1))
            &&& curvature_at(p, j, 0real) == curvature_at(p, j - 1, width(p, j - 1))
        } by {
        assert(spline_equation(raw, d, j));
        let (h0, h1) = (hh(raw, j - 1), hh(raw, j));
        let (ma, mb, mc) = (d[j - 1].v(), d[j].v(), d[j + 1].v());
        assert(p[j - 1].sx().v() < p[j].sx().v() && p[j].sx().v() < p[j + 1].sx().v());
        segment_ends(h0, p[j - 1].coordinate.y.v(), p[j].coordinate.y.v(), ma, mb);
        segment_ends(h1, p[j].coordinate.y.v(), p[j + 1].coordinate.y.v(), mb, mc);
        assert(h0 / 6real * ma == h0 * ma / 6real && (h0 + h1) / 3real * mb == h0 * mb / 3real + h1 * mb / 3real && h1 / 6real * mc == h1 * mc / 6real) by(nonlinear_arith);
    }
}
//@ fn NaturalCubic::try_fit
    ensures
        fitted(abscissae(raw_points@), 3, res),
        res matches Ok(l) ==> fitted_cubic(raw_points@, l.points@)
//@ loop NaturalCubic::try_fit 0
    invariant
        3 <= raw_points@.len(),
        m@.len() == it0.index@, b_diagonals@.len() == it0.index@, c_diagonals@.len() == it0.index@,
        b_lower_diagonals@.len() == if it0.index@ > 0 { it0.index@ - 1 } else { 0 }, c_lower_diagonals@.len() == b_lower_diagonals@.len(),
        b_upper_diagonals@.len() == if it0.index@ < raw_points@.len() - 2 { it0.index@ } else { raw_points@.len() - 3 }, c_upper_diagonals@.len() == b_upper_diagonals@.len(),
        good(raw_points@) ==> {
            &&& forall|k: int| 0 <= k < b_lower_diagonals@.len() ==> #[trigger] sixth_at(b_lower_diagonals@, raw_points@, k)
            &&& forall|k: int| 0 <= k < c_lower_diagonals@.len() ==> #[trigger] recip_at(c_lower_diagonals@, raw_points@, k)
            &&& forall|k: int| 0 <= k < b_upper_diagonals@.len() ==> #[trigger] sixth_at(b_upper_diagonals@, raw_points@, k)
            &&& forall|k: int| 0 <= k < c_upper_diagonals@.len() ==> #[trigger] recip_at(c_upper_diagonals@, raw_points@, k)
            &&& forall|k: int| 0 <= k < it0.index@ ==> #[trigger] third_at(b_diagonals@, raw_points@, k)
            &&& forall|k: int| 0 <= k < it0.index@ ==> #[trigger] recips_at(c_diagonals@, raw_points@, k)
            &&& forall|k: int| 0 <= k < it0.index@ ==> #[trigger] boundary_at(m@, raw_points@, k)
        }
//@ loopstart NaturalCubic::try_fit 0
    let ghost (bl0, cl0, bu0, cu0, bd0, cd0, m0) = (b_lower_diagonals@, c_lower_diagonals@, b_upper_diagonals@, c_upper_diagonals@, b_diagonals@, c_diagonals@, m@);
    proof { if good(raw_points@) {
        assert(raw_points@[i - 1].0.v() < raw_points@[i as int].0.v() && raw_points@[i as int].0.v() < raw_points@[i + 1].0.v());
        assert(raw_points@[i - 1].0.f() && raw_points@[i - 1].1.f() && raw_points@[i as int].1.f() && raw_points@[i + 1].1.f());
    } }
//@ loopend NaturalCubic::try_fit 0
    proof { if good(raw_points@) {
        let raw = raw_points@;
        assert(hh(raw, i - 1) == h.v() && hh(raw, i as int) == h_next.v());
        assert forall|k: int| 0 <= k < b_lower_diagonals@.len() implies #[trigger] sixth_at(b_lower_diagonals@, raw, k) by { if k < bl0.len() { assert(sixth_at(bl0, raw, k)); } }
        assert forall|k: int| 0 <= k < c_lower_diagonals@.len() implies #[trigger] recip_at(c_lower_diagonals@, raw, k) by { if k < cl0.len() { assert(recip_at(cl0, raw, k)); } }
        assert forall|k: int| 0 <= k < b_upper_diagonals@.len() implies #[trigger] sixth_at(b_upper_diagonals@, raw, k) by { if k < bu0.len() { assert(sixth_at(bu0, raw, k)); } }
        assert forall|k: int| 0 <= k < c_upper_diagonals@.len() implies #[trigger] recip_at(c_upper_diagonals@, raw, k) by { if k < cu0.len() { assert(recip_at(cu0, raw, k)); } }
        assert forall|k: int| 0 <= k < i implies #[trigger] third_at(b_diagonals@, raw, k) by { if k < i - 1 { assert(third_at(bd0, raw, k)); } }
        assert forall|k: int| 0 <= k < i implies #[trigger] recips_at(c_diagonals@, raw, k) by { if k < i - 1 { assert(recips_at(cd0, raw, k)); } }
        assert forall|k: int| 0 <= k < i implies #[trigger] boundary_at(m@, raw, k) by { if k < i - 1 { assert(boundary_at(m0, raw, k)); } }
    } }
//@ after NaturalCubic::try_fit 0
    let ghost (bl, cl, bu, cu, bd, cd, mm) = (b_lower_diagonals@, c_lower_diagonals@, b_upper_diagonals@, c_upper_diagonals@, b_diagonals@, c_diagonals@, m@);
    proof { if good(raw_points@) {
        let raw = raw_points@;
        assert forall|k: int| 0 <= k < bl.len() implies (#[trigger] bl[k]).f() && bl[k].v() >= 0real by { assert(sixth_at(bl, raw, k)); assert(raw[k + 1].0.v() < raw[k + 2].0.v()); }
        assert forall|k: int| 0 <= k < bu.len() implies (#[trigger] bu[k]).f() && bu[k].v() >= 0real by { assert(sixth_at(bu, raw, k)); assert(raw[k + 1].0.v() < raw[k + 2].0.v()); }
        assert forall|k: int| 0 <= k < bd.len() implies (#[trigger] bd[k]).f() && bd[k].v() > lo(bl, k) + up(bu, k) by {
            assert(third_at(bd, raw, k)); assert(raw[k].0.v() < raw[k + 1].0.v()); assert(raw[k + 1].0.v() < raw[k + 2].0.v());
            if k > 0 { assert(sixth_at(bl, raw, k - 1)); }
            if k < bu.len() { assert(sixth_at(bu, raw, k)); }
        }
        assert(dominant(bl, bd, bu));
        assert forall|k: int| 0 <= k < cl.len() implies (#[trigger] cl[k]).f() by { assert(recip_at(cl, raw, k)); }
        assert forall|k: int| 0 <= k < cu.len() implies (#[trigger] cu[k]).f() by { assert(recip_at(cu, raw, k)); }
        assert forall|k: int| 0 <= k < cd.len() implies (#[trigger] cd[k]).f() by { assert(recips_at(cd, raw, k)); }
        assert forall|k: int| 0 <= k < mm.len() implies (#[trigger] mm[k]).f() by { assert(boundary_at(mm, raw, k)); }
    } }
//@ loop NaturalCubic::try_fit 1
    invariant
        3 <= raw_points@.len(), it1.seq().len() == raw_points@.len() - 2,
        forall|k: int| 0 <= k < it1.seq().len() ==> *(#[trigger] it1.seq()[k]) == raw_points@[k + 1],
        y@.len() == it1.index@, forall|k: int| 0 <= k < it1.index@ ==> (#[trigger] y@[k]) == raw_points@[k + 1].1
//@ after NaturalCubic::try_fit 1
    let ghost yy = y@;
    proof { if good(raw_points@) { assert(finite(yy)); } }
//@ before NaturalCubic::try_fit 2
    let ghost yd = y2@;
    proof { if good(raw_points@) {
        let raw = raw_points@;
        assert forall|k: int| 0 <= k < rhs.e@.len() implies is(#[trigger] rhs.e@[k], row_times(cl, cd, cu, yy, k) + mm[k].v()) by {}
        assert(solves(bl, bd, bu, yd, rhs.e@));
    } }
//@ loop NaturalCubic::try_fit 2
    invariant
        it2.seq() == yd, derivatives@.len() == it2.index@ + 1, derivatives@[0]@ == Ext::Fin(0real),
        forall|k: int| 0 <= k < it2.index@ ==> #[trigger] derivatives@[k + 1] == yd[k]
//@ before NaturalCubic::try_fit 3
    let ghost dd = derivatives@;
    proof {
        assert forall|j: int| 0 < j < dd.len() - 1 implies #[trigger] dd[j] == yd[j - 1] by { assert(dd[(j - 1) + 1] == yd[j - 1]); }
        if good(raw_points@) {
            let (raw, n) = (raw_points@, raw_points@.len() as int);
            assert forall|j: int| 0 <= j < n implies (#[trigger] dd[j]).f() by { if 0 < j < n - 1 { assert(yd[j - 1].f()); } }
            assert forall|j: int| 0 < j < n - 1 implies #[trigger] spline_equation(raw, dd, j) by {
                let k = j - 1;
                assert(row_times(bl, bd, bu, yd, k) == rhs.e@[k].v());
                assert(is(rhs.e@[k], row_times(cl, cd, cu, yy, k) + mm[k].v()));
                assert(third_at(bd, raw, k) && recips_at(cd, raw, k) && boundary_at(mm, raw, k));
                let (h0, h1) = (hh(raw, j - 1), hh(raw, j));
                assert(raw[j - 1].0.v() < raw[j].0.v() && raw[j].0.v() < raw[j + 1].0.v());
                right_side(h0, h1, raw[j - 1].1.v(), raw[j].1.v(), raw[j + 1].1.v());
                assert(h0 / 6real * 0real == 0real && h1 / 6real * 0real == 0real) by(nonlinear_arith);
                assert(0real * value(yd, k + 1) == 0real && 0real * value(yd, k - 1) == 0real && 0real * value(yy, k + 1) == 0real && 0real * value(yy, k - 1) == 0real) by(nonlinear_arith);
                assert(yy[k] == raw[j].1 && dd[j] == yd[k]);
                if j > 1 { assert(sixth_at(bl, raw, k - 1) && recip_at(cl, raw, k - 1)); assert(yy[k - 1] == raw[j - 1].1); assert(dd[j - 1] == yd[k - 1]); }
                if j < n - 2 { assert(sixth_at(bu, raw, k) && recip_at(cu, raw, k)); assert(yy[k + 1] == raw[j + 1].1); assert(dd[j + 1] == yd[k + 1]); }
            }
            assert(natural(raw, dd));
        }
    }
//@ loop NaturalCubic::try_fit 3
    invariant
        3 <= raw_points@.len() == dd.len(), it3.seq().len() == raw_points@.len(),
        forall|k: int| 0 <= k < it3.seq().len() ==> *(#[trigger] it3.seq()[k]).0 == raw_points@[k] && it3.seq()[k].1 == dd[k],
        knots_with(raw_points@, dd, points@, it3.index@),
        temp == raw_points@[if it3.index@ > 0 { it3.index@ - 1 } else { 0 }].0,
        scanned(abscissae(raw_points@), it3.index@), raw_points@.len() <= usize::MAX
//@ loopstart NaturalCubic::try_fit 3
    proof { let xs = abscissae(raw_points@); let i = it3.index@; if i > 0 { assert(descends_at(xs, i - 1) == lt(raw_points@[i].0@, raw_points@[i - 1].0@)); assert(!(rises_at(xs, i - 1) && descends_at(xs, i - 1))); } }
//@ tail NaturalCubic::try_fit
    proof { assert(curvatures(qv_self.points@) =~= dd); }
//@ fn NaturalCubic::try_value
    ensures
        answered(self.points@, x, res),
        // C19
        forall|i: int| #[trigger] inside(self.points@, i, x) && strict(self.points@) && real_points3(self.points@)
            ==> gives(res, spline_at(self.points@, i, x.v() - self.points@[i].coordinate.x.v())),
        // C16
        forall|i: int| #[trigger] at_knot(self.points@, i, x) && strict(self.points@) && self.points@.len() >= 2 && real_points3(self.points@)
            ==> gives(res, self.points@[i].coordinate.y.v()),
//@ tail NaturalCubic::try_value
    proof {
        let p = self.points@; let k = pos as int; let n = p.len() as int;
        if strict(p) && real_points3(p) && x.f() {
            strict_ordered(p);
            assert(bracket(p, k, x));
            assert(real_point3(p[k]) && real_point3(p[k + 1]));
            assert forall|i: int| #[trigger] inside(p, i, x) implies i == k by { bracket_inside(p, k, i, x); }
            assert forall|i: int| #[trigger] at_knot(p, i, x) implies i == k || i == k + 1 by { bracket_knot(p, k, i, x); }
            assert(p[k].sx().v() < p[k + 1].sx().v());
            let (w, u) = (width(p, k), x.v() - p[k].coordinate.x.v());
            segment_form(w, u, p[k].coordinate.y.v(), p[k + 1].coordinate.y.v(), p[k].dydx.v(), p[k + 1].dydx.v());
            segment_ends(w, p[k].coordinate.y.v(), p[k + 1].coordinate.y.v(), p[k].dydx.v(), p[k + 1].dydx.v());
            assert(w - u == p[k + 1].coordinate.x.v() - x.v());
        }
    }

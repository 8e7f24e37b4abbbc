// CUBICS. The cubic on [x0, x1] with ordinates y0, y1 and slopes s0, s1.
spec fn c2(h: real, dy: real, s0: real, s1: real) -> real { (3real * (dy / h) - 2real * s0 - s1) / h }
spec fn c3(h: real, dy: real, s0: real, s1: real) -> real { (s0 + s1 - 2real * (dy / h)) / h / h }
spec fn cubic_at(h: real, y0: real, y1: real, s0: real, s1: real, u: real) -> real {
    y0 + s0 * u + c2(h, y1 - y0, s0, s1) * u * u + c3(h, y1 - y0, s0, s1) * u * u * u
}
// the derivative of the polynomial above
spec fn cubic_slope_at(h: real, y0: real, y1: real, s0: real, s1: real, u: real) -> real {
    s0 + 2real * c2(h, y1 - y0, s0, s1) * u + 3real * c3(h, y1 - y0, s0, s1) * u * u
}
proof fn coefficients(h: real, dy: real, s0: real, s1: real)
    requires h > 0real
    ensures
        c2(h, dy, s0, s1) * h * h == 3real * dy - 2real * (s0 * h) - s1 * h,
        c3(h, dy, s0, s1) * h * h * h == s0 * h + s1 * h - 2real * dy,
{
    let d = dy / h;
    assert(d * h == dy) by(nonlinear_arith) requires h > 0real, d == dy / h;
    let a = 3real * d - 2real * s0 - s1;
    let q = a / h;
    assert(q * h == a) by(nonlinear_arith) requires h > 0real, q == a / h;
    assert(q * h * h == 3real * (d * h) - 2real * (s0 * h) - s1 * h) by(nonlinear_arith) requires q * h == a, a == 3real * d - 2real * s0 - s1;
    let b = s0 + s1 - 2real * d;
    let r = b / h;
    assert(r * h == b) by(nonlinear_arith) requires h > 0real, r == b / h;
    let t = r / h;
    assert(t * h == r) by(nonlinear_arith) requires h > 0real, t == r / h;
    assert(t * h * h * h == s0 * h + s1 * h - 2real * (d * h)) by(nonlinear_arith) requires t * h == r, r * h == b, b == s0 + s1 - 2real * d;
}
// it has the ordinates and the slopes (C18, C20)
proof fn cubic_conditions(h: real, y0: real, y1: real, s0: real, s1: real)
    requires h > 0real
    ensures
        cubic_at(h, y0, y1, s0, s1, 0real) == y0,
        cubic_at(h, y0, y1, s0, s1, h) == y1,
        cubic_slope_at(h, y0, y1, s0, s1, 0real) == s0,
        cubic_slope_at(h, y0, y1, s0, s1, h) == s1,
{
    coefficients(h, y1 - y0, s0, s1);
    let (a, b) = (c2(h, y1 - y0, s0, s1), c3(h, y1 - y0, s0, s1));
    assert(s0 * 0real + a * 0real * 0real + b * 0real * 0real * 0real == 0real) by(nonlinear_arith);
    assert(2real * a * 0real + 3real * b * 0real * 0real == 0real) by(nonlinear_arith);
    assert((s0 + 2real * a * h + 3real * b * h * h - s1) * h == s0 * h + 2real * (a * h * h) + 3real * (b * h * h * h) - s1 * h) by(nonlinear_arith);
    let z = s0 + 2real * a * h + 3real * b * h * h - s1;
    assert(z == 0real) by(nonlinear_arith) requires z * h == 0real, h > 0real;
}
// no other cubic has: two cubics with the same ordinates and slopes at both ends agree
proof fn cubic_unique(h: real, y0: real, y1: real, s0: real, s1: real, a0: real, a1: real, a2: real, a3: real)
    requires
        h > 0real, a0 == y0, a1 == s0,
        a0 + a1 * h + a2 * h * h + a3 * h * h * h == y1,
        a1 + 2real * a2 * h + 3real * a3 * h * h == s1,
    ensures a2 == c2(h, y1 - y0, s0, s1), a3 == c3(h, y1 - y0, s0, s1)
{
    coefficients(h, y1 - y0, s0, s1);
    let (a, b) = (c2(h, y1 - y0, s0, s1), c3(h, y1 - y0, s0, s1));
    let dy = y1 - y0;
    assert((a1 + 2real * a2 * h + 3real * a3 * h * h) * h == a1 * h + 2real * (a2 * h * h) + 3real * (a3 * h * h * h)) by(nonlinear_arith);
    assert(a2 * h * h == a * h * h && a3 * h * h * h == b * h * h * h);
    assert(a2 == a) by(nonlinear_arith) requires a2 * h * h == a * h * h, h > 0real;
    assert(a3 == b) by(nonlinear_arith) requires a3 * h * h * h == b * h * h * h, h > 0real;
}
// the cubic in the fraction t of the segment
proof fn cubic_scaled(h: real, y0: real, y1: real, s0: real, s1: real, u: real, t: real, p: real, q: real)
    requires h > 0real, t == u / h, p == s0 * h, q == s1 * h
    ensures cubic_at(h, y0, y1, s0, s1, u) == y0 + p * t + (3real * (y1 - y0) - 2real * p - q) * (t * t) + (p + q - 2real * (y1 - y0)) * (t * t * t)
{
    coefficients(h, y1 - y0, s0, s1);
    let (a, b) = (c2(h, y1 - y0, s0, s1), c3(h, y1 - y0, s0, s1));
    assert(u == t * h) by(nonlinear_arith) requires h > 0real, t == u / h;
    assert(s0 * u == p * t) by(nonlinear_arith) requires u == t * h, p == s0 * h;
    assert(a * u * u == (a * h * h) * (t * t)) by(nonlinear_arith) requires u == t * h;
    assert(b * u * u * u == (b * h * h * h) * (t * t * t)) by(nonlinear_arith) requires u == t * h;
}


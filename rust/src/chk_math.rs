//! C15-C26: interpolation, curves, bonds. Every contract is evaluated in the exact field `Fp` and,
//! with a tolerance, in f64.

use crate::check;
use crate::chk_time::date;
use crate::engine::*;
use crate::fp::Fp;
use crate::spec;
use qlab_error::{ComputeError, InterpolationError, QLabError};
use qlab_instrument::bond::Bond;
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::catmull_rom::CatmullRom;
use qlab_math::interpolation::spline::hermite::Hermite;
use qlab_math::interpolation::spline::natural_cubic::NaturalCubic;
use qlab_math::interpolation::Interpolator;
use qlab_math::value::Value;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::day_count::act_360::Act360;
use qlab_time::day_count::act_365::Act365;
use qlab_time::day_count::thirty_360::Thirty360;
use qlab_time::day_count::DayCount;
use qlab_time::frequency::Frequency;
use std::cell::RefCell;

type T = (i64, i64, i64);

/// A value type the contracts are evaluated in: sixteenths of integers in, approximate equality out.
pub trait Num: Value {
    fn of(n: i64) -> Self;
    fn approx(self) -> f64;
    fn pow2(e: i64) -> Self {
        (0..e.abs()).fold(Self::one(), |a, _| if e < 0 { a / k(2) } else { a * k(2) })
    }
    /// equality, of quantities whose computation involves numbers up to about `scale`
    fn same(self, o: Self, scale: f64) -> bool;
}
impl Num for Fp {
    fn of(n: i64) -> Fp {
        Fp::ratio(n, 16)
    }
    fn approx(self) -> f64 {
        self.a
    }
    fn same(self, o: Fp, _: f64) -> bool {
        self == o
    }
}
impl Num for f64 {
    fn of(n: i64) -> f64 {
        n as f64 / 16.0
    }
    fn approx(self) -> f64 {
        self
    }
    fn same(self, o: f64, scale: f64) -> bool {
        self.is_finite() && o.is_finite() && (self - o).abs() <= 1e-8 * scale.max(self.abs()).max(o.abs()).max(1.0)
    }
}
fn k<V: Num>(n: i64) -> V {
    V::from_i64(n).unwrap()
}

// ---------------------------------------------------------------- the four interpolants

const LINEAR: i64 = 0;
const HERMITE: i64 = 1;
const NATURAL: i64 = 2;
const CATMULL: i64 = 3;
const KINDS: [&str; 4] = ["linear", "hermite", "natural cubic", "Catmull-Rom"];

enum Fitted<V: Value> {
    L(Linear<V>),
    H(Hermite<V>),
    N(NaturalCubic<V>),
    C(CatmullRom<V>),
}
impl<V: Num> Fitted<V> {
    fn fit(kind: i64, x: &[V], y: &[V], m: &[V]) -> Result<Self, InterpolationError<V>> {
        let p: Vec<(V, V)> = x.iter().copied().zip(y.iter().copied()).collect();
        let f = match kind {
            // one in four is fitted to other points before, which must leave no trace
            LINEAR => Fitted::L(before::<V, Linear<V>>(&p).try_fit(&p)?),
            NATURAL => Fitted::N(before::<V, NaturalCubic<V>>(&p).try_fit(&p)?),
            CATMULL => Fitted::C(before::<V, CatmullRom<V>>(&p).try_fit(&p)?),
            _ => {
                let p: Vec<(V, V, V)> = p.iter().zip(m).map(|(p, m)| (p.0, p.1, *m)).collect();
                Fitted::H(Hermite::try_new(&p)?)
            }
        };
        // some have answered another query before, which must leave no trace either
        let h = y.first().map_or(0, |v| v.to_i64().unwrap_or(0) % 1_000_003) + y.last().map_or(0, |v| v.to_i64().unwrap_or(0) % 1_000_003);
        if x.len() > 1 && h % 2 == 0 {
            let j = h.rem_euclid(3 * x.len() as i64) as usize / 3;
            unheard(|| f.at(if h % 3 == 0 || j + 1 == x.len() { x[j] } else { (x[j] + x[j + 1]) / k(2) }));
        }
        Ok(f)
    }
    fn at(&self, x: V) -> Result<V, InterpolationError<V>> {
        match self {
            Fitted::L(i) => i.try_value(x),
            Fitted::H(i) => i.try_value(x),
            Fitted::N(i) => i.try_value(x),
            Fitted::C(i) => i.try_value(x),
        }
    }
}
/// a query whose answer, or panic, is of no interest
fn unheard<T>(f: impl FnOnce() -> T) {
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
}
fn before<V: Num, I: Interpolator<Value = V>>(p: &[(V, V)]) -> I {
    let i = I::default();
    let h = p.first().map_or(0, |p| p.1.to_i64().unwrap_or(0) % 1_000_003);
    if h % 4 != 1 {
        return i;
    }
    let other: Vec<(V, V)> = (0..3 + h.rem_euclid(3)).map(|j| (V::of(40 * j - 3 * h), V::of(j * j + h))).collect();
    match i.try_fit(&other) {
        Ok(i) => {
            unheard(|| i.try_value(other[other.len() - 1].0 - V::one()));
            i
        }
        Err(_) => panic!("a fit of {} increasing points failed", other.len()),
    }
}
fn kind_error<V>(e: &InterpolationError<V>) -> &'static str {
    match e {
        InterpolationError::PointOrderError => "PointOrderError",
        InterpolationError::OutOfLowerBound(_) => "OutOfLowerBound",
        InterpolationError::OutOfUpperBound(_) => "OutOfUpperBound",
        InterpolationError::InsufficientPointsError(_) => "InsufficientPointsError",
    }
}
/// sizes that hand-written blocking, caching or fixed buffers might mind
fn size(r: &mut Rng) -> i64 {
    if let Some(n) = r.word(3, 2000) {
        return n;
    }
    match r.int(0, 3) {
        0 => r.int(10, 300),
        1 => *r.pick(&[50, 100, 200, 250, 300]) + r.int(-1, 1),
        _ => (1 << r.int(3, 8)) + r.int(-1, 3),
    }
}
/// The inputs of one case, in sixteenths; abscissae times 2^sx, ordinates times 2^sy, slopes accordingly.
#[derive(Clone)]
struct Knots {
    kind: i64,
    sx: i64,
    sy: i64,
    x: Vec<i64>,
    y: Vec<i64>,
    m: Vec<i64>,
}
impl Knots {
    fn enc(&self) -> String {
        format!("kind={} sx={} sy={} x={} y={} m={}", self.kind, self.sx, self.sy, join(&self.x), join(&self.y), join(&self.m))
    }
    fn key(&self) -> i64 {
        let mut v = vec![self.kind, self.sx, self.sy];
        v.extend(&self.x);
        v.extend(&self.y);
        v.extend(&self.m);
        hash(&v) as i64
    }
    fn parse(i: &Input) -> Knots {
        Knots { kind: i.int("kind"), sx: i.int("sx"), sy: i.int("sy"), x: i.list("x"), y: i.list("y"), m: i.list("m") }
    }
    fn vals<V: Num>(&self) -> (Vec<V>, Vec<V>, Vec<V>) {
        let f = |v: &Vec<i64>, e: i64| {
            let u = V::pow2(e);
            v.iter().map(|&n| V::of(n) * u).collect()
        };
        (f(&self.x, self.sx), f(&self.y, self.sy), f(&self.m, self.sy - self.sx))
    }
    fn at<V: Num>(&self, q: i64) -> V {
        V::of(q) * V::pow2(self.sx)
    }
    /// an ordinate in its natural unit
    fn unit<V: Num>(&self, v: V) -> V {
        v * V::pow2(-self.sy)
    }
    /// knots a few units in the last place apart: floating point only, the order of `Fp` is coarser
    fn fine(&self) -> bool {
        self.x.iter().any(|v| v.abs() > 1 << 40)
    }
    fn scale(&self) -> f64 {
        self.y.iter().chain(&self.m).map(|v| v.abs() as f64).fold(1.0, f64::max)
    }
    /// strictly increasing abscissae
    fn random(r: &mut Rng, kind: i64, min: i64, max: i64) -> Knots {
        let n = match r.int(0, 79) {
            0 => r.word(3, 12_000).unwrap_or_else(|| size(r)),
            1..=4 => r.int(max, 5 * max),
            _ => r.int(min, max),
        };
        let y: Vec<i64> = (0..n).map(|_| r.word(-1 << 20, 1 << 20).map_or_else(|| r.int(-200, 200), |w| 16 * w)).collect();
        let m: Vec<i64> = (0..n).map(|_| r.int(-100, 100)).collect();
        // coincidences that a special case might be about: equal, zero, symmetric or monotone data, equal steps
        let special = r.int(0, 6) == 0;
        let (mut y, mut m) = (y, m);
        if special {
            let few = *r.pick(&[&[0, 16][..], &[0], &[-16, 0, 16], &[5, 5, 5, 90], &[-7, 7]]);
            for v in &mut y {
                *v = *r.pick(few);
            }
            match r.int(0, 3) {
                0 => m.fill(0),
                1 => m.iter_mut().zip(&y).for_each(|(m, y)| *m = *y),
                2 => {
                    let few = *r.pick(&[&[0, 16][..], &[-16, 0, 16]]);
                    m.iter_mut().for_each(|m| *m = *r.pick(few))
                }
                _ => {}
            }
            match r.int(0, 5) {
                0 => y.sort(),
                1 => y.sort_by(|a, b| b.cmp(a)),
                2 => y.iter_mut().enumerate().for_each(|(i, y)| *y = 16 * i as i64 - 32),
                _ => {}
            }
        }
        let (mut sx, mut sy) = (0, 0);
        if r.int(0, 5) == 0 {
            sx = r.int(-90, 90);
            let other = r.int(-90, 90);
            sy = *r.pick(&[0, sx, other]);
        }
        sx = r.exponent(-90, 90).unwrap_or(sx);
        sy = r.exponent(-90, 90).unwrap_or(sy);
        if (kind == LINEAR || kind == HERMITE) && r.int(0, 15) == 0 {
            let mut x = vec![if r.int(0, 1) == 0 { r.int(1 << 51, 1 << 52) } else { -r.int(1 << 51, 1 << 52) }];
            while (x.len() as i64) < n {
                x.push(x[x.len() - 1] + if r.int(0, 1) == 0 { r.int(1, 9) } else { r.int(1, 1 << 44) });
            }
            x.truncate(n as usize);
            // beyond 2^53 they are not numbers of f64 any more
            x.retain(|v| v.abs() < 1 << 53);
            let n = x.len();
            return Knots { kind, sx: -52, sy: 0, x, y: y[..n].to_vec(), m: m[..n].to_vec() };
        }
        let mut x = vec![r.int(-160, 160)];
        let step = *r.pick(&[16, 16, 3, 64]);
        // steps of very different lengths
        let wild = n < 12 && r.int(0, 9) == 0;
        while (x.len() as i64) < n {
            let gap = r.word(1, 1 << 16).map(|w| 16 * w).or((special && n < 40).then_some(step));
            let gap = gap.or_else(|| wild.then(|| 1 << r.int(0, if kind == NATURAL { 7 } else { 12 })));
            x.push(x[x.len() - 1] + gap.unwrap_or_else(|| if r.int(0, 3) == 0 { step } else { r.int(1, 2 * step) }));
        }
        x.truncate(n as usize);
        Knots { kind, sx, sy, x, y, m }
    }
}

macro_rules! both {
    ($f:ident($($a:expr),*)) => {{
        $f::<f64>($($a),*)?;
        $f::<Fp>($($a),*)
    }};
}
macro_rules! knots_both {
    ($p:expr, $f:ident($($a:expr),*)) => {{
        $f::<f64>($($a),*)?;
        if $p.fine() {
            return Ok(());
        }
        $f::<Fp>($($a),*)
    }};
}

// ---------------------------------------------------------------- C15: classification of a query

fn query<V: Num>(p: &Knots, q: i64) -> R {
    let (x, y, m) = p.vals::<V>();
    let f = match Fitted::fit(p.kind, &x, &y, &m) {
        Ok(f) => f,
        Err(e) => return bad(format!("fit of {:?} failed: {}", p.x, kind_error(&e))),
    };
    let t = p.at::<V>(q);
    let r = f.at(t);
    let name = KINDS[p.kind as usize];
    match r {
        _ if x.len() < 2 => match r {
            Err(InterpolationError::InsufficientPointsError(n)) if n == x.len() => {}
            _ => return bad(format!("{name}: query on {} points is not InsufficientPointsError({})", x.len(), x.len())),
        },
        Ok(_) => check!(p.x[0] <= q && q <= p.x[p.x.len() - 1], "{name}: query {q}/16 outside {:?} has a value", p.x),
        Err(InterpolationError::OutOfLowerBound(v)) => check!(q < p.x[0] && v == t, "{name}: query {q}/16 of {:?} is OutOfLowerBound", p.x),
        Err(InterpolationError::OutOfUpperBound(v)) => check!(q > p.x[p.x.len() - 1] && v == t, "{name}: query {q}/16 of {:?} is OutOfUpperBound", p.x),
        Err(e) => return bad(format!("{name}: query {q}/16 of {:?} is {}", p.x, kind_error(&e))),
    }
    Ok(())
}
/// queries that are not ordinary numbers: NaN and the infinities
fn odd_query(p: &Knots, which: i64) -> R {
    let (x, y, m) = p.vals::<f64>();
    let Ok(f) = Fitted::fit(p.kind, &x, &y, &m) else { return bad("fit failed") };
    let t = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, f64::MAX, f64::MIN_POSITIVE][which as usize];
    let r = f.at(t);
    let name = KINDS[p.kind as usize];
    let (lo, hi) = (x.first().copied(), x.last().copied());
    let ok = match (&r, which) {
        _ if x.len() < 2 => matches!(r, Err(InterpolationError::InsufficientPointsError(n)) if n == x.len()),
        (r, 0) => matches!(r, Err(InterpolationError::OutOfLowerBound(_) | InterpolationError::OutOfUpperBound(_))),
        (Ok(_), _) => lo.unwrap() <= t && t <= hi.unwrap(),
        (Err(InterpolationError::OutOfLowerBound(v)), _) => t < lo.unwrap() && *v == t,
        (Err(InterpolationError::OutOfUpperBound(v)), _) => t > hi.unwrap() && *v == t,
        _ => false,
    };
    check!(ok, "{name}: query {t} of {x:?} is {:?}", r.as_ref().map_err(kind_error));
    Ok(())
}
fn c15(c: &mut Ctx) {
    let mut r = Rng::new(c.seed);
    for i in 0..if c.thorough { 1_000_000 } else { 200_000 } {
        let kind = r.int(0, 3);
        let mut p = Knots::random(&mut r, kind, if kind == LINEAR { 0 } else { 3 }, 7);
        if p.x.len() >= 2 && kind == LINEAR && r.int(0, 9) == 0 {
            // equal knots are allowed; only the classification is claimed for them
            let j = r.int(1, p.x.len() as i64 - 1) as usize;
            let d = p.x[j] - p.x[j - 1];
            for v in &mut p.x[j..] {
                *v -= d;
            }
        }
        let (lo, hi) = (p.x.first().copied().unwrap_or(0), p.x.last().copied().unwrap_or(0));
        let q = match r.int(0, 5) {
            0 => lo + r.int(-1, 1),
            1 => hi + r.int(-1, 1),
            2 if !p.x.is_empty() => *r.pick(&p.x) + r.int(-1, 1),
            3 => r.int(-2000, 2000),
            _ => r.int(lo - 3, hi + 3),
        };
        let strict = p.x.windows(2).all(|w| w[0] < w[1]);
        c.case(Some(hash(&[p.key(), q])), true, || format!("{} q={q}", p.enc()), || {
            query::<f64>(&p, q)?;
            if strict && !p.fine() {
                query::<Fp>(&p, q)?;
            }
            Ok(())
        });
        if i % 10 == 0 {
            let which = r.int(0, 5);
            c.case(Some(hash(&[p.key(), which, -1])), true, || format!("{} odd={which}", p.enc()), || odd_query(&p, which));
        }
    }
}

// ---------------------------------------------------------------- C16: through the knots

fn knots<V: Num>(p: &Knots) -> R {
    let (x, y, m) = p.vals::<V>();
    let name = KINDS[p.kind as usize];
    let Ok(f) = Fitted::fit(p.kind, &x, &y, &m) else { return bad(format!("{name}: fit of increasing knots failed")) };
    for i in 0..x.len() {
        match f.at(x[i]) {
            Ok(v) => check!(p.unit(v).same(p.unit(y[i]), p.scale()), "{name}: at knot {} of {:?} (y {:?}) the value is {}, expected {}", i, p.x, p.y, v.approx(), y[i].approx()),
            Err(e) => return bad(format!("{name}: at knot {} of {:?}: {}", i, p.x, kind_error(&e))),
        }
    }
    Ok(())
}
fn c16(c: &mut Ctx) {
    let mut r = Rng::new(c.seed);
    for _ in 0..if c.thorough { 400_000 } else { 100_000 } {
        let kind = r.int(0, 3);
        let p = Knots::random(&mut r, kind, if kind == LINEAR { 2 } else { 3 }, 9);
        c.case(Some(p.key() as u64), true, || p.enc(), || knots_both!(p, knots(&p)));
    }
}

// ---------------------------------------------------------------- C17-C20: between the knots

/// the value at `t` of the cubic Hermite polynomial on the segment
fn hermite<V: Num>(t: V, x0: V, x1: V, y0: V, y1: V, m0: V, m1: V) -> V {
    let h = x1 - x0;
    let s = (t - x0) / h;
    let (s2, s3) = (s * s, s * s * s);
    (k::<V>(2) * s3 - k::<V>(3) * s2 + V::one()) * y0
        + (s3 - k::<V>(2) * s2 + s) * h * m0
        + (k::<V>(3) * s2 - k::<V>(2) * s3) * y1
        + (s3 - s2) * h * m1
}
/// the segment of the knots that contains q, the left one at a knot
fn segment(x: &[i64], q: i64) -> usize {
    (0..x.len() - 1).find(|&i| q <= x[i + 1]).unwrap()
}
fn segments<V: Num>(p: &Knots, q: i64) -> R {
    let (x, y, m) = p.vals::<V>();
    let name = KINDS[p.kind as usize];
    let Ok(f) = Fitted::fit(p.kind, &x, &y, &m) else { return bad(format!("{name}: fit of increasing knots failed")) };
    let i = segment(&p.x, q);
    let t = p.at::<V>(q);
    let Ok(got) = f.at(t) else { return bad(format!("{name}: no value at {q}/16 of {:?}", p.x)) };
    let n = x.len();
    let (h, dy) = (x[i + 1] - x[i], y[i + 1] - y[i]);
    let chord = |a: usize, b: usize| (y[b] - y[a]) / (x[b] - x[a]);
    let mut known = None;
    let want = match p.kind {
        LINEAR => y[i] + dy / h * (t - x[i]),
        HERMITE => hermite(t, x[i], x[i + 1], y[i], y[i + 1], m[i], m[i + 1]),
        CATMULL => {
            let slope = |j: usize| chord(j.max(1) - 1, (j + 1).min(n - 1));
            if i == n - 2 {
                // known finding: the start slope of the last segment
                let s = (y[i + 1] - y[i - 1]) / (h + (x[i + 1] - x[i - 1]));
                known = Some(hermite(t, x[i], x[i + 1], y[i], y[i + 1], s, slope(i + 1)));
            }
            hermite(t, x[i], x[i + 1], y[i], y[i + 1], slope(i), slope(i + 1))
        }
        _ => unreachable!(),
    };
    let scale = p.scale() * 16.0;
    if p.unit(got).same(p.unit(want), scale) {
        return Ok(());
    }
    let msg = format!("{name}: at {q}/16 of x {:?} y {:?} slopes {:?} (sixteenths, times 2^{} and 2^{}) the value is {}, expected {}", p.x, p.y, p.m, p.sx, p.sy, got.approx(), want.approx());
    if known.is_some_and(|w| p.unit(got).same(p.unit(w), scale)) {
        return Err(Bad::Known("catmull-rom-last-segment", msg));
    }
    Err(Bad::Violation(msg))
}
fn between(c: &mut Ctx, kind: i64) {
    let mut r = Rng::new(c.seed);
    for _ in 0..if c.thorough { 1_000_000 } else { 200_000 } {
        let p = Knots::random(&mut r, kind, if kind == LINEAR { 2 } else { 3 }, 8);
        let (lo, hi) = (p.x[0], p.x[p.x.len() - 1]);
        let q = if r.int(0, 3) == 0 { (*r.pick(&p.x) + r.int(-5, 5)).clamp(lo, hi) } else { r.int(lo, hi) };
        c.case(Some(hash(&[p.key(), q])), !p.x.contains(&q), || format!("{} q={q}", p.enc()), || knots_both!(p, segments(&p, q)));
    }
}

// ---------------------------------------------------------------- C19: natural cubic spline

/// first and second derivative at s in 0..=1 of the cubic with values v at 0, 1/3, 2/3, 1
fn derivatives<V: Num>(v: [V; 4], s: V) -> (V, V) {
    let (one, two) = (V::one(), k::<V>(2));
    let c = |n: i64| k::<V>(n) / two;
    // Newton coefficients of 2 a + ...: expand to the monomial basis in s
    let a1 = c(-11) * v[0] + c(18) * v[1] + c(-9) * v[2] + c(2) * v[3];
    let a2 = c(18) * v[0] + c(-45) * v[1] + c(36) * v[2] + c(-9) * v[3];
    let a3 = c(-9) * v[0] + c(27) * v[1] + c(-27) * v[2] + c(9) * v[3];
    let _ = one;
    (a1 + two * a2 * s + k::<V>(3) * a3 * s * s, two * a2 + k::<V>(6) * a3 * s)
}
fn natural<V: Num>(p: &Knots) -> R {
    let (x, y, m) = p.vals::<V>();
    let Ok(f) = Fitted::fit(NATURAL, &x, &y, &m) else { return bad("natural cubic: fit of increasing knots failed") };
    let n = x.len();
    let third = V::one() / k::<V>(3);
    let scale = p.scale();
    let mut ends = Vec::new();
    for i in 0..n - 1 {
        let h = x[i + 1] - x[i];
        let at = |s: V| f.at(x[i] + s * h).map(|v| p.unit(v)).map_err(|_| Bad::Violation(format!("natural cubic: no value inside segment {i} of {:?}", p.x)));
        let v = [p.unit(y[i]), at(third)?, at(third + third)?, p.unit(y[i + 1])];
        // one cubic on the segment
        for (a, b) in [(1, 2), (1, 5), (5, 7), (15, 16)] {
            let s = k::<V>(a) / k::<V>(b);
            let w = third;
            let (s0, s1, s2, s3) = (s, s - w, s - w - w, s - V::one());
            let c = |n: i64| k::<V>(n) / k::<V>(2);
            let want = c(-9) * v[0] * s1 * s2 * s3 + c(27) * v[1] * s0 * s2 * s3 - c(27) * v[2] * s0 * s1 * s3 + c(9) * v[3] * s0 * s1 * s2;
            let got = at(s)?;
            check!(got.same(want, scale), "natural cubic: segment {i} of x {:?} y {:?} is not a cubic through its knots (at {a}/{b}: {} instead of {})", p.x, p.y, got.approx(), want.approx());
        }
        let (d0, c0) = derivatives(v, V::zero());
        let (d1, c1) = derivatives(v, V::one());
        let h = h * V::pow2(-p.sx);
        ends.push((d0 / h, c0 / h / h, d1 / h, c1 / h / h));
    }
    // the shortest interval governs the rounding of a numerical derivative
    let h = p.x.windows(2).map(|w| (w[1] - w[0]) as f64 / 16.0).fold(1.0, f64::min);
    let (s1, s2) = (scale / h * 100.0, scale / h / h * 100.0);
    check!(ends[0].1.same(V::zero(), s2), "natural cubic: second derivative at the first knot of x {:?} y {:?} is {}", p.x, p.y, ends[0].1.approx());
    check!(ends[n - 2].3.same(V::zero(), s2), "natural cubic: second derivative at the last knot of x {:?} y {:?} is {}", p.x, p.y, ends[n - 2].3.approx());
    for i in 1..n - 1 {
        let (l, r) = (&ends[i - 1], &ends[i]);
        check!(l.2.same(r.0, s1), "natural cubic: first derivative jumps at knot {i} of x {:?} y {:?}: {} and {}", p.x, p.y, l.2.approx(), r.0.approx());
        check!(l.3.same(r.1, s2), "natural cubic: second derivative jumps at knot {i} of x {:?} y {:?}: {} and {}", p.x, p.y, l.3.approx(), r.1.approx());
    }
    Ok(())
}
fn c19(c: &mut Ctx) {
    let mut r = Rng::new(c.seed);
    for _ in 0..if c.thorough { 100_000 } else { 30_000 } {
        let max = *r.pick(&[3, 4, 5, 8, 12]);
        let p = Knots::random(&mut r, NATURAL, 3, max);
        c.case(Some(p.key() as u64), true, || p.enc(), || both!(natural(&p)));
    }
}

// ---------------------------------------------------------------- C21: validation of the points

fn fit<V: Num>(p: &Knots) -> R {
    let (x, y, m) = p.vals::<V>();
    let name = KINDS[p.kind as usize];
    let r = Fitted::fit(p.kind, &x, &y, &m);
    let few = p.kind != LINEAR && x.len() < 3;
    let descends = p.x.windows(2).any(|w| w[1] < w[0]);
    match &r {
        Err(InterpolationError::InsufficientPointsError(n)) => check!(few && *n == x.len(), "{name}: {} points are InsufficientPointsError({n})", x.len()),
        _ if few => return bad(format!("{name}: {} points are accepted or misreported", x.len())),
        Err(InterpolationError::PointOrderError) => check!(descends, "{name}: {:?} is PointOrderError", p.x),
        Err(e) => return bad(format!("{name}: fit is {}", kind_error(e))),
        Ok(_) => check!(!descends, "{name}: the descending {:?} is accepted", p.x),
    }
    Ok(())
}
fn c21(c: &mut Ctx) {
    let mut r = Rng::new(c.seed);
    for _ in 0..if c.thorough { 1_000_000 } else { 200_000 } {
        let kind = r.int(0, 3);
        let mut p = Knots::random(&mut r, kind, 0, 7);
        p.x.truncate(p.y.len());
        let n = p.x.len();
        let mut strict = true;
        if n >= 2 {
            match r.int(0, 3) {
                0 => p.x.swap(r.int(0, n as i64 - 1) as usize, r.int(0, n as i64 - 1) as usize),
                1 => {
                    let j = r.int(0, n as i64 - 1) as usize;
                    p.x[j] += *r.pick(&[-1, 1]) * r.int(1, 200)
                }
                2 => {
                    let j = r.int(1, n as i64 - 1) as usize;
                    p.x[j] = p.x[j - 1];
                }
                _ => {}
            }
            for i in 0..n {
                for j in 0..i {
                    strict &= p.x[i] != p.x[j];
                }
            }
        }
        // with equal abscissae a spline divides by zero: f64 only
        c.case(Some(p.key() as u64), n > 2, || p.enc(), || {
            fit::<f64>(&p)?;
            if strict && !p.fine() {
                fit::<Fp>(&p)?;
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- C22: construction of a curve

thread_local! {
    static FITTED: RefCell<Vec<(f64, f64)>> = const { RefCell::new(Vec::new()) };
}
/// An interpolator that records what it is fitted to, and refuses an odd number of points.
#[derive(Default)]
struct Recorder;
impl Interpolator for Recorder {
    type Value = f64;
    fn try_fit(self, p: &[(f64, f64)]) -> Result<Self, InterpolationError<f64>> {
        FITTED.with(|f| *f.borrow_mut() = p.to_vec());
        if p.len() % 2 == 1 {
            return Err(InterpolationError::InsufficientPointsError(p.len()));
        }
        Ok(self)
    }
    fn try_value(&self, t: f64) -> Result<f64, InterpolationError<f64>> {
        Ok(0.03 + 0.001 * t)
    }
}
const BASES: [&str; 4] = ["actual/360", "actual/365", "30/360", "quarters of a hundred days"];
/// A day count of a user: zero for close dates, and with no answer for some.
#[derive(Clone, Copy)]
struct Coarse;
impl DayCount for Coarse {
    fn calculate_day_count_fraction<V: Value>(a: qlab_time::date::Date, b: qlab_time::date::Date) -> Result<V, QLabError> {
        match coarse(i64::from(a.serial_date()), i64::from(b.serial_date())) {
            Some(n) => Ok(V::from_i64(n).unwrap() / V::from_i64(4).unwrap()),
            None => Err(ComputeError::ZeroDivisionError.into()),
        }
    }
}
fn coarse(a: i64, b: i64) -> Option<i64> {
    (a == b || b % 11 != 3).then_some((b - a) / 100)
}
fn year_fraction(basis: i64, a: T, b: T) -> Option<f64> {
    let days = spec::serial(b.0, b.1, b.2) - spec::serial(a.0, a.1, a.2);
    match basis {
        0 => Some(days as f64 / 360.0),
        1 => Some(days as f64 / 365.0),
        3 => coarse(ser(a), ser(b)).map(|n| n as f64 / 4.0),
        _ => (a <= b).then(|| spec::thirty_e_360(a, b) as f64 / 360.0),
    }
}
macro_rules! with_basis {
    ($b:expr, $f:ident::<_ $(, $g:ty)*>($($a:expr),*)) => {
        match $b {
            0 => $f::<Act360 $(, $g)*>($($a),*),
            1 => $f::<Act365 $(, $g)*>($($a),*),
            3 => $f::<Coarse $(, $g)*>($($a),*),
            _ => $f::<Thirty360 $(, $g)*>($($a),*),
        }
    };
}
fn curve_case<D: DayCount>(basis: i64, settle: T, mats: &[T], ys: &[i64]) -> R {
    let yields: Vec<f64> = ys.iter().map(|&v| v as f64 / 1000.0).collect();
    let dates: Vec<_> = mats.iter().map(|&t| date(t)).collect();
    FITTED.with(|f| f.borrow_mut().clear());
    let r = YieldCurve::<D, Recorder>::new(date(settle), &dates, &yields);
    let times: Option<Vec<f64>> = mats.iter().map(|&m| year_fraction(basis, settle, m)).collect();
    if mats.len() != ys.len() {
        check!(matches!(r, Err(QLabError::ComputeError(ComputeError::InvalidInput(_)))), "{} maturities with {} yields are not InvalidInput", mats.len(), ys.len());
        return Ok(());
    }
    let Some(times) = times else {
        check!(r.is_err(), "{}: no error of the day count for maturities {mats:?} from {settle:?}", BASES[basis as usize]);
        return Ok(());
    };
    if mats.len() % 2 == 1 {
        check!(r.is_err(), "the error of the interpolator is lost");
        return Ok(());
    }
    check!(r.is_ok(), "a valid curve is an error");
    let got = FITTED.with(|f| f.borrow().clone());
    let want: Vec<(f64, f64)> = times.into_iter().zip(yields).collect();
    check!(
        got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| (a.0 - b.0).abs() < 1e-9 * b.0.abs().max(1.0) && a.1 == b.1),
        "the interpolator is fitted to {got:?}, expected {want:?}"
    );
    Ok(())
}
/// discount factors read back at the maturities of a fitted curve
fn node_case<D: DayCount, I: Interpolator<Value = f64>>(basis: i64, settle: T, mats: &[T], ys: &[i64]) -> R {
    let yields: Vec<f64> = ys.iter().map(|&v| v as f64 / 1000.0).collect();
    let dates: Vec<_> = mats.iter().map(|&t| date(t)).collect();
    let Ok(c) = YieldCurve::<D, I>::new(date(settle), &dates, &yields) else { return bad("a valid curve is an error") };
    for (i, &m) in mats.iter().enumerate() {
        let want = (-year_fraction(basis, settle, m).unwrap() * yields[i]).exp();
        match c.discount_factor(date(settle), date(m)) {
            Ok(v) => check!(v.same(want, 0.0), "discount factor at maturity {m:?} is {v}, expected {want}"),
            Err(e) => return bad(format!("no discount factor at maturity {m:?}: {e}")),
        }
    }
    Ok(())
}
/// most often of our time, with room for a thousand years on either side
fn recent(r: &mut Rng) -> T {
    let s = match r.int(0, 49) {
        0 => r.int(spec::serial(-260_000, 1, 1), spec::serial(260_000, 12, 31)),
        1..=2 => r.int(spec::serial(1583, 1, 1), spec::serial(2999, 12, 31)),
        _ => r.int(spec::serial(1950, 1, 1), spec::serial(2100, 12, 31)),
    };
    let (y, m, d) = spec::from_serial(s);
    let y = r.word(-260_000, 260_000).unwrap_or(y);
    let m = r.word(1, 12).unwrap_or(m);
    let d = r.word(1, 31).unwrap_or(d);
    (y, m, d.min(spec::days_in_month(y, m)))
}
fn plus(t: T, n: i64) -> T {
    spec::from_serial(spec::serial(t.0, t.1, t.2) + n)
}
fn ser(t: T) -> i64 {
    spec::serial(t.0, t.1, t.2)
}
fn interpolated(which: i64, basis: i64, settle: T, mats: &[T], ys: &[i64]) -> R {
    match which {
        0 => with_basis!(basis, node_case::<_, Linear<f64>>(basis, settle, mats, ys)),
        1 => with_basis!(basis, node_case::<_, NaturalCubic<f64>>(basis, settle, mats, ys)),
        _ => with_basis!(basis, node_case::<_, CatmullRom<f64>>(basis, settle, mats, ys)),
    }
}
fn c22(c: &mut Ctx) {
    let mut r = Rng::new(c.seed);
    for i in 0..if c.thorough { 1_500_000 } else { 300_000 } {
        let settle = recent(&mut r);
        let basis = r.int(0, 3);
        let n = if r.int(0, 59) == 0 { size(&mut r) } else { r.int(0, 8) };
        let mut mats: Vec<i64> = Vec::new();
        let mut s = ser(settle) + if r.int(0, 5) == 0 { -r.int(0, 40) } else { r.int(0, 400) };
        for _ in 0..n {
            mats.push(s);
            s += r.word(10, if n > 8 { 400 } else { 40_000 }).unwrap_or_else(|| if n > 8 { r.int(4, 60) } else { r.int(10, 700) });
        }
        let ys: Vec<i64> = (0..if r.int(0, 4) == 0 { (n + r.int(-8, 8)).max(0) } else { n }).map(|_| r.int(-20, 120)).collect();
        // any order, repetitions included, in one of three
        let sorted = r.int(0, 2) > 0;
        if !sorted && n > 1 {
            let (a, b) = (r.int(0, n - 1) as usize, r.int(0, n - 1) as usize);
            match r.int(0, 3) {
                0 => mats.reverse(),
                1 => mats[a] = mats[b],
                2 => mats[a] = ser(settle),
                _ => mats.swap(a, b),
            }
        }
        let ts: Vec<T> = mats.iter().map(|&s| spec::from_serial(s)).collect();
        let enc = |w: i64| format!("curve={w} basis={basis} settle={} mats={} ys={}", ymd(settle), join(&mats), join(&ys));
        let mut key = vec![basis, ser(settle)];
        key.extend(&mats);
        key.extend(&ys);
        c.case(Some(hash(&key)), n > 0, || enc(-1), || with_basis!(basis, curve_case::<_>(basis, settle, &ts, &ys)));
        if sorted && basis < 3 && i % 4 == 0 && n >= 3 && ys.len() as i64 == n && ts[0] >= settle {
            let w = r.int(0, 2);
            c.case(Some(hash(&key) ^ 77 << w), true, || enc(w), || interpolated(w, basis, settle, &ts, &ys));
        }
    }
}

// ---------------------------------------------------------------- C23: discount factors

thread_local! {
    static YIELD: RefCell<(f64, f64, f64, f64)> = const { RefCell::new((0.0, 0.0, -1e9, 1e9)) };
}
/// y(t) = a + b t from a minimal to a maximal t
#[derive(Default)]
struct Sloped;
impl Interpolator for Sloped {
    type Value = f64;
    fn try_fit(self, _: &[(f64, f64)]) -> Result<Self, InterpolationError<f64>> {
        Ok(self)
    }
    fn try_value(&self, t: f64) -> Result<f64, InterpolationError<f64>> {
        YIELD.with(|y| {
            let (a, b, min, max) = *y.borrow();
            if t < min {
                return Err(InterpolationError::OutOfLowerBound(t));
            }
            if t > max {
                return Err(InterpolationError::OutOfUpperBound(t));
            }
            Ok(a + b * t)
        })
    }
}
fn sloped(p: &[i64]) {
    YIELD.with(|y| *y.borrow_mut() = (p[0] as f64 / 1000.0, p[1] as f64 / 10_000.0, p.get(3).map_or(-1e9, |&v| v as f64 / 16.0), p[2] as f64 / 16.0));
}
/// yields everywhere most often
fn yields(r: &mut Rng) -> [i64; 4] {
    [r.int(-30, 150), r.int(-20, 20), if r.int(0, 5) == 0 { r.int(0, 200) } else { 16_000 }, if r.int(0, 5) == 0 { *r.pick(&[0, 0, 1, 1, 2, 4, 16, 100]) } else { -16_000 }]
}
fn df_case<D: DayCount>(basis: i64, settle: T, d1: T, d2: T, y: &[i64]) -> R {
    sloped(y);
    let Ok(c) = YieldCurve::<D, Sloped>::new(date(settle), &[], &[]) else { return bad("a valid curve is an error") };
    let (a, b, min, max) = YIELD.with(|y| *y.borrow());
    let df = |d1: T, d2: T| c.discount_factor(date(d1), date(d2));
    let r = df(d1, d2);
    let what = format!("{}: discount factor from {d1:?} to {d2:?} settled {settle:?}", BASES[basis as usize]);
    if d2 < d1 || d1 < settle {
        check!(matches!(r, Err(QLabError::ComputeError(ComputeError::InvalidInput(_)))), "{what} is {r:?}, expected InvalidInput");
        return Ok(());
    }
    let t = |d: T| year_fraction(basis, settle, d);
    let needed = if d1 == settle { vec![t(d2)] } else { vec![t(d2), t(d1)] };
    let no_time = needed.iter().any(|t| t.is_none());
    let no_yield = needed.iter().flatten().any(|&t| t > max || t < min);
    if no_time || no_yield {
        let passed = match &r {
            Err(QLabError::ComputeError(ComputeError::ZeroDivisionError)) => no_time,
            Err(QLabError::ComputeError(ComputeError::InterpolationError)) => no_yield,
            _ => false,
        };
        check!(passed, "{what} is {r:?}, expected the error of the {} (yields from time {min} to {max})", if no_time { "day count" } else { "interpolator" });
        return Ok(());
    }
    let z = |d: T| t(d).map_or(0.0, |t| t * (a + b * t));
    let Ok(v) = r else { return bad(format!("{what} is an error")) };
    let want = (z(d1) - z(d2)).exp();
    check!((v - want).abs() <= 1e-9 * want, "{what} is {v}, expected {want}");
    check!(d1 != d2 || (v - 1.0).abs() < 1e-12, "{what} is {v}, expected 1");
    if d1 == settle && (0.0 < min || 0.0 > max) {
        return Ok(());
    }
    let (Ok(p), Ok(q)) = (df(settle, d1), df(settle, d2)) else { return bad(format!("{what}: no discount factor from settlement")) };
    check!((p * v - q).abs() <= 1e-9 * q, "{what} is {v}, not the ratio of {q} and {p}");
    Ok(())
}
fn c23(c: &mut Ctx) {
    let mut r = Rng::new(c.seed);
    for _ in 0..if c.thorough { 4_000_000 } else { 600_000 } {
        let settle = recent(&mut r);
        let basis = r.int(0, 3);
        let mut near = |t: T| {
            let n = *r.pick(&[0, 0, 1, -1, 2, 30, -30, 400, 4000, 9000, 40_000]);
            if let Some(w) = r.word(-40_000, 40_000) {
                return plus(t, w);
            }
            plus(t, if n == 0 { 0 } else { r.int(n.min(0), n.max(0)) })
        };
        let d1 = near(settle);
        let d2 = near(d1);
        let y = yields(&mut r);
        c.case(
            Some(hash(&[basis, ser(settle), ser(d1), ser(d2), y[0], y[1], y[2], y[3]])),
            settle <= d1 && d1 < d2,
            || format!("basis={basis} settle={} d1={} d2={} y={}", ymd(settle), ymd(d1), ymd(d2), join(&y)),
            || with_basis!(basis, df_case::<_>(basis, settle, d1, d2, &y)),
        );
    }
}

// ---------------------------------------------------------------- C24-C26: bonds

#[derive(Clone, Copy)]
struct Terms {
    issue: T,
    first: T,
    penult: T,
    mat: T,
    /// coupon rate in sixteenths of a percent, face value
    rate: i64,
    face: i64,
}
impl Terms {
    fn enc(&self) -> String {
        format!("issue={} first={} penult={} mat={} rate={} face={}", ymd(self.issue), ymd(self.first), ymd(self.penult), ymd(self.mat), self.rate, self.face)
    }
    fn key(&self) -> i64 {
        hash(&[ser(self.issue), ser(self.first), ser(self.penult), ser(self.mat), self.rate, self.face]) as i64
    }
    fn parse(i: &Input) -> Terms {
        Terms { issue: i.ymd("issue"), first: i.ymd("first"), penult: i.ymd("penult"), mat: i.ymd("mat"), rate: i.int("rate"), face: i.int("face") }
    }
    fn bond<V: Num>(&self) -> Option<Bond<V>> {
        Bond::new(
            "b",
            date(self.issue),
            date(self.first),
            date(self.penult),
            date(self.mat),
            Frequency::SA,
            V::of(self.rate) / k::<V>(100),
            k::<V>(self.face),
        )
    }
    /// Regular due dates, or None where the bond cannot be built.
    fn dues(&self) -> Option<Vec<T>> {
        if self.first > self.penult {
            return None;
        }
        let mut v = Vec::new();
        for n in 0.. {
            let t = spec::shift_months(self.first.0, self.first.1, self.first.2, 6 * n)?;
            if t > self.penult {
                break;
            }
            v.push(t);
        }
        Some(v)
    }
    /// (due, payment, amount), or None
    fn flows<V: Num>(&self) -> Option<Vec<(T, T, V)>> {
        let rate = V::of(self.rate) / k::<V>(100);
        let face = k::<V>(self.face);
        let regular = rate * face / k::<V>(2);
        let sh = |t: T, n: i64| spec::shift_months(t.0, t.1, t.2, n);
        let mut v: Vec<(T, T, V)> = Vec::new();
        for t in self.dues()? {
            let s = ser(t);
            let w = spec::weekday_of_serial(s);
            let p = if w < 5 { s } else { s + 7 - w };
            if p > spec::MAX_SERIAL {
                return None;
            }
            v.push((t, spec::from_serial(p), regular));
        }
        let days = |a: T, b: T| k::<V>(ser(b) - ser(a));
        let prior = sh(self.first, -6)?;
        v[0].2 = if self.issue > prior {
            regular * days(self.issue, self.first) / days(prior, self.first)
        } else if self.issue < prior {
            let prior2 = sh(prior, -6)?;
            regular + regular * days(self.issue, prior) / days(prior2, prior)
        } else {
            regular
        };
        let next = sh(self.penult, 6)?;
        let last = if self.mat < next {
            regular * days(self.penult, self.mat) / days(self.penult, next)
        } else if self.mat > next {
            let next2 = sh(next, 6)?;
            regular + regular * days(next, self.mat) / days(next, next2)
        } else {
            regular
        };
        v.push((self.mat, self.mat, face + last));
        Some(v)
    }
    fn random(r: &mut Rng) -> Terms {
        let issue = recent(r);
        let month_end = r.int(0, 3) == 0;
        let first_n = match r.int(0, 4) {
            _ if r.int(0, 99) == 0 => r.int(0, 3000),
            0 => 0,
            1 => r.int(1, 5) * 30,
            2 => r.int(1, 400),
            _ => -1,
        };
        let mut first = if first_n < 0 { spec::shift_months(issue.0, issue.1, issue.2, *r.pick(&[6, 6, 3, 9, 12])).unwrap() } else { plus(issue, first_n) };
        if month_end {
            first = (first.0, first.1, spec::days_in_month(first.0, first.1));
        }
        let n = match r.int(0, 299) {
            0 => size(r),
            1..=30 => r.int(13, 130),
            _ => r.int(0, 12),
        };
        let mut penult = spec::shift_months(first.0, first.1, first.2, 6 * n).unwrap();
        match r.int(0, 9) {
            0 => penult = plus(penult, r.int(-200, 200)),
            1 => penult = plus(penult, r.int(-1, 1)),
            _ => {}
        }
        let mut mat = spec::shift_months(penult.0, penult.1, penult.2, *r.pick(&[6, 6, 6, 3, 9, 12])).unwrap();
        match r.int(0, 3) {
            0 => mat = plus(mat, r.int(-5, 5)),
            1 => mat = plus(penult, r.word(1, 40_000).unwrap_or(r.int(1, 380))),
            _ => {}
        }
        // dates in an unusual order: maturity before the last coupons, issue after the first
        let (mut issue, mut mat) = (issue, mat);
        match r.int(0, 29) {
            0 => mat = plus(penult, r.int(-800, 1)),
            1 => issue = plus(first, r.int(-1, 400)),
            _ => {}
        }
        Terms { issue, first, penult, mat, rate: r.int(-20, 160), face: r.word(-1 << 30, 1 << 30).unwrap_or(*r.pick(&[100, 1, 1000, 250, 0, 1_000_000, -100])) }
    }
}

/// zero yields: every discount factor is exactly one
struct Zeroed<V>(std::marker::PhantomData<V>);
impl<V> Default for Zeroed<V> {
    fn default() -> Self {
        Zeroed(std::marker::PhantomData)
    }
}
impl<V: Num> Interpolator for Zeroed<V> {
    type Value = V;
    fn try_fit(self, _: &[(V, V)]) -> Result<Self, InterpolationError<V>> {
        Ok(self)
    }
    fn try_value(&self, _: V) -> Result<V, InterpolationError<V>> {
        Ok(V::zero())
    }
}

/// C24: whether the bond exists, and when its flows are due and paid. Discounting at a flat rate and
/// moving the settlement date past each due date shows each flow on its own.
fn schedule_case(b: &Terms) -> R {
    let bond = b.bond::<f64>();
    let flows = b.flows::<f64>();
    check!(bond.is_some() == flows.is_some(), "bond {} is {}", b.enc(), if bond.is_some() { "built" } else { "None" });
    let (Some(bond), Some(flows)) = (bond, flows) else { return Ok(()) };
    check!(bond.bond_id() == "b", "bond id is {}", bond.bond_id());
    // a steep curve tells the payment dates apart
    sloped(&[500, 0, 1 << 40]);
    let mut days: Vec<i64> = vec![ser(b.issue) - 1, ser(b.issue)];
    for f in &flows {
        days.extend([ser(f.0) - 1, ser(f.0), ser(f.0) + 1]);
    }
    for s in days {
        let s = spec::from_serial(s);
        let Ok(c) = YieldCurve::<Act365, Sloped>::new(date(s), &[], &[]) else { return bad("a valid curve is an error") };
        let worth = flows.iter().filter(|f| s < f.0).map(|f| f.2 * (-0.5 * (ser(f.1) - ser(s)) as f64 / 365.0).exp());
        let (want, size) = worth.fold((0.0, 0.0), |(a, b), v| (a + v, b + v.abs()));
        match bond.discounted_value(date(s), &c) {
            Ok(v) => check!((v - want).abs() <= 1e-9 * size, "bond {} settled {s:?}: value {v} at a flat 50%, the schedule gives {want}", b.enc()),
            Err(e) => return bad(format!("bond {} settled {s:?}: {e}", b.enc())),
        }
    }
    Ok(())
}
/// C25: the amounts, from the undiscounted sum of the flows due after each date.
fn amounts<V: Num>(b: &Terms) -> R {
    let (Some(bond), Some(flows)) = (b.bond::<V>(), b.flows::<V>()) else { return Ok(()) };
    let mut days: Vec<i64> = vec![ser(b.issue) - 400];
    days.extend(flows.iter().map(|f| ser(f.0)));
    days.extend(flows.iter().map(|f| ser(f.0) - 1));
    for s in days {
        let s = spec::from_serial(s);
        let Ok(c) = YieldCurve::<Act365, Zeroed<V>>::new(date(s), &[], &[]) else { return bad("a valid curve is an error") };
        let want = flows.iter().filter(|f| s < f.0).fold(V::zero(), |a, f| a + f.2);
        match bond.discounted_value(date(s), &c) {
            Ok(v) => check!(v.same(want, b.face as f64), "bond {}: the flows due after {s:?} sum to {}, expected {}", b.enc(), v.approx(), want.approx()),
            Err(e) => return bad(format!("bond {} settled {s:?}: {e}", b.enc())),
        }
    }
    Ok(())
}
/// C26: discounted value on any curve, settled on or after the curve.
fn value_case<D: DayCount>(b: &Terms, curve: T, settle: T, y: &[i64]) -> R {
    let (Some(bond), Some(flows)) = (b.bond::<f64>(), b.flows::<f64>()) else { return Ok(()) };
    sloped(y);
    let Ok(c) = YieldCurve::<D, Sloped>::new(date(curve), &[], &[]) else { return bad("a valid curve is an error") };
    let mut want = Some(0.0);
    let mut size = 0.0;
    for f in flows.iter().filter(|f| settle < f.0) {
        match (c.discount_factor(date(settle), date(f.1)), want) {
            (Ok(d), Some(w)) => {
                want = Some(w + d * f.2);
                size += (d * f.2).abs();
            }
            _ => want = None,
        }
    }
    // its value at another date is asked for first, now and then
    if b.face % 2 == 0 || *STATE {
        let _ = bond.discounted_value(date(curve), &c);
    }
    let r = bond.discounted_value(date(settle), &c);
    match (&r, want) {
        (Ok(v), Some(w)) => check!(!size.is_finite() || (v - w).abs() <= 1e-9 * size, "bond {} settled {settle:?} on the curve of {curve:?} is worth {v}, the flows sum to {w}", b.enc()),
        (Err(_), None) => {}
        _ => return bad(format!("bond {} settled {settle:?} on the curve of {curve:?} is {r:?}, expected {want:?}", b.enc())),
    }
    Ok(())
}
fn bonds(c: &mut Ctx, prop: &str) {
    let mut r = Rng::new(c.seed);
    let n = match (prop, c.thorough) {
        ("C26", true) => 1_500_000,
        ("C26", false) => 250_000,
        (_, true) => 200_000,
        (_, false) => 40_000,
    };
    for _ in 0..n {
        let b = Terms::random(&mut r);
        match prop {
            "C24" => c.case(Some(b.key() as u64), b.first <= b.penult, || b.enc(), || schedule_case(&b)),
            "C25" => c.case(Some(b.key() as u64), b.first <= b.penult, || b.enc(), || both!(amounts(&b))),
            _ => {
                let curve = plus(b.issue, r.int(-30, 700));
                let settle = plus(curve, *r.pick(&[0, 0, 1, 30, 181, 365, 2000, -1]));
                let settle = if r.int(0, 3) == 0 { b.flows::<f64>().map_or(settle, |f| r.pick(&f).0.max(curve)) } else { settle };
                let y = yields(&mut r);
                let basis = r.int(0, 3);
                c.case(
                    Some(hash(&[b.key(), basis, ser(curve), ser(settle), y[0], y[1], y[2], y[3]])),
                    b.first <= b.penult,
                    || format!("{} basis={basis} curve={} settle={} y={}", b.enc(), ymd(curve), ymd(settle), join(&y)),
                    || with_basis!(basis, value_case::<_>(&b, curve, settle, &y)),
                )
            }
        }
    }
    // ends of the supported range: None, never a panic
    if prop == "C24" {
        for i in 0..400 {
            for (s, e) in [(spec::MIN_SERIAL + i, spec::MIN_SERIAL + i + 900), (spec::MAX_SERIAL - 900 + i, spec::MAX_SERIAL - i)] {
                let at = spec::from_serial;
                let b = Terms { issue: at(s), first: at(s + 100), penult: at(e - 100), mat: at(e), rate: 80, face: 100 };
                c.case(None, true, || format!("{} edge=1", b.enc()), || {
                    check!(b.bond::<f64>().is_some() == b.flows::<f64>().is_some(), "bond {} is {}", b.enc(), if b.bond::<f64>().is_some() { "built" } else { "None" });
                    Ok(())
                });
            }
        }
    }
}

// ---------------------------------------------------------------- entry points

pub fn search(c: &mut Ctx, prop: &str) -> bool {
    match prop {
        "C15" => c15(c),
        "C16" => c16(c),
        "C17" => between(c, LINEAR),
        "C18" => between(c, HERMITE),
        "C19" => c19(c),
        "C20" => between(c, CATMULL),
        "C21" => c21(c),
        "C22" => c22(c),
        "C23" => c23(c),
        "C24" | "C25" | "C26" => bonds(c, prop),
        _ => return false,
    }
    true
}

pub fn replay(c: &mut Ctx, prop: &str, s: &str) -> bool {
    let i = Input::parse(s);
    let has = |k: &str| s.split_whitespace().any(|t| t.starts_with(&format!("{k}=")));
    let f: Box<dyn Fn() -> R> = match prop {
        "C15" if has("odd") => Box::new(|| odd_query(&Knots::parse(&i), i.int("odd"))),
        "C15" => Box::new(|| {
            let p = Knots::parse(&i);
            query::<f64>(&p, i.int("q"))?;
            if p.x.windows(2).all(|w| w[0] < w[1]) && !p.fine() {
                query::<Fp>(&p, i.int("q"))?;
            }
            Ok(())
        }),
        "C16" => Box::new(|| {
            let p = Knots::parse(&i);
            knots_both!(p, knots(&p))
        }),
        "C17" | "C18" | "C20" => Box::new(|| {
            let p = Knots::parse(&i);
            knots_both!(p, segments(&p, i.int("q")))
        }),
        "C19" => Box::new(|| both!(natural(&Knots::parse(&i)))),
        "C21" => Box::new(|| {
            let p = Knots::parse(&i);
            let mut s = p.x.clone();
            s.sort();
            fit::<f64>(&p)?;
            if s.windows(2).all(|w| w[0] < w[1]) && !p.fine() {
                fit::<Fp>(&p)?;
            }
            Ok(())
        }),
        "C22" => Box::new(|| {
            let (b, s, w) = (i.int("basis"), i.ymd("settle"), i.int("curve"));
            let m: Vec<T> = i.list("mats").into_iter().map(spec::from_serial).collect();
            let y = i.list("ys");
            if w < 0 {
                with_basis!(b, curve_case::<_>(b, s, &m, &y))
            } else {
                interpolated(w, b, s, &m, &y)
            }
        }),
        "C23" => Box::new(|| {
            let b = i.int("basis");
            with_basis!(b, df_case::<_>(b, i.ymd("settle"), i.ymd("d1"), i.ymd("d2"), &i.list("y")))
        }),
        "C24" if has("edge") => Box::new(|| {
            let b = Terms::parse(&i);
            check!(b.bond::<f64>().is_some() == b.flows::<f64>().is_some(), "bond {}", b.enc());
            Ok(())
        }),
        "C24" => Box::new(|| schedule_case(&Terms::parse(&i))),
        "C25" => Box::new(|| both!(amounts(&Terms::parse(&i)))),
        "C26" => Box::new(|| {
            let b = i.int("basis");
            with_basis!(b, value_case::<_>(&Terms::parse(&i), i.ymd("curve"), i.ymd("settle"), &i.list("y")))
        }),
        _ => return false,
    };
    c.case(None, true, || s.to_string(), f);
    true
}

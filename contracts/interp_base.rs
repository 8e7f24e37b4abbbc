//@ source --drop X --drop Interpolator crates/qlab-math/src/interpolation.rs
//@ prelude
use core::ops::Mul;
include scalar.rs
pub enum InterpolationError { PointOrderError, OutOfLowerBound(R), OutOfUpperBound(R), InsufficientPointsError(usize) }

trait X {
    spec fn sx(&self) -> R;
    fn x(&self) -> (r: &R) ensures *r == self.sx();
}

trait Zero { spec fn spec_is_zero(&self) -> bool; fn is_zero(&self) -> (r: bool) ensures r == self.spec_is_zero(); }
impl Zero for usize { spec fn spec_is_zero(&self) -> bool { *self == 0 } fn is_zero(&self) -> bool { *self == 0 } }

// the standard library, where vstd has no contract
pub assume_specification<T, F: FnOnce(T) -> bool + core::marker::Destruct>[ Option::<T>::is_some_and ](o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> f.requires((o->0,)),
    ensures o is None ==> !r, o is Some ==> f.ensures((o->0,), r);
pub assume_specification<T, F: FnMut(&T) -> bool>[ <[T]>::partition_point ](s: &[T], f: F) -> (r: usize)
    requires forall|i: int| 0 <= i < s@.len() ==> f.requires((&#[trigger] s@[i],)),
    ensures
        r <= s@.len(),
        (forall|i: int, j: int| 0 <= i < j < s@.len() && f.ensures((&#[trigger] s@[i],), false) ==> !f.ensures((&#[trigger] s@[j],), true)) ==> {
            &&& forall|i: int| 0 <= i < r ==> f.ensures((&#[trigger] s@[i],), true)
            &&& forall|i: int| r <= i < s@.len() ==> f.ensures((&#[trigger] s@[i],), false)
        };

// the abscissae are numbers in ascending order
spec fn ordered<P: X>(p: Seq<P>) -> bool {
    forall|i: int, j: int| 0 <= i <= j < p.len() ==> le(#[trigger] p[i].sx()@, #[trigger] p[j].sx()@)
}
// a query is answered exactly from the first to the last abscissa (C15)
spec fn answered<P: X>(p: Seq<P>, x: R, res: Result<R, InterpolationError>) -> bool {
    if p.len() < 2 { res == Err::<R, InterpolationError>(InterpolationError::InsufficientPointsError(p.len() as usize)) }
    else {
        ordered(p) ==> match res {
            Ok(_) => le(p[0].sx()@, x@) && le(x@, p[p.len() - 1].sx()@),
            Err(InterpolationError::OutOfLowerBound(q)) => q == x && !le(p[0].sx()@, x@),
            Err(InterpolationError::OutOfUpperBound(q)) => q == x && !le(x@, p[p.len() - 1].sx()@),
            Err(_) => false,
        }
    }
}
spec fn gives(res: Result<R, InterpolationError>, y: real) -> bool { match res { Ok(v) => v@ == Ext::Fin(y), Err(_) => false } }
// the abscissae increase strictly
spec fn strict<P: X>(p: Seq<P>) -> bool {
    (forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i].sx()).f())
    && forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] p[i].sx()).v() < (#[trigger] p[j].sx()).v()
}
// x is strictly between the knots i and i + 1 (the trigger of the segment properties)
spec fn inside<P: X>(p: Seq<P>, i: int, x: R) -> bool {
    0 <= i && i + 1 < p.len() && x.f() && p[i].sx().f() && p[i + 1].sx().f() && p[i].sx().v() < x.v() < p[i + 1].sx().v()
}
// x is the knot i
spec fn at_knot<P: X>(p: Seq<P>, i: int, x: R) -> bool {
    0 <= i < p.len() && x.f() && p[i].sx()@ == x@
}
spec fn bracket<P: X>(p: Seq<P>, i: int, x: R) -> bool { 0 <= i && i + 1 < p.len() && le(p[i].sx()@, x@) && le(x@, p[i + 1].sx()@) }
proof fn bracket_inside<P: X>(p: Seq<P>, k: int, i: int, x: R)
    requires ordered(p), bracket(p, k, x), inside(p, i, x)
    ensures i == k
{
    if i < k { assert(le(p[i + 1].sx()@, p[k].sx()@)); }
    if k < i { assert(le(p[k + 1].sx()@, p[i].sx()@)); }
}
proof fn bracket_knot<P: X>(p: Seq<P>, k: int, i: int, x: R)
    requires strict(p), bracket(p, k, x), at_knot(p, i, x)
    ensures i == k || i == k + 1
{
    if i < k { assert(p[i].sx().v() < p[k].sx().v()); }
    if k + 1 < i { assert(p[k + 1].sx().v() < p[i].sx().v()); }
}
proof fn strict_ordered<P: X>(p: Seq<P>)
    requires strict(p)
    ensures ordered(p)
{
    assert forall|i: int, j: int| 0 <= i <= j < p.len() implies le(#[trigger] p[i].sx()@, #[trigger] p[j].sx()@) by {
        if i < j { assert(p[i].sx().v() < p[j].sx().v()); }
    }
}

// FITTING (C21)
spec fn abscissae(raw: Seq<(R, R)>) -> Seq<R> { Seq::new(raw.len(), |i: int| raw[i].0) }
spec fn abscissae3(raw: Seq<(R, R, R)>) -> Seq<R> { Seq::new(raw.len(), |i: int| raw[i].0) }
spec fn numbers(xs: Seq<R>) -> bool { forall|i: int| 0 <= i < xs.len() ==> (#[trigger] xs[i])@ != Ext::Nan }
spec fn descends_at(xs: Seq<R>, i: int) -> bool { 0 <= i && i + 1 < xs.len() && lt(xs[i + 1]@, xs[i]@) }
spec fn rises_at(xs: Seq<R>, i: int) -> bool { lt(xs[i]@, xs[i + 1]@) }
spec fn fitted<T>(xs: Seq<R>, least: int, res: Result<T, InterpolationError>) -> bool {
    if xs.len() < least { res == Err::<T, InterpolationError>(InterpolationError::InsufficientPointsError(xs.len() as usize)) }
    else {
        numbers(xs) ==> {
            &&& res matches Err(e) ==> e == InterpolationError::PointOrderError
            &&& (exists|i: int| #[trigger] descends_at(xs, i)) ==> res is Err
            &&& (forall|i: int| 0 <= i && i + 1 < xs.len() ==> #[trigger] rises_at(xs, i)) ==> res is Ok
        }
    }
}
spec fn points_of(raw: Seq<(R, R)>, points: Seq<Point2D>) -> bool {
    points.len() == raw.len() && forall|i: int| 0 <= i < raw.len() ==> (#[trigger] points[i]).x == raw[i].0 && points[i].y == raw[i].1
}
// what the loops of the fits know after n points
spec fn scanned(xs: Seq<R>, n: int) -> bool { forall|i: int| 0 <= i && i + 1 < n ==> !#[trigger] descends_at(xs, i) }

// all coordinates are real
spec fn real_points(p: Seq<Point2D>) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).x.f() && p[i].y.f() }
//@ item impl X for Point2D
    spec fn sx(&self) -> R { self.x }
//@ item impl X for Point2DWithSlope
    spec fn sx(&self) -> R { self.coordinate.x }
//@ fn Point2DWithSlope::new
    ensures res.coordinate.x == x, res.coordinate.y == y, res.dydx == dydx
//@ clo find_index_at_left_boundary 0
|$1| -> (b: bool) ensures b == lt($1.sx()@, x@)
//@ fn find_index_at_left_boundary
    ensures
        points@.len() < 2 ==> res == Err::<usize, InterpolationError>(InterpolationError::InsufficientPointsError(points@.len() as usize)),
        points@.len() >= 2 ==> (res matches Ok(i) ==> i + 1 < points@.len() <= usize::MAX),
        points@.len() >= 2 && ordered(points@) ==> match res {
            Ok(i) => le(points@[i as int].sx()@, x@) && le(x@, points@[i + 1].sx()@),
            Err(InterpolationError::OutOfLowerBound(q)) => q == x && !le(points@[0].sx()@, x@),
            Err(InterpolationError::OutOfUpperBound(q)) => q == x && !le(x@, points@[points@.len() - 1].sx()@),
            Err(_) => false,
        },

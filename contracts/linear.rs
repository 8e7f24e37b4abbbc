//@ use interp_base
//@ source --inherent Interpolator crates/qlab-math/src/interpolation/linear.rs
//@ prelude
// LINEAR
// all coordinates of the neighbours of a segment are real
spec fn chord(p: Point2D, q: Point2D, x: real) -> real { p.y.v() + (q.y.v() - p.y.v()) / (q.x.v() - p.x.v()) * (x - p.x.v()) }

//@ clo Linear::try_fit 0
|$1: &Point2D| -> (b: bool) ensures b == lt(x@, $1.x@)
//@ fn Linear::try_fit
    ensures
        fitted(abscissae(raw_points@), 0, res),
        res matches Ok(l) ==> points_of(raw_points@, l.points@)
//@ loop Linear::try_fit 0
    invariant
        it0.seq().len() == raw_points@.len(), forall|i: int| 0 <= i < raw_points@.len() ==> *it0.seq()[i] == raw_points@[i],
        points_of(raw_points@.take(it0.index@), points@),
        scanned(abscissae(raw_points@), it0.index@), raw_points@.len() <= usize::MAX
//@ loopstart Linear::try_fit 0
    proof { let xs = abscissae(raw_points@); let i = it0.index@; if i > 0 { assert(descends_at(xs, i - 1) == lt(raw_points@[i].0@, raw_points@[i - 1].0@)); assert(!(rises_at(xs, i - 1) && descends_at(xs, i - 1))); } }
//@ fn Linear::try_value
    ensures
        answered(self.points@, x, res),
        // C17
        forall|i: int| #[trigger] inside(self.points@, i, x) && ordered(self.points@) && self.points@[i].y.f() && self.points@[i + 1].y.f()
            ==> gives(res, chord(self.points@[i], self.points@[i + 1], x.v())),
        // C16
        forall|i: int| #[trigger] at_knot(self.points@, i, x) && self.points@.len() >= 2 && strict(self.points@) && real_points(self.points@)
            ==> gives(res, self.points@[i].y.v()),
//@ tail Linear::try_value
    proof {
        let p = self.points@; let k = pos as int;
        if ordered(p) {
            assert(bracket(p, k, x));
            assert forall|i: int| #[trigger] inside(p, i, x) implies i == k by { bracket_inside(p, k, i, x); }
        }
        if strict(p) && real_points(p) {
            strict_ordered(p);
            assert forall|i: int| #[trigger] at_knot(p, i, x) implies i == k || i == k + 1 by { bracket_knot(p, k, i, x); }
            let (h, d) = (p[k + 1].x.v() - p[k].x.v(), p[k + 1].y.v() - p[k].y.v());
            assert(p[k].sx().v() < p[k + 1].sx().v());
            assert(d / h * h == d) by(nonlinear_arith) requires h > 0real;
            assert(d / h * 0real == 0real) by(nonlinear_arith);
        }
    }
//@ attr Linear::try_fit
    #[verifier::loop_isolation(false)]

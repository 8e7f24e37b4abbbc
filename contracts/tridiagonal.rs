//@ source crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs
//@ prelude
// TRIDIAGONAL SYSTEMS
#[verifier::external]
impl core::fmt::Debug for MatrixValidationError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> vstd::pervasive::cloned(#[trigger] s@[i], r@[i]);

pub open spec fn finite(s: Seq<R>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).f() }
// the entry of the lower (upper) diagonal in row j, and 0 outside of the matrix
pub open spec fn lo(l: Seq<R>, j: int) -> real { if j > 0 { l[j - 1].v() } else { 0real } }
pub open spec fn up(u: Seq<R>, j: int) -> real { if j < u.len() { u[j].v() } else { 0real } }
pub open spec fn value(x: Seq<R>, j: int) -> real { if 0 <= j < x.len() { x[j].v() } else { 0real } }
pub open spec fn row_times(l: Seq<R>, d: Seq<R>, u: Seq<R>, x: Seq<R>, j: int) -> real { d[j].v() * value(x, j) + up(u, j) * value(x, j + 1) + lo(l, j) * value(x, j - 1) }
pub open spec fn dominant(l: Seq<R>, d: Seq<R>, u: Seq<R>) -> bool {
    &&& finite(l) && finite(d) && finite(u)
    &&& forall|j: int| 0 <= j < l.len() ==> (#[trigger] l[j]).v() >= 0real
    &&& forall|j: int| 0 <= j < u.len() ==> (#[trigger] u[j]).v() >= 0real
    &&& forall|j: int| 0 <= j < d.len() ==> (#[trigger] d[j]).v() > lo(l, j) + up(u, j)
}
pub open spec fn solves(l: Seq<R>, d: Seq<R>, u: Seq<R>, x: Seq<R>, b: Seq<R>) -> bool {
    finite(x) && forall|j: int| 0 <= j < d.len() ==> #[trigger] row_times(l, d, u, x, j) == b[j].v()
}
// what the forward sweep knows of row j
spec fn pivot(l: Seq<R>, d: Seq<R>, c: Seq<R>, j: int) -> real { d[j].v() - lo(l, j) * value(c, j - 1) }
spec fn swept(l: Seq<R>, d: Seq<R>, u: Seq<R>, b: Seq<R>, c: Seq<R>, x: Seq<R>, j: int) -> bool {
    &&& pivot(l, d, c, j) > up(u, j)
    &&& j < u.len() ==> c[j].f() && 0real <= c[j].v() < 1real && pivot(l, d, c, j) * c[j].v() == u[j].v()
    &&& x[j].f() && pivot(l, d, c, j) * x[j].v() == b[j].v() - lo(l, j) * value(x, j - 1)
}
proof fn quotient(a: real, p: real, u: real)
    requires p > u, u >= 0real
    ensures p * (a / p) == a, 0real <= u / p < 1real, p * (u / p) == u
{
    assert(p * (a / p) == a) by(nonlinear_arith) requires p > 0real;
    let c = u / p;
    assert(p * c == u) by(nonlinear_arith) requires p > 0real, c == u / p;
    assert(c >= 0real) by(nonlinear_arith) requires p * c == u, p > 0real, u >= 0real;
    assert(c < 1real) by(nonlinear_arith) requires p * c == u, p > u, u >= 0real;
}
proof fn pivot_positive(l: real, c: real, d: real, u: real)
    requires 0real <= c < 1real, l >= 0real, d > l + u
    ensures d - l * c > u
{
    assert(l * c <= l) by(nonlinear_arith) requires 0real <= c < 1real, l >= 0real;
}
// substitution: a row of the system from a row of the sweep
proof fn row_from_sweep(l: real, d: real, u: real, b: real, cp: real, c: real, xp: real, xj: real, p: real, y: real, yp: real, yn: real)
    requires
        p == d - l * cp, p * c == u, p * xj == b - l * xp,
        y == xj - c * yn, yp == xp - cp * y,
    ensures d * y + u * yn + l * yp == b
{
    assert(l * yp == l * xp - l * cp * y) by(nonlinear_arith) requires yp == xp - cp * y;
    assert(d * y == p * y + l * cp * y) by(nonlinear_arith) requires p == d - l * cp;
    assert(p * y == p * xj - p * c * yn) by(nonlinear_arith) requires y == xj - c * yn;
    assert(u * yn == p * c * yn) by(nonlinear_arith) requires p * c == u;
}
impl TridiagonalMatrix {
    spec fn wf(&self) -> bool {
        self.diagonal@.len() == self.size && self.size >= 1 && self.upper_diagonal@.len() + 1 == self.size && self.lower_diagonal@.len() + 1 == self.size
    }
}
impl TridiagonalMatrix {
    pub closed spec fn times(&self, rhs: Vec<R>, res: Option<Vec<R>>) -> bool {
        (rhs@.len() != self.size) == (res is None) && match res {
            Some(r) => {
                &&& r@.len() == self.size
                &&& finite(self.lower_diagonal@) && finite(self.diagonal@) && finite(self.upper_diagonal@) && finite(rhs@) ==> finite(r@) && forall|j: int| 0 <= j < self.size ==> (#[trigger] r@[j]).v() == row_times(self.lower_diagonal@, self.diagonal@, self.upper_diagonal@, rhs@, j)
            },
            None => true,
        }
    }
}
impl vstd::std_specs::ops::MulSpecImpl<Vec<R>> for TridiagonalMatrix {
    open spec fn obeys_mul_spec() -> bool { false }
    closed spec fn mul_req(self, o: Vec<R>) -> bool { self.wf() }
    open spec fn mul_spec(self, o: Vec<R>) -> Option<Vec<R>> { arbitrary() }
}
//@ fn TridiagonalMatrix::try_new
    requires upper_diagonal@.len() < usize::MAX
    ensures
        upper_diagonal@.len() == lower_diagonal@.len() && upper_diagonal@.len() + 1 == diagonal@.len() ==> res is Ok,
        res matches Ok(m) ==> m.wf() && m.upper_diagonal == upper_diagonal && m.diagonal == diagonal && m.lower_diagonal == lower_diagonal
//@ fn TridiagonalMatrix::solve
    requires self.wf(), b@.len() == self.size
    ensures
        res@.len() == self.size,
        dominant(self.lower_diagonal@, self.diagonal@, self.upper_diagonal@) && finite(b@) ==> solves(self.lower_diagonal@, self.diagonal@, self.upper_diagonal@, res@, b@)
//@ start TridiagonalMatrix::solve
    proof {
        if self.size == 1 && dominant(self.lower_diagonal@, self.diagonal@, self.upper_diagonal@) && finite(b@) {
            assert(self.diagonal@[0].v() > 0real);
            let (p, a) = (self.diagonal@[0].v(), b@[0].v());
            quotient(a, p, 0real);
        }
    }
//@ fn TridiagonalMatrix::mul
    ensures self.times(rhs, res)
//@ loop TridiagonalMatrix::mul 0
    invariant
        self.wf(), rhs@.len() == self.size, ret@.len() == it0.index@,
        finite(self.lower_diagonal@) && finite(self.diagonal@) && finite(self.upper_diagonal@) && finite(rhs@) ==> finite(ret@) && forall|j: int| 0 <= j < it0.index@ ==> (#[trigger] ret@[j]).v() == row_times(self.lower_diagonal@, self.diagonal@, self.upper_diagonal@, rhs@, j)
//@ loopstart TridiagonalMatrix::mul 0
    proof {
        assert(0real * value(rhs@, i + 1) == 0real) by(nonlinear_arith);
        assert(0real * value(rhs@, i - 1) == 0real) by(nonlinear_arith);
    }
//@ fn solve_with_thomas_algorithm_unchecked
    requires matrix_size >= 2, lower_diagonal@.len() + 1 == matrix_size, diagonal@.len() == matrix_size, upper_diagonal@.len() + 1 == matrix_size, b@.len() == matrix_size
    ensures
        res@.len() == matrix_size,
        dominant(lower_diagonal@, diagonal@, upper_diagonal@) && finite(b@) ==> solves(lower_diagonal@, diagonal@, upper_diagonal@, res@, b@)
//@ before solve_with_thomas_algorithm_unchecked 0
    let ghost (l, d, u, p) = (lower_diagonal@, diagonal@, upper_diagonal@, dominant(lower_diagonal@, diagonal@, upper_diagonal@) && finite(b@));
    proof {
        if p {
            assert(d[0].v() > up(u, 0));
            assert(u[0].v() >= 0real);
            assert(0real * 0real == 0real);
            quotient(b@[0].v(), d[0].v(), u[0].v());
            assert(pivot(l, d, scratch@, 0) == d[0].v());
            assert(swept(l, d, u, b@, scratch@, x@, 0));
        }
    }
//@ loop solve_with_thomas_algorithm_unchecked 0
    invariant
        matrix_size >= 2, l == lower_diagonal@, d == diagonal@, u == upper_diagonal@, l.len() + 1 == matrix_size, d.len() == matrix_size, u.len() + 1 == matrix_size, b@.len() == matrix_size, x@.len() == matrix_size,
        p ==> dominant(l, d, u) && finite(b@),
        scratch@.len() == if it0.index@ + 1 < matrix_size { it0.index@ + 1 } else { matrix_size - 1 },
        forall|j: int| it0.index@ + 1 <= j < matrix_size ==> (#[trigger] x@[j])@ == b@[j]@,
        p ==> forall|j: int| 0 <= j < it0.index@ + 1 ==> #[trigger] swept(l, d, u, b@, scratch@, x@, j)
//@ loopstart solve_with_thomas_algorithm_unchecked 0
    let ghost (c0, x0) = (scratch@, x@);
    proof {
        if p {
            assert(swept(l, d, u, b@, scratch@, x@, ix - 1));
            assert(d[ix as int].v() > lo(l, ix as int) + up(u, ix as int));
            assert(l[ix - 1].v() >= 0real);
            if ix < matrix_size - 1 { assert(u[ix as int].v() >= 0real); }
            pivot_positive(l[ix - 1].v(), c0[ix - 1].v(), d[ix as int].v(), up(u, ix as int));
            let q = d[ix as int].v() - l[ix - 1].v() * c0[ix - 1].v();
            quotient(x0[ix as int].v() - l[ix - 1].v() * x0[ix - 1].v(), q, up(u, ix as int));
        }
    }
//@ loopend solve_with_thomas_algorithm_unchecked 0
    proof {
        if p {
            assert(swept(l, d, u, b@, scratch@, x@, ix as int));
            assert forall|j: int| 0 <= j < ix implies #[trigger] swept(l, d, u, b@, scratch@, x@, j) by {
                assert(swept(l, d, u, b@, c0, x0, j));
            }
        }
    }
//@ before solve_with_thomas_algorithm_unchecked 1
    let ghost xp = x@;
    proof {
        if p { assert(swept(l, d, u, b@, scratch@, xp, matrix_size - 1)); }
        assert(0real * value(x@, matrix_size as int) == 0real) by(nonlinear_arith);
    }
//@ loop solve_with_thomas_algorithm_unchecked 1
    invariant
        matrix_size >= 2, l == lower_diagonal@, d == diagonal@, u == upper_diagonal@, l.len() + 1 == matrix_size, d.len() == matrix_size, u.len() + 1 == matrix_size, b@.len() == matrix_size, x@.len() == matrix_size, xp.len() == matrix_size,
        scratch@.len() == matrix_size - 1,
        p ==> forall|j: int| 0 <= j < matrix_size ==> #[trigger] swept(l, d, u, b@, scratch@, xp, j),
        forall|j: int| 0 <= j < matrix_size - 1 - it1.index@ ==> #[trigger] x@[j] == xp[j],
        x@[matrix_size - 1] == xp[matrix_size - 1],
        p ==> forall|j: int| matrix_size - 1 - it1.index@ <= j < matrix_size ==> (#[trigger] x@[j]).f() && x@[j].v() == xp[j].v() - value(scratch@, j) * value(x@, j + 1)
//@ loopstart solve_with_thomas_algorithm_unchecked 1
    proof {
        assert(ix == matrix_size - 2 - it1.index@);
        if p { assert(swept(l, d, u, b@, scratch@, xp, ix as int)); assert(x@[ix + 1].f()); }
    }
//@ tail solve_with_thomas_algorithm_unchecked
    proof {
        if p {
            assert forall|j: int| 0 <= j < matrix_size implies (#[trigger] x@[j]).f() && row_times(l, d, u, x@, j) == b@[j].v() by {
                assert(swept(l, d, u, b@, scratch@, xp, j));
                let (xj, yj) = (xp[j], x@[j]);
                let cj = value(scratch@, j);
                let pj = pivot(l, d, scratch@, j);
                assert(pj * 0real == 0real) by(nonlinear_arith);
                assert(0real * value(x@, j + 1) == 0real) by(nonlinear_arith);
                if j > 0 {
                    assert(x@[j - 1].v() == xp[j - 1].v() - value(scratch@, j - 1) * value(x@, j));
                    row_from_sweep(l[j - 1].v(), d[j].v(), up(u, j), b@[j].v(), scratch@[j - 1].v(), cj, xp[j - 1].v(), xj.v(), pj, yj.v(), x@[j - 1].v(), value(x@, j + 1));
                } else {
                    assert(0real * 0real == 0real);
                    row_from_sweep(0real, d[j].v(), up(u, j), b@[j].v(), 0real, cj, 0real, xj.v(), pj, yj.v(), 0real - 0real * yj.v(), value(x@, j + 1));
                    assert(0real * (0real - 0real * yj.v()) == 0real) by(nonlinear_arith);
                }
            }
        }
    }

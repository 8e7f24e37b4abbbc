//@ use errors
//@ prelude
use core::marker::PhantomData;
use vstd::std_specs::iter::IteratorSpec;
use ComputeError::InvalidInput;
include scalar.rs
include std_iter.rs
include date.rs
include date_sub.rs

// A day count: a function of two dates (the contracts of C06 and C07), zero between equal dates.
pub trait DayCount: Copy {
    spec fn fraction(a: Date, b: Date) -> QLabResult<R>;
    fn calculate_day_count_fraction(date1: Date, date2: Date) -> (r: QLabResult<R>) ensures r == Self::fraction(date1, date2);
    proof fn same_day(a: Date) ensures Self::fraction(a, a) matches Ok(t) && t@ == Ext::Fin(0real);
}
// Any interpolator: fitting and reading off are functions.
pub trait Interpolator: Sized {
    spec fn base() -> Self;
    spec fn fit(self, p: Seq<(R, R)>) -> Result<Self, InterpolationError>;
    spec fn value(&self, t: R) -> Result<R, InterpolationError>;
    fn default() -> (r: Self) ensures r == Self::base();
    fn try_fit(self, xs_and_ys: &[(R, R)]) -> (r: Result<Self, InterpolationError>) ensures r == self.fit(xs_and_ys@);
    fn try_value(&self, t: R) -> (r: Result<R, InterpolationError>) ensures r == self.value(t);
}
// the day count and the interpolator of a curve: any
#[derive(Clone, Copy)]
pub struct Dc { x: u8 }
impl DayCount for Dc {
    uninterp spec fn fraction(a: Date, b: Date) -> QLabResult<R>;
    #[verifier::external_body]
    fn calculate_day_count_fraction(date1: Date, date2: Date) -> (r: QLabResult<R>) { unimplemented!() }
    #[verifier::external_body]
    proof fn same_day(a: Date) { }
}
pub struct In { x: u8 }
impl Interpolator for In {
    uninterp spec fn base() -> Self;
    uninterp spec fn fit(self, p: Seq<(R, R)>) -> Result<Self, InterpolationError>;
    uninterp spec fn value(&self, t: R) -> Result<R, InterpolationError>;
    #[verifier::external_body]
    fn default() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn try_fit(self, xs_and_ys: &[(R, R)]) -> (r: Result<Self, InterpolationError>) { unimplemented!() }
    #[verifier::external_body]
    fn try_value(&self, t: R) -> (r: Result<R, InterpolationError>) { unimplemented!() }
}
// the exponential is a homomorphism
pub axiom fn exp_zero() ensures spec_exp(0real) == 1real;
pub axiom fn exp_add(a: real, b: real) ensures spec_exp(a + b) == spec_exp(a) * spec_exp(b);

pub broadcast proof fn neg_mul(a: R, n: R, b: R, r: R)
    requires #[trigger] rneg(a, n), #[trigger] rmul(n, b, r), a.f(), b.f()
    ensures r@ == Ext::Fin(-(a.v() * b.v()))
{
    assert((-a.v()) * b.v() == -(a.v() * b.v())) by(nonlinear_arith);
}
spec fn lifts<T>(r: Result<T, InterpolationError>, s: QLabResult<T>) -> bool {
    match r { Ok(v) => s == Ok::<T, QLabError>(v), Err(_) => s is Err }
}

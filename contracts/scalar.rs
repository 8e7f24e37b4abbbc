// The scalar. `R` stands for every `V: Value`: a number that is real, an infinity or not a number.
// Comparisons are those of IEEE 754, exactly. Arithmetic is that of the reals where the operands
// are real and, for a quotient, the divisor is not zero; every other result is left open.
pub enum Ext { Nan, NegInf, Fin(real), PosInf }

pub open spec fn lt(a: Ext, b: Ext) -> bool {
    match (a, b) {
        (Ext::Nan, _) => false,
        (_, Ext::Nan) => false,
        (Ext::Fin(x), Ext::Fin(y)) => x < y,
        (Ext::NegInf, _) => b != Ext::NegInf,
        (_, Ext::PosInf) => a != Ext::PosInf,
        _ => false,
    }
}
pub open spec fn le(a: Ext, b: Ext) -> bool { lt(a, b) || (a == b && a != Ext::Nan) }
pub open spec fn fin(a: Ext) -> bool { a is Fin }
pub open spec fn real_of(a: Ext) -> real { a->0 }
pub open spec fn pcmp(a: Ext, b: Ext) -> Option<core::cmp::Ordering> {
    if lt(a, b) { Some(core::cmp::Ordering::Less) }
    else if lt(b, a) { Some(core::cmp::Ordering::Greater) }
    else if a == b && a != Ext::Nan { Some(core::cmp::Ordering::Equal) }
    else { None }
}

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct R { x: f64 }

impl R {
    pub uninterp spec fn spec_view(&self) -> Ext;
    #[verifier::inline]
    pub open spec fn v(&self) -> real { self@->0 }
    #[verifier::inline]
    pub open spec fn f(&self) -> bool { self@ is Fin }
    #[verifier::external_body]
    pub fn zero() -> (r: R) ensures r@ == Ext::Fin(0real) { unimplemented!() }
    #[verifier::external_body]
    pub fn one() -> (r: R) ensures r@ == Ext::Fin(1real) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_i8(n: i8) -> (r: Option<R>) ensures r is Some, r->0@ == Ext::Fin(n as real) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_u8(n: u8) -> (r: Option<R>) ensures r is Some, r->0@ == Ext::Fin(n as real) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_u32(n: u32) -> (r: Option<R>) ensures r is Some, r->0@ == Ext::Fin(n as real) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_i32(n: i32) -> (r: Option<R>) ensures r is Some, r->0@ == Ext::Fin(n as real) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_i64(n: i64) -> (r: Option<R>) ensures r is Some, r->0@ == Ext::Fin(n as real) { unimplemented!() }
    #[verifier::external_body]
    pub fn recip(self) -> (r: R) ensures self.f() && self.v() != 0real ==> r@ == Ext::Fin(1real / self.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn exp(self) -> (r: R) ensures self.f() ==> r@ == Ext::Fin(spec_exp(self.v())) { unimplemented!() }
}
impl View for R { type V = Ext; open spec fn view(&self) -> Ext { self.spec_view() } }

pub uninterp spec fn spec_exp(x: real) -> real;

pub open spec fn both(a: R, b: R) -> bool { a.f() && b.f() }
pub open spec fn radd(a: R, b: R, r: R) -> bool { both(a, b) ==> r@ == Ext::Fin(a.v() + b.v()) }
pub open spec fn rsub(a: R, b: R, r: R) -> bool { both(a, b) ==> r@ == Ext::Fin(a.v() - b.v()) }
pub open spec fn rmul(a: R, b: R, r: R) -> bool { both(a, b) ==> r@ == Ext::Fin(a.v() * b.v()) && a.v() * b.v() == b.v() * a.v() }
pub open spec fn rdiv(a: R, b: R, r: R) -> bool { both(a, b) && b.v() != 0real ==> r@ == Ext::Fin(a.v() / b.v()) }
pub open spec fn rneg(a: R, r: R) -> bool { a.f() ==> r@ == Ext::Fin(-a.v()) }

impl vstd::std_specs::cmp::PartialEqSpecImpl for R {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &R) -> bool { self@ == o@ && self@ != Ext::Nan }
}
impl PartialEq for R { #[verifier::external_body] fn eq(&self, o: &R) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for R {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &R) -> Option<core::cmp::Ordering> { pcmp(self@, o@) }
}
impl PartialOrd for R { #[verifier::external_body] fn partial_cmp(&self, o: &R) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl core::ops::Add for R {
    type Output = R;
    #[verifier::external_body]
    fn add(self, o: R) -> (r: R) ensures radd(self, o, r) { unimplemented!() }
}
impl vstd::std_specs::ops::AddSpecImpl for R {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: R) -> bool { true }
    open spec fn add_spec(self, o: R) -> R { arbitrary() }
}
impl core::ops::AddAssign for R {
    #[verifier::external_body]
    fn add_assign(&mut self, o: R) ensures radd(*old(self), o, *final(self)) { unimplemented!() }
}
impl vstd::std_specs::ops::AddAssignSpecImpl for R {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, o: R) -> bool { true }
    open spec fn add_assign_spec(&self, o: R) -> &R { arbitrary() }
}
impl core::ops::Sub for R {
    type Output = R;
    #[verifier::external_body]
    fn sub(self, o: R) -> (r: R) ensures rsub(self, o, r) { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl for R {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: R) -> bool { true }
    open spec fn sub_spec(self, o: R) -> R { arbitrary() }
}
impl core::ops::SubAssign for R {
    #[verifier::external_body]
    fn sub_assign(&mut self, o: R) ensures rsub(*old(self), o, *final(self)) { unimplemented!() }
}
impl vstd::std_specs::ops::SubAssignSpecImpl for R {
    open spec fn obeys_sub_assign_spec() -> bool { false }
    open spec fn sub_assign_req(&self, o: R) -> bool { true }
    open spec fn sub_assign_spec(&self, o: R) -> &R { arbitrary() }
}
impl core::ops::Mul for R {
    type Output = R;
    #[verifier::external_body]
    fn mul(self, o: R) -> (r: R) ensures rmul(self, o, r) { unimplemented!() }
}
impl vstd::std_specs::ops::MulSpecImpl for R {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: R) -> bool { true }
    open spec fn mul_spec(self, o: R) -> R { arbitrary() }
}
impl core::ops::MulAssign for R {
    #[verifier::external_body]
    fn mul_assign(&mut self, o: R) ensures rmul(*old(self), o, *final(self)) { unimplemented!() }
}
impl vstd::std_specs::ops::MulAssignSpecImpl for R {
    open spec fn obeys_mul_assign_spec() -> bool { false }
    open spec fn mul_assign_req(&self, o: R) -> bool { true }
    open spec fn mul_assign_spec(&self, o: R) -> &R { arbitrary() }
}
impl core::ops::Div for R {
    type Output = R;
    #[verifier::external_body]
    fn div(self, o: R) -> (r: R) ensures rdiv(self, o, r) { unimplemented!() }
}
impl vstd::std_specs::ops::DivSpecImpl for R {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, o: R) -> bool { true }
    open spec fn div_spec(self, o: R) -> R { arbitrary() }
}
impl core::ops::DivAssign for R {
    #[verifier::external_body]
    fn div_assign(&mut self, o: R) ensures rdiv(*old(self), o, *final(self)) { unimplemented!() }
}
impl vstd::std_specs::ops::DivAssignSpecImpl for R {
    open spec fn obeys_div_assign_spec() -> bool { false }
    open spec fn div_assign_req(&self, o: R) -> bool { true }
    open spec fn div_assign_spec(&self, o: R) -> &R { arbitrary() }
}
impl core::ops::Neg for R {
    type Output = R;
    #[verifier::external_body]
    fn neg(self) -> (r: R) ensures rneg(self, r) { unimplemented!() }
}
impl vstd::std_specs::ops::NegSpecImpl for R {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> R { arbitrary() }
}

// nalgebra, by contract: entries, products and sums are those of matrices, where all entries are real.
pub struct Vector4 { pub x: R, pub y: R, pub z: R, pub w: R }
pub struct RowVector4 { pub x: R, pub y: R, pub z: R, pub w: R }
pub struct Matrix1 { pub x: R }
pub struct Matrix4 { pub r0: RowVector4, pub r1: RowVector4, pub r2: RowVector4, pub r3: RowVector4 }
impl Vector4 {
    pub open spec fn f(self) -> bool { self.x.f() && self.y.f() && self.z.f() && self.w.f() }
    #[verifier::external_body]
    pub fn new(x: R, y: R, z: R, w: R) -> (r: Vector4) ensures r == (Vector4 { x, y, z, w }) { unimplemented!() }
    #[verifier::external_body]
    pub fn transpose(&self) -> (r: RowVector4) ensures r == (RowVector4 { x: self.x, y: self.y, z: self.z, w: self.w }) { unimplemented!() }
}
impl RowVector4 {
    pub open spec fn f(self) -> bool { self.x.f() && self.y.f() && self.z.f() && self.w.f() }
    pub open spec fn dot(self, o: Vector4) -> real { self.x.v() * o.x.v() + self.y.v() * o.y.v() + self.z.v() * o.z.v() + self.w.v() * o.w.v() }
}
impl Matrix4 {
    pub open spec fn f(self) -> bool { self.r0.f() && self.r1.f() && self.r2.f() && self.r3.f() }
    #[verifier::external_body]
    pub fn new(a: R, b: R, c: R, d: R, e: R, f: R, g: R, h: R, i: R, j: R, k: R, l: R, m: R, n: R, o: R, p: R) -> (r: Matrix4)
        ensures r == (Matrix4 {
            r0: RowVector4 { x: a, y: b, z: c, w: d },
            r1: RowVector4 { x: e, y: f, z: g, w: h },
            r2: RowVector4 { x: i, y: j, z: k, w: l },
            r3: RowVector4 { x: m, y: n, z: o, w: p },
        })
    { unimplemented!() }
}
impl Clone for Matrix4 { #[verifier::external_body] fn clone(&self) -> (r: Matrix4) ensures r == *self { unimplemented!() } }
impl Copy for Matrix4 {}
impl Clone for RowVector4 { #[verifier::external_body] fn clone(&self) -> (r: RowVector4) ensures r == *self { unimplemented!() } }
impl Copy for RowVector4 {}
impl Clone for Vector4 { #[verifier::external_body] fn clone(&self) -> (r: Vector4) ensures r == *self { unimplemented!() } }
impl Copy for Vector4 {}
impl core::ops::Mul<Vector4> for RowVector4 {
    type Output = Matrix1;
    #[verifier::external_body]
    fn mul(self, o: Vector4) -> (r: Matrix1) ensures self.f() && o.f() ==> r.x@ == Ext::Fin(self.dot(o)) { unimplemented!() }
}
impl vstd::std_specs::ops::MulSpecImpl<Vector4> for RowVector4 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: Vector4) -> bool { true }
    open spec fn mul_spec(self, o: Vector4) -> Matrix1 { arbitrary() }
}
impl core::ops::Mul<Vector4> for Matrix4 {
    type Output = Vector4;
    #[verifier::external_body]
    fn mul(self, o: Vector4) -> (r: Vector4)
        ensures self.f() && o.f() ==> r.x@ == Ext::Fin(self.r0.dot(o)) && r.y@ == Ext::Fin(self.r1.dot(o)) && r.z@ == Ext::Fin(self.r2.dot(o)) && r.w@ == Ext::Fin(self.r3.dot(o))
    { unimplemented!() }
}
impl vstd::std_specs::ops::MulSpecImpl<Vector4> for Matrix4 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: Vector4) -> bool { true }
    open spec fn mul_spec(self, o: Vector4) -> Vector4 { arbitrary() }
}
impl core::ops::Mul<Matrix4> for RowVector4 {
    type Output = RowVector4;
    #[verifier::external_body]
    fn mul(self, o: Matrix4) -> (r: RowVector4)
        ensures self.f() && o.f() ==> {
            &&& r.x@ == Ext::Fin(self.x.v() * o.r0.x.v() + self.y.v() * o.r1.x.v() + self.z.v() * o.r2.x.v() + self.w.v() * o.r3.x.v())
            &&& r.y@ == Ext::Fin(self.x.v() * o.r0.y.v() + self.y.v() * o.r1.y.v() + self.z.v() * o.r2.y.v() + self.w.v() * o.r3.y.v())
            &&& r.z@ == Ext::Fin(self.x.v() * o.r0.z.v() + self.y.v() * o.r1.z.v() + self.z.v() * o.r2.z.v() + self.w.v() * o.r3.z.v())
            &&& r.w@ == Ext::Fin(self.x.v() * o.r0.w.v() + self.y.v() * o.r1.w.v() + self.z.v() * o.r2.w.v() + self.w.v() * o.r3.w.v())
        }
    { unimplemented!() }
}
impl vstd::std_specs::ops::MulSpecImpl<Matrix4> for RowVector4 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: Matrix4) -> bool { true }
    open spec fn mul_spec(self, o: Matrix4) -> RowVector4 { arbitrary() }
}

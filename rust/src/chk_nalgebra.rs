//! The contracts of nalgebra that the proofs assume (contracts/nalgebra.rs, contracts/cubic.rs),
//! evaluated on the compiled crate with indeterminates for entries. nalgebra's code is generic in
//! the entries and these operations only add and multiply them, so that one evaluation in the
//! polynomials is one for all entries of a commutative ring.

use nalgebra::{DVector, Matrix1, Matrix4, RowVector4, Vector4};
use num_traits::{One, Zero};
use std::collections::BTreeMap;
use std::ops::{Add, AddAssign, Mul, MulAssign};

/// monomial (its indeterminates in order) -> coefficient
#[derive(Clone, Debug, PartialEq)]
struct Poly(BTreeMap<Vec<u32>, i64>);

impl Poly {
    fn var(n: u32) -> Poly {
        Poly(BTreeMap::from([(vec![n], 1)]))
    }
}
impl Add for Poly {
    type Output = Poly;
    fn add(mut self, o: Poly) -> Poly {
        for (m, c) in o.0 {
            *self.0.entry(m).or_insert(0) += c;
        }
        self.0.retain(|_, c| *c != 0);
        self
    }
}
impl Mul for Poly {
    type Output = Poly;
    fn mul(self, o: Poly) -> Poly {
        let mut r = Poly::zero();
        for (m, c) in &self.0 {
            for (n, d) in &o.0 {
                let mut k = [&m[..], &n[..]].concat();
                k.sort();
                r = r + Poly(BTreeMap::from([(k, c * d)]));
            }
        }
        r
    }
}
impl AddAssign for Poly {
    fn add_assign(&mut self, o: Poly) {
        *self = self.clone() + o;
    }
}
impl MulAssign for Poly {
    fn mul_assign(&mut self, o: Poly) {
        *self = self.clone() * o;
    }
}
impl Zero for Poly {
    fn zero() -> Poly {
        Poly(BTreeMap::new())
    }
    fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
}
impl One for Poly {
    fn one() -> Poly {
        Poly(BTreeMap::from([(vec![], 1)]))
    }
}

/// (evaluated, failed, the first that fails)
pub fn contracts() -> (u64, u64, String) {
    let a = |i: usize, j: usize| Poly::var((4 * i + j) as u32);
    let v = |i: usize| Poly::var(16 + i as u32);
    let u = |i: usize| Poly::var(20 + i as u32);
    let sum = |f: &dyn Fn(usize) -> Poly| f(0) + f(1) + f(2) + f(3);
    let m = Matrix4::new(
        a(0, 0), a(0, 1), a(0, 2), a(0, 3), a(1, 0), a(1, 1), a(1, 2), a(1, 3), //
        a(2, 0), a(2, 1), a(2, 2), a(2, 3), a(3, 0), a(3, 1), a(3, 2), a(3, 3),
    );
    let x = Vector4::new(v(0), v(1), v(2), v(3));
    let t = Vector4::new(u(0), u(1), u(2), u(3)).transpose();
    let mut out = (0, 0, String::new());
    let mut is = |what: &str, ok: bool| {
        out.0 += 1;
        if !ok {
            out.1 += 1;
            if out.2.is_empty() {
                out.2 = format!("nalgebra: {what}");
            }
        }
    };
    is("entries of Vector4", (x.x.clone(), x.y.clone(), x.z.clone(), x.w.clone()) == (v(0), v(1), v(2), v(3)));
    is("transpose", (t.x.clone(), t.y.clone(), t.z.clone(), t.w.clone()) == (u(0), u(1), u(2), u(3)));
    let r: Matrix1<Poly> = t.clone() * x.clone();
    is("row times column", r.x == sum(&|i| u(i) * v(i)));
    let r: Vector4<Poly> = m.clone() * x.clone();
    is("matrix times column", [r.x.clone(), r.y.clone(), r.z.clone(), r.w.clone()] == std::array::from_fn(|i| sum(&|j| a(i, j) * v(j))));
    let r: RowVector4<Poly> = t.clone() * m.clone();
    is("row times matrix", [r.x.clone(), r.y.clone(), r.z.clone(), r.w.clone()] == std::array::from_fn(|j| sum(&|i| u(i) * a(i, j))));
    for n in 0..=40u32 {
        let p = |k: u32| (0..n).map(|i| Poly::var(k + i)).collect::<Vec<_>>();
        let s = DVector::from(p(0)) + DVector::from(p(100));
        is("sum of two vectors", s.as_slice() == p(0).into_iter().zip(p(100)).map(|(a, b)| a + b).collect::<Vec<_>>());
        is("entries of DVector", DVector::from(p(0)).as_slice() == p(0));
    }
    out
}

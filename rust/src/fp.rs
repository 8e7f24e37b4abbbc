//! A value type that computes exactly: the prime field of 2^61 - 1, each element carrying a floating
//! approximation that is used only to order values. A rational identity between the inputs and the
//! outputs of the generic code holds in the field iff it holds (up to a chance of about 2^-60).

use crate::value_type::unsupported;
use num_traits::real::Real;
use num_traits::{FromPrimitive, Num, NumCast, One, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::ops::*;

pub const P: u64 = (1 << 61) - 1;

#[derive(Clone, Copy, Debug, Default)]
pub struct Fp {
    pub v: u64,
    pub a: f64,
}

fn mulp(a: u64, b: u64) -> u64 {
    ((a as u128 * b as u128) % P as u128) as u64
}
fn powp(mut a: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = mulp(r, a);
        }
        a = mulp(a, a);
        e >>= 1;
    }
    r
}
fn no(what: &str) -> ! {
    unsupported(what)
}

impl Fp {
    pub fn int(n: i64) -> Fp {
        Fp { v: (n as i128).rem_euclid(P as i128) as u64, a: n as f64 }
    }
    pub fn ratio(n: i64, d: i64) -> Fp {
        Fp::int(n) / Fp::int(d)
    }
}
impl PartialEq for Fp {
    fn eq(&self, o: &Fp) -> bool {
        self.v == o.v
    }
}
impl PartialOrd for Fp {
    fn partial_cmp(&self, o: &Fp) -> Option<Ordering> {
        if self.v == o.v {
            return Some(Ordering::Equal);
        }
        if (self.a - o.a).abs() <= 1e-9 * (self.a.abs() + o.a.abs()) {
            no("values too close to order");
        }
        self.a.partial_cmp(&o.a)
    }
}
impl Add for Fp {
    type Output = Fp;
    fn add(self, o: Fp) -> Fp {
        Fp { v: (self.v + o.v) % P, a: self.a + o.a }
    }
}
impl Sub for Fp {
    type Output = Fp;
    fn sub(self, o: Fp) -> Fp {
        Fp { v: (self.v + P - o.v) % P, a: self.a - o.a }
    }
}
impl Mul for Fp {
    type Output = Fp;
    fn mul(self, o: Fp) -> Fp {
        Fp { v: mulp(self.v, o.v), a: self.a * o.a }
    }
}
impl Div for Fp {
    type Output = Fp;
    fn div(self, o: Fp) -> Fp {
        if o.v == 0 {
            no("division by zero");
        }
        Fp { v: mulp(self.v, powp(o.v, P - 2)), a: self.a / o.a }
    }
}
impl Rem for Fp {
    type Output = Fp;
    fn rem(self, _: Fp) -> Fp {
        no("remainder")
    }
}
impl Neg for Fp {
    type Output = Fp;
    fn neg(self) -> Fp {
        Fp { v: (P - self.v) % P, a: -self.a }
    }
}
impl ToPrimitive for Fp {
    fn to_i64(&self) -> Option<i64> {
        self.a.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.a.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.a)
    }
}
impl NumCast for Fp {
    fn from<T: ToPrimitive>(n: T) -> Option<Fp> {
        <Fp as FromPrimitive>::from_f64(n.to_f64()?)
    }
}
impl FromPrimitive for Fp {
    fn from_i64(n: i64) -> Option<Fp> {
        Some(Fp::int(n))
    }
    fn from_u64(n: u64) -> Option<Fp> {
        Some(Fp { v: n % P, a: n as f64 })
    }
    fn from_f64(x: f64) -> Option<Fp> {
        if !x.is_finite() {
            no("non-finite constant");
        }
        let (mut m, mut e) = (x, 0u32);
        while m.fract() != 0.0 {
            m *= 2.0;
            e += 1;
            if e > 64 {
                no("constant with a long binary expansion");
            }
        }
        if m.abs() > 9e15 {
            no("constant too large");
        }
        let mut r = Fp::int(m as i64);
        for _ in 0..e {
            r = r / Fp::int(2);
        }
        Some(r)
    }
}
impl Fp {
    /// only at zero: the exact field has no exponential
    fn exact_exp(self) -> Fp {
        if self.v != 0 {
            no("exp")
        }
        Fp::one()
    }
}
crate::value_type!(Fp);

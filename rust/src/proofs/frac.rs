//! Exact fractions, as the value type of the day-count proofs.

use num_traits::{FromPrimitive, Num, NumCast, One, ToPrimitive, Zero};
use num_traits::real::Real;
use crate::value_type::unsupported;
use std::cmp::Ordering;
use std::ops::*;

/// n / d with d > 0
#[derive(Clone, Copy, Debug, Default)]
pub struct Frac {
    pub n: i64,
    pub d: i64,
}
impl Frac {
    pub fn int(n: i64) -> Frac {
        Frac { n, d: 1 }
    }
    fn positive(n: i64, d: i64) -> Frac {
        if d < 0 { Frac { n: -n, d: -d } } else { Frac { n, d } }
    }
    fn exact_exp(self) -> Frac {
        unsupported("exp")
    }
}
impl PartialEq for Frac {
    fn eq(&self, o: &Frac) -> bool {
        if self.d == o.d { self.n == o.n } else { self.n * o.d == o.n * self.d }
    }
}
impl PartialOrd for Frac {
    fn partial_cmp(&self, o: &Frac) -> Option<Ordering> {
        Some((self.n * o.d).cmp(&(o.n * self.d)))
    }
}
impl Add for Frac {
    type Output = Frac;
    fn add(self, o: Frac) -> Frac {
        if self.d == o.d { Frac { n: self.n + o.n, d: self.d } } else { Frac { n: self.n * o.d + o.n * self.d, d: self.d * o.d } }
    }
}
impl Sub for Frac {
    type Output = Frac;
    fn sub(self, o: Frac) -> Frac {
        self + -o
    }
}
impl Mul for Frac {
    type Output = Frac;
    fn mul(self, o: Frac) -> Frac {
        Frac { n: self.n * o.n, d: self.d * o.d }
    }
}
impl Div for Frac {
    type Output = Frac;
    fn div(self, o: Frac) -> Frac {
        if o.n == 0 {
            unsupported("division by zero");
        }
        if self.d == 1 && o.d == 1 { Frac::positive(self.n, o.n) } else { Frac::positive(self.n * o.d, self.d * o.n) }
    }
}
impl Rem for Frac {
    type Output = Frac;
    fn rem(self, _: Frac) -> Frac {
        unsupported("remainder")
    }
}
impl Neg for Frac {
    type Output = Frac;
    fn neg(self) -> Frac {
        Frac { n: -self.n, d: self.d }
    }
}
impl ToPrimitive for Frac {
    fn to_i64(&self) -> Option<i64> {
        unsupported("to_i64")
    }
    fn to_u64(&self) -> Option<u64> {
        unsupported("to_u64")
    }
}
impl NumCast for Frac {
    fn from<T: ToPrimitive>(n: T) -> Option<Frac> {
        n.to_i64().map(Frac::int)
    }
}
impl FromPrimitive for Frac {
    fn from_i64(n: i64) -> Option<Frac> {
        Some(Frac::int(n))
    }
    fn from_u64(n: u64) -> Option<Frac> {
        i64::try_from(n).ok().map(Frac::int)
    }
    /// integral constants only
    fn from_f64(x: f64) -> Option<Frac> {
        let n = x as i64;
        if n as f64 != x {
            unsupported("fractional constant");
        }
        Some(Frac::int(n))
    }
}
crate::value_type!(Frac);

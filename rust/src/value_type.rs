//! The parts of a value type that follow from its arithmetic.

pub const UNSUPPORTED: &str = "exact field: ";
#[cfg(not(kani))]
pub fn unsupported(what: &str) -> ! {
    panic!("{UNSUPPORTED}{what}")
}
#[cfg(kani)]
pub fn unsupported(_: &str) -> ! {
    panic!("exact field: unsupported operation")
}

/// `$t` has `int`, the operators, `PartialOrd`, `FromPrimitive`, `ToPrimitive` and `exact_exp`.
#[macro_export]
macro_rules! value_type {
    ($t:ident) => {
        impl AddAssign for $t {
            fn add_assign(&mut self, o: $t) {
                *self = *self + o
            }
        }
        impl SubAssign for $t {
            fn sub_assign(&mut self, o: $t) {
                *self = *self - o
            }
        }
        impl MulAssign for $t {
            fn mul_assign(&mut self, o: $t) {
                *self = *self * o
            }
        }
        impl DivAssign for $t {
            fn div_assign(&mut self, o: $t) {
                *self = *self / o
            }
        }
        impl Zero for $t {
            fn zero() -> $t {
                $t::int(0)
            }
            fn is_zero(&self) -> bool {
                *self == <$t>::int(0)
            }
        }
        impl One for $t {
            fn one() -> $t {
                $t::int(1)
            }
        }
        impl Num for $t {
            type FromStrRadixErr = ();
            fn from_str_radix(_: &str, _: u32) -> Result<$t, ()> {
                Err(())
            }
        }
        impl Real for $t {
            fn min_value() -> $t {
                unsupported("min_value")
            }
            fn min_positive_value() -> $t {
                unsupported("min_positive_value")
            }
            fn epsilon() -> $t {
                unsupported("epsilon")
            }
            fn max_value() -> $t {
                unsupported("max_value")
            }
            fn floor(self) -> $t {
                    unsupported("floor")
                }
                fn ceil(self) -> $t {
                    unsupported("ceil")
                }
                fn round(self) -> $t {
                    unsupported("round")
                }
                fn trunc(self) -> $t {
                    unsupported("trunc")
                }
                fn fract(self) -> $t {
                    unsupported("fract")
                }
                fn sqrt(self) -> $t {
                    unsupported("sqrt")
                }
                fn exp2(self) -> $t {
                    unsupported("exp2")
                }
                fn ln(self) -> $t {
                    unsupported("ln")
                }
                fn log2(self) -> $t {
                    unsupported("log2")
                }
                fn log10(self) -> $t {
                    unsupported("log10")
                }
                fn to_degrees(self) -> $t {
                    unsupported("to_degrees")
                }
                fn to_radians(self) -> $t {
                    unsupported("to_radians")
                }
                fn cbrt(self) -> $t {
                    unsupported("cbrt")
                }
                fn sin(self) -> $t {
                    unsupported("sin")
                }
                fn cos(self) -> $t {
                    unsupported("cos")
                }
                fn tan(self) -> $t {
                    unsupported("tan")
                }
                fn asin(self) -> $t {
                    unsupported("asin")
                }
                fn acos(self) -> $t {
                    unsupported("acos")
                }
                fn atan(self) -> $t {
                    unsupported("atan")
                }
                fn exp_m1(self) -> $t {
                    unsupported("exp_m1")
                }
                fn ln_1p(self) -> $t {
                    unsupported("ln_1p")
                }
                fn sinh(self) -> $t {
                    unsupported("sinh")
                }
                fn cosh(self) -> $t {
                    unsupported("cosh")
                }
                fn tanh(self) -> $t {
                    unsupported("tanh")
                }
                fn asinh(self) -> $t {
                    unsupported("asinh")
                }
                fn acosh(self) -> $t {
                    unsupported("acosh")
                }
                fn atanh(self) -> $t {
                    unsupported("atanh")
                }
            fn abs(self) -> $t {
                if self < $t::zero() { -self } else { self }
            }
            fn signum(self) -> $t {
                if self < $t::zero() { -$t::one() } else { $t::one() }
            }
            fn is_sign_positive(self) -> bool {
                !(self < $t::zero())
            }
            fn is_sign_negative(self) -> bool {
                self < $t::zero()
            }
            fn mul_add(self, a: $t, b: $t) -> $t {
                self * a + b
            }
            fn recip(self) -> $t {
                $t::one() / self
            }
            fn powi(self, n: i32) -> $t {
                let b = if n < 0 { self.recip() } else { self };
                let mut r = $t::one();
                for _ in 0..n.unsigned_abs() {
                    r = r * b;
                }
                r
            }
            fn powf(self, _: $t) -> $t {
                unsupported("powf")
            }
            fn exp(self) -> $t {
                self.exact_exp()
            }
            fn log(self, _: $t) -> $t {
                unsupported("log")
            }
            fn max(self, o: $t) -> $t {
                if self < o { o } else { self }
            }
            fn min(self, o: $t) -> $t {
                if o < self { o } else { self }
            }
            fn abs_sub(self, o: $t) -> $t {
                if self <= o { $t::zero() } else { self - o }
            }
            fn hypot(self, _: $t) -> $t {
                unsupported("hypot")
            }
            fn atan2(self, _: $t) -> $t {
                unsupported("atan2")
            }
            fn sin_cos(self) -> ($t, $t) {
                unsupported("sin_cos")
            }
        }
        impl qlab_math::value::Value for $t {}
    };
}

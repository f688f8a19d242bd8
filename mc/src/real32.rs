//! `Fs`: `Fx` over f32.

use std::cmp::Ordering;
use std::ops::*;

use num_traits::real::Real;
use num_traits::{Num, NumCast, One, ToPrimitive, Zero};

use crate::real::burn;

#[derive(Clone, Copy, Debug)]
#[repr(transparent)]
pub struct Fs(pub f32);

impl PartialEq for Fs {
    #[inline(always)]
    fn eq(&self, o: &Fs) -> bool { burn(); self.0 == o.0 }
}
impl PartialOrd for Fs {
    #[inline(always)]
    fn partial_cmp(&self, o: &Fs) -> Option<Ordering> { burn(); self.0.partial_cmp(&o.0) }
}
macro_rules! bin { ($($t:ident $m:ident),*) => { $(impl $t for Fs { type Output = Fs; #[inline(always)] fn $m(self, o: Fs) -> Fs { burn(); Fs($t::$m(self.0, o.0)) } })* } }
bin!(Add add, Sub sub, Mul mul, Div div, Rem rem);
impl Neg for Fs { type Output = Fs; fn neg(self) -> Fs { Fs(-self.0) } }
impl Zero for Fs { fn zero() -> Fs { Fs(0.0) } fn is_zero(&self) -> bool { self.0 == 0.0 } }
impl One for Fs { fn one() -> Fs { Fs(1.0) } }
impl Num for Fs {
    type FromStrRadixErr = <f32 as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<Fs, Self::FromStrRadixErr> { f32::from_str_radix(s, r).map(Fs) }
}
impl ToPrimitive for Fs {
    fn to_i64(&self) -> Option<i64> { self.0.to_i64() }
    fn to_u64(&self) -> Option<u64> { self.0.to_u64() }
    fn to_f64(&self) -> Option<f64> { Some(self.0 as f64) }
}
impl NumCast for Fs { fn from<T: ToPrimitive>(n: T) -> Option<Fs> { n.to_f64().map(|x| Fs(x as f32)) } }
macro_rules! c0 { ($($m:ident),*) => { $(fn $m() -> Fs { Fs(<f32 as Real>::$m()) })* } }
macro_rules! c1 { ($($m:ident),*) => { $(fn $m(self) -> Fs { Fs(<f32 as Real>::$m(self.0)) })* } }
macro_rules! c2 { ($($m:ident),*) => { $(fn $m(self, o: Fs) -> Fs { burn(); Fs(<f32 as Real>::$m(self.0, o.0)) })* } }
impl Real for Fs {
    c0!(min_value, min_positive_value, epsilon, max_value);
    c1!(floor, ceil, round, trunc, fract, abs, signum, recip, sqrt, exp, exp2, ln, log2, log10, to_degrees, to_radians, cbrt,
        sin, cos, tan, asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh);
    c2!(powf, log, max, min, abs_sub, hypot, atan2);
    fn is_sign_positive(self) -> bool { Real::is_sign_positive(self.0) }
    fn is_sign_negative(self) -> bool { Real::is_sign_negative(self.0) }
    fn mul_add(self, a: Fs, b: Fs) -> Fs { burn(); Fs(Real::mul_add(self.0, a.0, b.0)) }
    fn powi(self, n: i32) -> Fs { Fs(Real::powi(self.0, n)) }
    fn sin_cos(self) -> (Fs, Fs) { let (a, b) = Real::sin_cos(self.0); (Fs(a), Fs(b)) }
}

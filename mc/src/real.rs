//! `Fx`: an f64 newtype implementing `triangulate::Real` that burns one unit of thread-local fuel
//! per comparison or arithmetic operation. Running out of fuel panics with `OutOfFuel`, which turns
//! non-termination of the code under test into an observable, deterministic event ("make waiting
//! visible"). All grid coordinates used by the checks are small integers, so f64 arithmetic is exact.

use std::cell::Cell;
use std::cmp::Ordering;
use std::ops::*;

use num_traits::real::Real;
use num_traits::{Num, NumCast, One, ToPrimitive, Zero};

pub struct OutOfFuel;

thread_local! {
    static FUEL: Cell<u64> = const { Cell::new(u64::MAX) };
}

pub fn set_fuel(n: u64) { FUEL.with(|f| f.set(n)); }
pub fn fuel() -> u64 { FUEL.with(|f| f.get()) }

#[inline(always)]
pub fn burn() {
    FUEL.with(|f| {
        let v = f.get();
        if v == 0 {
            out();
        }
        f.set(v - 1);
    });
}
#[cold]
fn out() -> ! { std::panic::resume_unwind(Box::new(OutOfFuel)) }

#[derive(Clone, Copy, Debug)]
#[repr(transparent)]
pub struct Fx(pub f64);

impl PartialEq for Fx {
    #[inline(always)]
    fn eq(&self, o: &Fx) -> bool { burn(); self.0 == o.0 }
}
impl PartialOrd for Fx {
    #[inline(always)]
    fn partial_cmp(&self, o: &Fx) -> Option<Ordering> { burn(); self.0.partial_cmp(&o.0) }
}
macro_rules! bin { ($($t:ident $m:ident),*) => { $(impl $t for Fx { type Output = Fx; #[inline(always)] fn $m(self, o: Fx) -> Fx { burn(); Fx($t::$m(self.0, o.0)) } })* } }
bin!(Add add, Sub sub, Mul mul, Div div, Rem rem);
impl Neg for Fx { type Output = Fx; fn neg(self) -> Fx { Fx(-self.0) } }
impl Zero for Fx { fn zero() -> Fx { Fx(0.0) } fn is_zero(&self) -> bool { self.0 == 0.0 } }
impl One for Fx { fn one() -> Fx { Fx(1.0) } }
impl Num for Fx {
    type FromStrRadixErr = <f64 as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<Fx, Self::FromStrRadixErr> { f64::from_str_radix(s, r).map(Fx) }
}
impl ToPrimitive for Fx {
    fn to_i64(&self) -> Option<i64> { self.0.to_i64() }
    fn to_u64(&self) -> Option<u64> { self.0.to_u64() }
    fn to_f64(&self) -> Option<f64> { Some(self.0) }
}
impl NumCast for Fx { fn from<T: ToPrimitive>(n: T) -> Option<Fx> { n.to_f64().map(Fx) } }
macro_rules! c0 { ($($m:ident),*) => { $(fn $m() -> Fx { Fx(<f64 as Real>::$m()) })* } }
macro_rules! c1 { ($($m:ident),*) => { $(fn $m(self) -> Fx { Fx(<f64 as Real>::$m(self.0)) })* } }
macro_rules! c2 { ($($m:ident),*) => { $(fn $m(self, o: Fx) -> Fx { burn(); Fx(<f64 as Real>::$m(self.0, o.0)) })* } }
impl Real for Fx {
    c0!(min_value, min_positive_value, epsilon, max_value);
    c1!(floor, ceil, round, trunc, fract, abs, signum, recip, sqrt, exp, exp2, ln, log2, log10, to_degrees, to_radians, cbrt,
        sin, cos, tan, asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh);
    c2!(powf, log, max, min, abs_sub, hypot, atan2);
    fn is_sign_positive(self) -> bool { Real::is_sign_positive(self.0) }
    fn is_sign_negative(self) -> bool { Real::is_sign_negative(self.0) }
    fn mul_add(self, a: Fx, b: Fx) -> Fx { burn(); Fx(Real::mul_add(self.0, a.0, b.0)) }
    fn powi(self, n: i32) -> Fx { Fx(Real::powi(self.0, n)) }
    fn sin_cos(self) -> (Fx, Fx) { let (a, b) = Real::sin_cos(self.0); (Fx(a), Fx(b)) }
}

//! `Hx`: an f64 newtype whose every comparison and operation is a visible step (see `tick`).

use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::ops::*;

use num_traits::real::Real;
use num_traits::{Num, NumCast, One, ToPrimitive, Zero};

thread_local! {
    static STEP: Cell<u64> = const { Cell::new(0) };
    static TARGET: Cell<u64> = const { Cell::new(u64::MAX) };
    static ACTION: RefCell<Option<Box<dyn FnOnce()>>> = const { RefCell::new(None) };
    static SCHED: Cell<Option<(&'static crate::checks::isolation::Sched, usize)>> = const { Cell::new(None) };
}

/// A visible step of the code under test: coordinate operation, vertex access, builder callback.
/// Runs the planned nested action, or lets the scheduler switch threads.
#[inline]
pub fn tick() {
    crate::real::burn();
    STEP.with(|s| s.set(s.get() + 1));
    if let Some((sched, me)) = SCHED.with(|s| s.get()) { sched.point(me); return; }
    if STEP.with(|s| s.get()) > TARGET.with(|t| t.get()) {
        TARGET.with(|t| t.set(u64::MAX));
        let a = ACTION.with(|a| a.borrow_mut().take());
        if let Some(a) = a {
            let n = STEP.with(|s| s.get());
            a();
            STEP.with(|s| s.set(n));
        }
    }
}
/// Runs `f`, with `action` at its step number `at`; the number of steps `f` took (nested ones not counted).
pub fn with_action<T>(at: u64, action: Box<dyn FnOnce()>, f: impl FnOnce() -> T) -> (T, u64) {
    let saved = (STEP.with(|s| s.replace(0)), TARGET.with(|t| t.replace(at)), ACTION.with(|a| a.borrow_mut().replace(action)));
    let r = f();
    let n = STEP.with(|s| s.replace(saved.0));
    TARGET.with(|t| t.set(saved.1));
    ACTION.with(|a| *a.borrow_mut() = saved.2);
    (r, n)
}
/// Back to the state of a new thread, after a panic went through `with_action`.
pub fn clear() { STEP.with(|s| s.set(0)); TARGET.with(|t| t.set(u64::MAX)); ACTION.with(|a| *a.borrow_mut() = None); }
pub fn with_sched<T>(s: &'static crate::checks::isolation::Sched, me: usize, f: impl FnOnce() -> T) -> T {
    SCHED.with(|x| x.set(Some((s, me))));
    let r = f();
    SCHED.with(|x| x.set(None));
    r
}

#[derive(Clone, Copy, Debug)]
#[repr(transparent)]
pub struct Hx(pub f64);

impl PartialEq for Hx {
    #[inline(always)]
    fn eq(&self, o: &Hx) -> bool { tick(); self.0 == o.0 }
}
impl PartialOrd for Hx {
    #[inline(always)]
    fn partial_cmp(&self, o: &Hx) -> Option<Ordering> { tick(); self.0.partial_cmp(&o.0) }
}
macro_rules! bin { ($($t:ident $m:ident),*) => { $(impl $t for Hx { type Output = Hx; #[inline(always)] fn $m(self, o: Hx) -> Hx { tick(); Hx($t::$m(self.0, o.0)) } })* } }
bin!(Add add, Sub sub, Mul mul, Div div, Rem rem);
impl Neg for Hx { type Output = Hx; fn neg(self) -> Hx { Hx(-self.0) } }
impl Zero for Hx { fn zero() -> Hx { Hx(0.0) } fn is_zero(&self) -> bool { self.0 == 0.0 } }
impl One for Hx { fn one() -> Hx { Hx(1.0) } }
impl Num for Hx {
    type FromStrRadixErr = <f64 as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<Hx, Self::FromStrRadixErr> { f64::from_str_radix(s, r).map(Hx) }
}
impl ToPrimitive for Hx {
    fn to_i64(&self) -> Option<i64> { self.0.to_i64() }
    fn to_u64(&self) -> Option<u64> { self.0.to_u64() }
    fn to_f64(&self) -> Option<f64> { Some(self.0) }
}
impl NumCast for Hx { fn from<T: ToPrimitive>(n: T) -> Option<Hx> { n.to_f64().map(Hx) } }
macro_rules! c0 { ($($m:ident),*) => { $(fn $m() -> Hx { Hx(<f64 as Real>::$m()) })* } }
macro_rules! c1 { ($($m:ident),*) => { $(fn $m(self) -> Hx { Hx(<f64 as Real>::$m(self.0)) })* } }
macro_rules! c2 { ($($m:ident),*) => { $(fn $m(self, o: Hx) -> Hx { tick(); Hx(<f64 as Real>::$m(self.0, o.0)) })* } }
impl Real for Hx {
    c0!(min_value, min_positive_value, epsilon, max_value);
    c1!(floor, ceil, round, trunc, fract, abs, signum, recip, sqrt, exp, exp2, ln, log2, log10, to_degrees, to_radians, cbrt,
        sin, cos, tan, asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh);
    c2!(powf, log, max, min, abs_sub, hypot, atan2);
    fn is_sign_positive(self) -> bool { Real::is_sign_positive(self.0) }
    fn is_sign_negative(self) -> bool { Real::is_sign_negative(self.0) }
    fn mul_add(self, a: Hx, b: Hx) -> Hx { tick(); Hx(Real::mul_add(self.0, a.0, b.0)) }
    fn powi(self, n: i32) -> Hx { Hx(Real::powi(self.0, n)) }
    fn sin_cos(self) -> (Hx, Hx) { let (a, b) = Real::sin_cos(self.0); (Hx(a), Hx(b)) }
}

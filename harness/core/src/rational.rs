//! Exact rational scalar implementing nalgebra's `RealField`, so that the generic linear solver
//! can be run without rounding.  Overflow of the 128-bit parts is a panic with payload
//! `RatOverflow` (an error of the harness, never a verdict on the code under test).
use nalgebra::{ComplexField, Field, RealField};
use num_traits::{FromPrimitive, Num, One, Signed, Zero};
use simba::scalar::SubsetOf;
use simba::simd::SimdValue;
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;

pub struct RatOverflow;

fn overflow() -> ! {
    std::panic::panic_any(RatOverflow)
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Q {
    p: i128,
    q: i128,
}

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a as i128
}

impl Q {
    pub fn new(p: i128, q: i128) -> Q {
        assert!(q != 0, "division by zero");
        let g = gcd(p, q);
        let s = if q < 0 { -1 } else { 1 };
        Q { p: s * (p / g), q: s * (q / g) }
    }
    pub fn int(n: i64) -> Q {
        Q { p: n as i128, q: 1 }
    }
    pub fn to_f64(self) -> f64 {
        self.p as f64 / self.q as f64
    }
    pub fn hex(self) -> String {
        format!("{}{:x}/{:x}", if self.p < 0 { "-" } else { "" }, self.p.unsigned_abs(), self.q)
    }
    fn m(a: i128, b: i128) -> i128 {
        a.checked_mul(b).unwrap_or_else(|| overflow())
    }
}

impl fmt::Debug for Q {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}/{}", self.p, self.q)
    }
}
impl fmt::Display for Q {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}/{}", self.p, self.q)
    }
}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        Some(Q::m(self.p, o.q).cmp(&Q::m(o.p, self.q)))
    }
}
impl Add for Q {
    type Output = Q;
    fn add(self, o: Q) -> Q {
        let n = Q::m(self.p, o.q).checked_add(Q::m(o.p, self.q)).unwrap_or_else(|| overflow());
        Q::new(n, Q::m(self.q, o.q))
    }
}
impl Sub for Q {
    type Output = Q;
    fn sub(self, o: Q) -> Q {
        self + (-o)
    }
}
impl Mul for Q {
    type Output = Q;
    fn mul(self, o: Q) -> Q {
        let (g1, g2) = (gcd(self.p, o.q).max(1), gcd(o.p, self.q).max(1));
        Q::new(Q::m(self.p / g1, o.p / g2), Q::m(self.q / g2, o.q / g1))
    }
}
impl Div for Q {
    type Output = Q;
    fn div(self, o: Q) -> Q {
        assert!(o.p != 0, "division by zero");
        self * Q::new(o.q, o.p)
    }
}
impl Rem for Q {
    type Output = Q;
    fn rem(self, o: Q) -> Q {
        let d = self / o;
        self - o * Q::new(d.p / d.q, 1)
    }
}
impl Neg for Q {
    type Output = Q;
    fn neg(self) -> Q {
        Q { p: -self.p, q: self.q }
    }
}
macro_rules! assign { ($($t:ident $f:ident $op:tt),*) => {$(
    impl $t for Q { fn $f(&mut self, o: Q) { *self = *self $op o; } }
)*} }
assign!(AddAssign add_assign +, SubAssign sub_assign -, MulAssign mul_assign *, DivAssign div_assign /, RemAssign rem_assign %);
impl std::iter::Sum for Q {
    fn sum<I: Iterator<Item = Q>>(i: I) -> Q {
        i.fold(Q::zero(), |a, b| a + b)
    }
}
impl Zero for Q {
    fn zero() -> Q {
        Q::int(0)
    }
    fn is_zero(&self) -> bool {
        self.p == 0
    }
}
impl One for Q {
    fn one() -> Q {
        Q::int(1)
    }
}
impl Num for Q {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Q, ()> {
        Err(())
    }
}
impl Signed for Q {
    fn abs(&self) -> Q {
        Q { p: self.p.abs(), q: self.q }
    }
    fn abs_sub(&self, o: &Q) -> Q {
        let d = *self - *o;
        if d.p > 0 { d } else { Q::zero() }
    }
    fn signum(&self) -> Q {
        Q::int(self.p.signum() as i64)
    }
    fn is_positive(&self) -> bool {
        self.p > 0
    }
    fn is_negative(&self) -> bool {
        self.p < 0
    }
}
impl FromPrimitive for Q {
    fn from_i64(n: i64) -> Option<Q> {
        Some(Q::int(n))
    }
    fn from_u64(n: u64) -> Option<Q> {
        Some(Q { p: n as i128, q: 1 })
    }
    fn from_f64(x: f64) -> Option<Q> {
        Some(q_of_f64(x))
    }
}
impl From<u32> for Q {
    fn from(n: u32) -> Q {
        Q::int(n as i64)
    }
}
/// exact when the double has few enough bits, else rounded to a multiple of 2^-100
pub fn q_of_f64(x: f64) -> Q {
    let mut q: i128 = 1;
    let mut y = x;
    let mut k = 0;
    while y.fract() != 0.0 && k < 100 {
        y *= 2.0;
        q *= 2;
        k += 1;
    }
    Q::new(y as i128, q)
}
impl SubsetOf<Q> for Q {
    fn to_superset(&self) -> Q {
        *self
    }
    fn from_superset_unchecked(e: &Q) -> Q {
        *e
    }
    fn is_in_subset(_: &Q) -> bool {
        true
    }
}
macro_rules! sub { ($($t:ty),*) => {$(
    impl SubsetOf<Q> for $t {
        fn to_superset(&self) -> Q { q_of_f64(*self as f64) }
        fn from_superset_unchecked(e: &Q) -> $t { e.to_f64() as $t }
        fn is_in_subset(_: &Q) -> bool { true }
    }
)*} }
sub!(f64, f32, i32, u32, i64, u64, usize, u8, i8, u16, i16);
impl SimdValue for Q {
    type Element = Q;
    type SimdBool = bool;
    fn lanes() -> usize {
        1
    }
    fn splat(v: Q) -> Q {
        v
    }
    fn extract(&self, _: usize) -> Q {
        *self
    }
    unsafe fn extract_unchecked(&self, _: usize) -> Q {
        *self
    }
    fn replace(&mut self, _: usize, v: Q) {
        *self = v
    }
    unsafe fn replace_unchecked(&mut self, _: usize, v: Q) {
        *self = v
    }
    fn select(self, c: bool, o: Q) -> Q {
        if c { self } else { o }
    }
}
impl Field for Q {}

impl approx::AbsDiffEq for Q {
    type Epsilon = Q;
    fn default_epsilon() -> Q {
        Q::new(1, 1 << 52)
    }
    fn abs_diff_eq(&self, o: &Q, e: Q) -> bool {
        Signed::abs(&(*self - *o)) <= e
    }
}
impl approx::RelativeEq for Q {
    fn default_max_relative() -> Q {
        Q::new(1, 1 << 52)
    }
    fn relative_eq(&self, o: &Q, e: Q, r: Q) -> bool {
        let d = Signed::abs(&(*self - *o));
        let m = RealField::max(Signed::abs(self), Signed::abs(o));
        d <= e || d <= m * r
    }
}
impl approx::UlpsEq for Q {
    fn default_max_ulps() -> u32 {
        4
    }
    fn ulps_eq(&self, o: &Q, e: Q, _: u32) -> bool {
        Signed::abs(&(*self - *o)) <= e
    }
}

/// functions that leave the rationals are evaluated in double precision
fn via(x: Q, f: impl Fn(f64) -> f64) -> Q {
    q_of_f64(f(x.to_f64()))
}
macro_rules! via { ($($f:ident),*) => {$( fn $f(self) -> Q { via(self, f64::$f) } )*} }

impl ComplexField for Q {
    type RealField = Q;
    fn from_real(re: Q) -> Q {
        re
    }
    fn real(self) -> Q {
        self
    }
    fn imaginary(self) -> Q {
        Q::zero()
    }
    fn modulus(self) -> Q {
        Signed::abs(&self)
    }
    fn modulus_squared(self) -> Q {
        self * self
    }
    fn argument(self) -> Q {
        Q::zero()
    }
    fn norm1(self) -> Q {
        Signed::abs(&self)
    }
    fn scale(self, f: Q) -> Q {
        self * f
    }
    fn unscale(self, f: Q) -> Q {
        self / f
    }
    fn floor(self) -> Q {
        Q::new(self.p.div_euclid(self.q), 1)
    }
    fn ceil(self) -> Q {
        -ComplexField::floor(-self)
    }
    fn round(self) -> Q {
        ComplexField::floor(self + Q::new(1, 2))
    }
    fn trunc(self) -> Q {
        Q::new(self.p / self.q, 1)
    }
    fn fract(self) -> Q {
        self - ComplexField::trunc(self)
    }
    fn mul_add(self, a: Q, b: Q) -> Q {
        self * a + b
    }
    fn abs(self) -> Q {
        Signed::abs(&self)
    }
    fn signum(self) -> Q {
        Signed::signum(&self)
    }
    fn hypot(self, o: Q) -> Q {
        q_of_f64(self.to_f64().hypot(o.to_f64()))
    }
    fn recip(self) -> Q {
        Q::one() / self
    }
    fn conjugate(self) -> Q {
        self
    }
    via!(sin, cos, tan, asin, acos, atan, sinh, cosh, tanh, asinh, acosh, atanh, log2, log10, ln,
         ln_1p, sqrt, exp, exp2, exp_m1, cbrt);
    fn sin_cos(self) -> (Q, Q) {
        (ComplexField::sin(self), ComplexField::cos(self))
    }
    fn log(self, b: Q) -> Q {
        q_of_f64(self.to_f64().log(b.to_f64()))
    }
    fn powi(self, n: i32) -> Q {
        let mut r = Q::one();
        for _ in 0..n.abs() {
            r *= self;
        }
        if n < 0 { Q::one() / r } else { r }
    }
    fn powf(self, n: Q) -> Q {
        q_of_f64(self.to_f64().powf(n.to_f64()))
    }
    fn powc(self, n: Q) -> Q {
        ComplexField::powf(self, n)
    }
    fn is_finite(&self) -> bool {
        true
    }
    fn try_sqrt(self) -> Option<Q> {
        if self.p < 0 { None } else { Some(ComplexField::sqrt(self)) }
    }
}
macro_rules! consts { ($($f:ident $v:expr),*) => {$( fn $f() -> Q { q_of_f64($v) } )*} }
impl RealField for Q {
    fn is_sign_positive(&self) -> bool {
        self.p >= 0
    }
    fn is_sign_negative(&self) -> bool {
        self.p < 0
    }
    fn copysign(self, s: Q) -> Q {
        if s.p < 0 { -Signed::abs(&self) } else { Signed::abs(&self) }
    }
    fn max(self, o: Q) -> Q {
        if self < o { o } else { self }
    }
    fn min(self, o: Q) -> Q {
        if o < self { o } else { self }
    }
    fn clamp(self, a: Q, b: Q) -> Q {
        RealField::min(RealField::max(self, a), b)
    }
    fn atan2(self, o: Q) -> Q {
        q_of_f64(self.to_f64().atan2(o.to_f64()))
    }
    fn min_value() -> Option<Q> {
        Some(Q::int(i64::MIN))
    }
    fn max_value() -> Option<Q> {
        Some(Q::int(i64::MAX))
    }
    consts!(pi std::f64::consts::PI, two_pi std::f64::consts::TAU, frac_pi_2 std::f64::consts::FRAC_PI_2,
            frac_pi_3 std::f64::consts::FRAC_PI_3, frac_pi_4 std::f64::consts::FRAC_PI_4,
            frac_pi_6 std::f64::consts::FRAC_PI_6, frac_pi_8 std::f64::consts::FRAC_PI_8,
            frac_1_pi std::f64::consts::FRAC_1_PI, frac_2_pi std::f64::consts::FRAC_2_PI,
            frac_2_sqrt_pi std::f64::consts::FRAC_2_SQRT_PI, e std::f64::consts::E,
            log2_e std::f64::consts::LOG2_E, log10_e std::f64::consts::LOG10_E,
            ln_2 std::f64::consts::LN_2, ln_10 std::f64::consts::LN_10);
}

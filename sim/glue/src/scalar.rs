//! `SimF64`: a user-supplied number type. Every operation of it is user code running inside a call
//! of the library, hence a place where the simulator can switch, stall, panic or re-enter. It is
//! deliberately not `Copy`.
use approx::{AbsDiffEq, RelativeEq, UlpsEq};
use nalgebra::{ComplexField, RealField};
use num_traits::{FromPrimitive, Num, One, Signed, Zero};
use simba::scalar::{Field, SubsetOf};
use simba::simd::SimdValue;
use simcore::engine::seam;
use std::ops::*;

pub struct SimF64(pub f64);

impl Clone for SimF64 {
    #[inline]
    fn clone(&self) -> Self {
        seam();
        SimF64(self.0)
    }
}
impl PartialEq for SimF64 {
    #[inline]
    fn eq(&self, o: &Self) -> bool {
        seam();
        self.0 == o.0
    }
}
impl PartialOrd for SimF64 {
    #[inline]
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        seam();
        self.0.partial_cmp(&o.0)
    }
}
impl std::fmt::Debug for SimF64 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        seam();
        std::fmt::Debug::fmt(&self.0, f)
    }
}
impl std::fmt::Display for SimF64 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        seam();
        std::fmt::Display::fmt(&self.0, f)
    }
}
macro_rules! bin {
    ($($T:ident $m:ident $TA:ident $ma:ident $op:tt),*) => { $(
        impl $T for SimF64 {
            type Output = SimF64;
            #[inline]
            fn $m(self, o: SimF64) -> SimF64 { seam(); SimF64(self.0 $op o.0) }
        }
        impl $TA for SimF64 {
            #[inline]
            fn $ma(&mut self, o: SimF64) { seam(); self.0 = self.0 $op o.0; }
        }
    )* };
}
bin!(Add add AddAssign add_assign +, Sub sub SubAssign sub_assign -, Mul mul MulAssign mul_assign *,
     Div div DivAssign div_assign /, Rem rem RemAssign rem_assign %);
impl Neg for SimF64 {
    type Output = SimF64;
    #[inline]
    fn neg(self) -> SimF64 {
        seam();
        SimF64(-self.0)
    }
}
impl Zero for SimF64 {
    fn zero() -> Self {
        seam();
        SimF64(0.0)
    }
    fn is_zero(&self) -> bool {
        seam();
        self.0 == 0.0
    }
}
impl One for SimF64 {
    fn one() -> Self {
        seam();
        SimF64(1.0)
    }
}
impl Num for SimF64 {
    type FromStrRadixErr = num_traits::ParseFloatError;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> {
        seam();
        <f64 as Num>::from_str_radix(s, r).map(SimF64)
    }
}
impl Signed for SimF64 {
    fn abs(&self) -> Self {
        seam();
        SimF64(self.0.abs())
    }
    fn abs_sub(&self, o: &Self) -> Self {
        seam();
        SimF64(if self.0 <= o.0 { 0.0 } else { self.0 - o.0 })
    }
    fn signum(&self) -> Self {
        seam();
        SimF64(self.0.signum())
    }
    fn is_positive(&self) -> bool {
        seam();
        Signed::is_positive(&self.0)
    }
    fn is_negative(&self) -> bool {
        seam();
        Signed::is_negative(&self.0)
    }
}
impl FromPrimitive for SimF64 {
    fn from_i64(n: i64) -> Option<Self> {
        seam();
        Some(SimF64(n as f64))
    }
    fn from_u64(n: u64) -> Option<Self> {
        seam();
        Some(SimF64(n as f64))
    }
    fn from_f64(n: f64) -> Option<Self> {
        seam();
        Some(SimF64(n))
    }
    fn from_f32(n: f32) -> Option<Self> {
        seam();
        Some(SimF64(n as f64))
    }
}
impl AbsDiffEq for SimF64 {
    type Epsilon = SimF64;
    fn default_epsilon() -> SimF64 {
        seam();
        SimF64(f64::EPSILON)
    }
    fn abs_diff_eq(&self, o: &Self, e: SimF64) -> bool {
        seam();
        self.0.abs_diff_eq(&o.0, e.0)
    }
}
impl RelativeEq for SimF64 {
    fn default_max_relative() -> SimF64 {
        seam();
        SimF64(f64::EPSILON)
    }
    fn relative_eq(&self, o: &Self, e: SimF64, m: SimF64) -> bool {
        seam();
        self.0.relative_eq(&o.0, e.0, m.0)
    }
}
impl UlpsEq for SimF64 {
    fn default_max_ulps() -> u32 {
        seam();
        4
    }
    fn ulps_eq(&self, o: &Self, e: SimF64, m: u32) -> bool {
        seam();
        self.0.ulps_eq(&o.0, e.0, m)
    }
}
impl SimdValue for SimF64 {
    const LANES: usize = 1;
    type Element = SimF64;
    type SimdBool = bool;
    fn splat(v: SimF64) -> Self {
        seam();
        v
    }
    fn extract(&self, _: usize) -> SimF64 {
        self.clone()
    }
    unsafe fn extract_unchecked(&self, _: usize) -> SimF64 {
        self.clone()
    }
    fn replace(&mut self, _: usize, v: SimF64) {
        seam();
        *self = v
    }
    unsafe fn replace_unchecked(&mut self, _: usize, v: SimF64) {
        seam();
        *self = v
    }
    fn select(self, c: bool, o: Self) -> Self {
        seam();
        if c {
            self
        } else {
            o
        }
    }
}
impl Field for SimF64 {}
impl SubsetOf<SimF64> for SimF64 {
    fn to_superset(&self) -> SimF64 {
        self.clone()
    }
    fn from_superset_unchecked(e: &SimF64) -> SimF64 {
        e.clone()
    }
    fn is_in_subset(_: &SimF64) -> bool {
        true
    }
}
impl SubsetOf<SimF64> for f64 {
    fn to_superset(&self) -> SimF64 {
        seam();
        SimF64(*self)
    }
    fn from_superset_unchecked(e: &SimF64) -> f64 {
        seam();
        e.0
    }
    fn is_in_subset(_: &SimF64) -> bool {
        true
    }
}
impl SubsetOf<SimF64> for f32 {
    fn to_superset(&self) -> SimF64 {
        seam();
        SimF64(*self as f64)
    }
    fn from_superset_unchecked(e: &SimF64) -> f32 {
        seam();
        e.0 as f32
    }
    fn is_in_subset(_: &SimF64) -> bool {
        true
    }
}
macro_rules! un { ($($m:ident)*) => { $( #[inline] fn $m(self) -> Self { seam(); SimF64(ComplexField::$m(self.0)) } )* }; }
macro_rules! bi { ($($m:ident)*) => { $( #[inline] fn $m(self, o: Self) -> Self { seam(); SimF64(ComplexField::$m(self.0, o.0)) } )* }; }
impl ComplexField for SimF64 {
    type RealField = SimF64;
    fn from_real(re: SimF64) -> Self {
        seam();
        re
    }
    un!(real imaginary modulus modulus_squared argument norm1 floor ceil round trunc fract abs recip
        conjugate sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh log2 log10 ln ln_1p sqrt
        exp exp2 exp_m1 cbrt signum);
    bi!(scale unscale hypot log powf powc);
    fn mul_add(self, a: Self, b: Self) -> Self {
        seam();
        SimF64(ComplexField::mul_add(self.0, a.0, b.0))
    }
    fn sin_cos(self) -> (Self, Self) {
        seam();
        let (a, b) = ComplexField::sin_cos(self.0);
        (SimF64(a), SimF64(b))
    }
    fn powi(self, n: i32) -> Self {
        seam();
        SimF64(ComplexField::powi(self.0, n))
    }
    fn is_finite(&self) -> bool {
        seam();
        ComplexField::is_finite(&self.0)
    }
    fn try_sqrt(self) -> Option<Self> {
        seam();
        ComplexField::try_sqrt(self.0).map(SimF64)
    }
}
macro_rules! cst { ($($m:ident)*) => { $( fn $m() -> Self { seam(); SimF64(<f64 as RealField>::$m()) } )* }; }
impl RealField for SimF64 {
    fn is_sign_positive(&self) -> bool {
        seam();
        RealField::is_sign_positive(&self.0)
    }
    fn is_sign_negative(&self) -> bool {
        seam();
        RealField::is_sign_negative(&self.0)
    }
    fn copysign(self, s: Self) -> Self {
        seam();
        SimF64(RealField::copysign(self.0, s.0))
    }
    fn max(self, o: Self) -> Self {
        seam();
        SimF64(RealField::max(self.0, o.0))
    }
    fn min(self, o: Self) -> Self {
        seam();
        SimF64(RealField::min(self.0, o.0))
    }
    fn clamp(self, a: Self, b: Self) -> Self {
        seam();
        SimF64(RealField::clamp(self.0, a.0, b.0))
    }
    fn atan2(self, o: Self) -> Self {
        seam();
        SimF64(RealField::atan2(self.0, o.0))
    }
    fn min_value() -> Option<Self> {
        seam();
        Some(SimF64(f64::MIN))
    }
    fn max_value() -> Option<Self> {
        seam();
        Some(SimF64(f64::MAX))
    }
    cst!(pi two_pi frac_pi_2 frac_pi_3 frac_pi_4 frac_pi_6 frac_pi_8 frac_1_pi frac_2_pi frac_2_sqrt_pi
         e log2_e log10_e ln_2 ln_10);
}
impl serde::Serialize for SimF64 {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        seam();
        s.serialize_f64(self.0)
    }
}
impl<'de> serde::Deserialize<'de> for SimF64 {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        seam();
        f64::deserialize(d).map(SimF64)
    }
}

/// What the simulator needs to know about a number type.
pub trait Sc: RealField + serde::Serialize + serde::de::DeserializeOwned {
    const BITS: u32;
    fn of(v: f64) -> Self;
    fn val(&self) -> f64;
    /// The bits of the number; all invalid numbers are the same.
    fn word(&self) -> u64;
}
fn canon(v: f64) -> u64 {
    if v.is_nan() {
        0x7ff8_0000_0000_0000
    } else {
        v.to_bits()
    }
}
impl Sc for f64 {
    const BITS: u32 = 64;
    fn of(v: f64) -> f64 {
        v
    }
    fn val(&self) -> f64 {
        *self
    }
    fn word(&self) -> u64 {
        canon(*self)
    }
}
impl Sc for f32 {
    const BITS: u32 = 32;
    fn of(v: f64) -> f32 {
        v as f32
    }
    fn val(&self) -> f64 {
        *self as f64
    }
    fn word(&self) -> u64 {
        canon(*self as f64)
    }
}
impl Sc for SimF64 {
    const BITS: u32 = 64;
    fn of(v: f64) -> SimF64 {
        SimF64(v)
    }
    fn val(&self) -> f64 {
        self.0
    }
    fn word(&self) -> u64 {
        canon(self.0)
    }
}

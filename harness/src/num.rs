use basic_dsp_vector::numbers::*;

#[cfg(feature = "ops")]
pub use crate::ops::Catalogue as Extra;

#[cfg(not(feature = "ops"))]
pub trait Extra {}

#[cfg(not(feature = "ops"))]
impl<T> Extra for T {}

/// The two number types of the library, with exact conversions to f64 for the oracles.
pub trait Num:
    RealNumber + Extra + std::fmt::Display + Default + std::panic::RefUnwindSafe + std::panic::UnwindSafe
{
    const NAME: &'static str;
    const EPS: f64;
    const F32: bool;
    const MAXF: f64;
    fn of(v: f64) -> Self;
    fn v(self) -> f64;
    fn bits(self) -> u64;
    fn canary(i: usize) -> Self;
}

impl Num for f32 {
    const NAME: &'static str = "f32";
    const EPS: f64 = std::f32::EPSILON as f64;
    const F32: bool = true;
    const MAXF: f64 = std::f32::MAX as f64;
    fn of(v: f64) -> f32 {
        v as f32
    }
    fn v(self) -> f64 {
        self as f64
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
    fn canary(i: usize) -> f32 {
        -7.0e9 - (i as f32) * 1.0e4
    }
}

impl Num for f64 {
    const NAME: &'static str = "f64";
    const EPS: f64 = std::f64::EPSILON;
    const F32: bool = false;
    const MAXF: f64 = std::f64::MAX;
    fn of(v: f64) -> f64 {
        v
    }
    fn v(self) -> f64 {
        self
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
    fn canary(i: usize) -> f64 {
        -7.0e99 - (i as f64) * 1.0e90
    }
}

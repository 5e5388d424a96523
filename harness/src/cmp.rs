//! Comparing results with an oracle.

use crate::num::Num;

/// Same value, NaN equal to NaN, infinities by sign, otherwise within a tolerance.
pub fn near(got: f64, want: f64, tol: f64) -> bool {
    if want.is_nan() || got.is_nan() {
        return want.is_nan() && got.is_nan();
    }
    if want.is_infinite() || got.is_infinite() {
        return want == got;
    }
    (got - want).abs() <= tol
}

/// Element-wise comparison with a tolerance relative to the magnitude of each expected value plus
/// a given scale.
pub fn all_near<T: Num>(what: &str, got: &[T], want: &[f64], rel: f64, scale: f64) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{}: got {} elements, expected {}", what, got.len(), want.len()));
    }
    for i in 0..got.len() {
        let w = want[i];
        let tol = rel * (w.abs() + scale);
        let tol = if tol.is_nan() || tol.is_infinite() { 0.0 } else { tol };
        // The oracle works with a larger range than f32.
        let w = if w.is_finite() && w.abs() > T::MAXF { T::of(w).v() } else { w };
        if !near(got[i].v(), w, tol) {
            return Err(format!(
                "{}: element {} of {} is {} but expected {} (tolerance {:e})",
                what,
                i,
                got.len(),
                got[i].v(),
                w,
                tol
            ));
        }
    }
    Ok(())
}

/// Bit equality, except that any NaN equals any other and both zeros are the same.
pub fn all_same<T: Num>(what: &str, got: &[T], want: &[T]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{}: got {} elements, expected {}", what, got.len(), want.len()));
    }
    for i in 0..got.len() {
        let (a, b) = (got[i].v(), want[i].v());
        if !(a == b || (a.is_nan() && b.is_nan())) {
            return Err(format!(
                "{}: element {} of {} is {} but expected {}",
                what,
                i,
                got.len(),
                a,
                b
            ));
        }
    }
    Ok(())
}

pub fn max_abs<T: Num>(v: &[T]) -> f64 {
    v.iter().fold(0.0, |m, x| {
        let a = x.v().abs();
        if a.is_finite() && a > m {
            a
        } else {
            m
        }
    })
}

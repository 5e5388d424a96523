//! Generated vector contents.

use crate::g::{Rng, G};
use crate::num::Num;

/// What kind of numbers a vector holds.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Ramp,
    SmallInts,
    Uniform,
    Wide,
    Sparse,
    Special,
    /// Any magnitude the number type has.
    Extreme,
}

pub const TAME: &[Kind] = &[Kind::Ramp, Kind::SmallInts, Kind::Uniform, Kind::Sparse];
pub const FINITE: &[Kind] = &[Kind::Ramp, Kind::SmallInts, Kind::Uniform, Kind::Sparse, Kind::Wide];
pub const ALL: &[Kind] = &[
    Kind::Ramp,
    Kind::SmallInts,
    Kind::Uniform,
    Kind::Sparse,
    Kind::Wide,
    Kind::Special,
    Kind::Extreme,
];

/// Draws the content of a vector with one choice for its kind and one for its seed.
pub fn draw<T: Num>(g: &mut G, len: usize, kinds: &[Kind]) -> Vec<T> {
    let kind = *g.pick(kinds);
    let seed = if kind == Kind::Ramp { 0 } else { g.below(1 << 40) };
    let v: Vec<T> = make(len, kind, seed);
    g.note(|| {
        format!(
            "len {} {:?} seed {}: {:?}{}",
            len,
            kind,
            seed,
            &v[..len.min(6)],
            if len > 6 { "..." } else { "" }
        )
    });
    v
}

pub fn make<T: Num>(len: usize, kind: Kind, seed: u64) -> Vec<T> {
    let mut r = Rng::new(seed ^ 0x5EED);
    (0..len)
        .map(|i| {
            let v = match kind {
                Kind::Ramp => (i + 1) as f64,
                Kind::SmallInts => r.below(19) as f64 - 9.0,
                Kind::Uniform => r.unit() * 20.0 - 10.0,
                Kind::Sparse => {
                    if r.below(4) == 0 {
                        r.unit() * 4.0 - 2.0
                    } else {
                        0.0
                    }
                }
                Kind::Wide => {
                    let e = r.unit() * 12.0 - 6.0;
                    let s = if r.below(2) == 0 { -1.0 } else { 1.0 };
                    s * 10f64.powf(e)
                }
                Kind::Extreme => {
                    let top = T::MAXF.log10();
                    let e = r.unit() * 2.2 * top - 1.2 * top;
                    let s = if r.below(2) == 0 { -1.0 } else { 1.0 };
                    s * 10f64.powf(e)
                }
                Kind::Special => match r.below(12) {
                    0 => 0.0,
                    1 => -0.0,
                    2 => f64::NAN,
                    3 => f64::INFINITY,
                    4 => f64::NEG_INFINITY,
                    5 => 1.0,
                    6 => -1.0,
                    7 => T::MAXF,
                    8 => 1e-30,
                    _ => r.unit() * 20.0 - 10.0,
                },
            };
            T::of(v)
        })
        .collect()
}

/// Uniform values in a range.
pub fn within<T: Num>(g: &mut G, len: usize, lo: f64, hi: f64) -> Vec<T> {
    let seed = g.below(1 << 40);
    let mut r = Rng::new(seed ^ 0xF00D);
    let v: Vec<T> = (0..len).map(|_| T::of(lo + (hi - lo) * r.unit())).collect();
    g.note(|| format!("len {} in {}..{} seed {}: {:?}", len, lo, hi, seed, &v[..len.min(6)]));
    v
}

/// A sample spacing.
pub fn delta<T: Num>(g: &mut G) -> T {
    T::of(match g.below(8) {
        0 | 1 => 1.0,
        2 => 0.25,
        3 => 3.0,
        4 => 0.1,
        5 => 1e-3,
        6 => 48000.0,
        _ => g.float(0.01, 10.0),
    })
}

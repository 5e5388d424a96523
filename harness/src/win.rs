//! Window functions for the checks: the built-in ones and user supplied ones.
use crate::g::G;
use crate::num::Num;
use basic_dsp_vector::window_functions::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Win {
    /// 0: rectangular, 1: triangular, 2: Hamming, 3: Blackman Harris, 4: Hamming with another alpha,
    /// 5: user supplied, not symmetric, 6: user supplied and symmetric, 7: like 6, but not declared as symmetric
    pub kind: usize,
    pub par: f64,
}

impl Win {
    pub fn draw(g: &mut G) -> Win {
        let w = Win {
            kind: g.below(8) as usize,
            par: g.float(0.55, 0.9),
        };
        g.note(|| format!("{:?}", w));
        w
    }

    /// The value at n of len points by definition. Never zero for user supplied windows.
    pub fn value(&self, n: usize, len: usize) -> f64 {
        let (x, l) = (n as f64, len as f64);
        let tau = 2.0 * std::f64::consts::PI;
        let w = if len > 1 { tau * x / (l - 1.0) } else { 0.0 };
        match self.kind {
            0 => 1.0,
            1 => 1.0 - ((x - (l - 1.0) / 2.0) / (l / 2.0)).abs(),
            2 | 4 => {
                let a = if self.kind == 2 { 0.54 } else { self.par };
                if len <= 1 {
                    1.0
                } else {
                    a - (1.0 - a) * w.cos()
                }
            }
            3 => {
                if len <= 1 {
                    1.0
                } else {
                    0.35875 - 0.48829 * w.cos() + 0.14128 * (2.0 * w).cos() - 0.01168 * (3.0 * w).cos()
                }
            }
            5 => self.par + 2.0 * (x + 1.0) / (l + 1.0),
            _ => {
                let d = (2.0 * x - (l - 1.0)).abs();
                self.par + 1.0 / (1.0 + d)
            }
        }
    }

    pub fn with<T: Num, X>(&self, f: impl FnOnce(&dyn WindowFunction<T>) -> X) -> X {
        match self.kind {
            0 => f(&RectangularWindow),
            1 => f(&TriangularWindow),
            2 => f(&HammingWindow::<T>::default()),
            3 => f(&BlackmanHarrisWindow),
            4 => f(&HammingWindow::<T>::new(T::of(self.par))),
            _ => f(self),
        }
    }
}

impl<T: Num> WindowFunction<T> for Win {
    fn is_symmetric(&self) -> bool {
        self.kind == 6
    }

    fn window(&self, n: usize, length: usize) -> T {
        T::of(self.value(n, length))
    }
}

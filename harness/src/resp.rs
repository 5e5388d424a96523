//! Impulse and frequency responses for the checks: the built-in ones and user supplied ones.
use crate::dft::C;
use crate::g::G;
use crate::num::Num;
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::numbers::Complex;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Resp {
    /// 0: user supplied and symmetric, 1: the same, but not declared as symmetric, 2: user supplied,
    /// not symmetric, 3: sinc, 4: raised cosine (3 and 4 are real)
    pub kind: usize,
    pub p: f64,
    pub q: f64,
}

impl Resp {
    pub fn draw(g: &mut G, complex: bool) -> Resp {
        let r = Resp {
            kind: g.below(if complex { 3 } else { 5 }) as usize,
            p: g.float(0.1, 0.9),
            q: g.float(-2.0, 2.0),
        };
        g.note(|| format!("{:?}", r));
        r
    }

    pub fn symmetric(&self) -> bool {
        self.kind != 2
    }

    /// Whether the library is told so.
    pub fn declared_symmetric(&self) -> bool {
        self.kind != 1 && self.kind != 2
    }

    /// The complex value of user supplied functions; the real ones use its real part.
    pub fn user(&self, x: f64) -> C {
        let d = 1.0 + self.p * x * x;
        if self.kind == 2 {
            ((self.q + x) / d, (1.0 - self.q * x) / (d + 1.0))
        } else {
            ((self.q - x * x) / d, (self.p + 2.0 * x * x) / (d * 2.0))
        }
    }

    /// The frequency response at x by definition.
    pub fn freq(&self, x: f64) -> f64 {
        let a = x.abs();
        match self.kind {
            3 => {
                if a <= 1.0 {
                    1.0
                } else {
                    0.0
                }
            }
            4 => {
                if a <= 1.0 - self.p {
                    1.0
                } else if a <= 1.0 + self.p {
                    0.5 * (1.0 + (std::f64::consts::PI / 2.0 / self.p * (a - (1.0 - self.p))).cos())
                } else {
                    0.0
                }
            }
            _ => self.user(x).0,
        }
    }

    /// The impulse response at x by definition.
    pub fn time(&self, x: f64) -> f64 {
        let pi = std::f64::consts::PI;
        let sinc = |x: f64| {
            if x.abs() < 1e-9 {
                1.0
            } else {
                (pi * x).sin() / (pi * x)
            }
        };
        match self.kind {
            3 => sinc(x),
            4 => {
                // cos(pi p x) / (1 - (2 p x)^2), written without the removable singularity
                let u = 2.0 * self.p * x.abs();
                sinc(x) * pi / 2.0 / (1.0 + u) * sinc((1.0 - u) / 2.0)
            }
            _ => self.user(x).0,
        }
    }

    /// How much a value of this response may be off if its argument is off by dx.
    pub fn slope(&self) -> f64 {
        match self.kind {
            3 => 4.0,
            4 => 4.0 + 2.0 / self.p,
            _ => 4.0 * (1.0 + self.q.abs()) * (1.0 + 1.0 / self.p.sqrt()),
        }
    }

    pub fn with_freq<T: Num, X>(&self, f: impl FnOnce(&dyn RealFrequencyResponse<T>) -> X) -> X {
        match self.kind {
            3 => f(&SincFunction::<T>::new()),
            4 => f(&RaisedCosineFunction::new(T::of(self.p))),
            _ => f(self),
        }
    }

    pub fn with_time<T: Num, X>(&self, f: impl FnOnce(&dyn RealImpulseResponse<T>) -> X) -> X {
        match self.kind {
            3 => f(&SincFunction::<T>::new()),
            4 => f(&RaisedCosineFunction::new(T::of(self.p))),
            _ => f(self),
        }
    }

    /// The precision of the parameter in the number type.
    pub fn rounded<T: Num>(mut self) -> Resp {
        self.p = T::of(self.p).v();
        self
    }
}

impl<T: Num> RealFrequencyResponse<T> for Resp {
    fn is_symmetric(&self) -> bool {
        self.kind == 0
    }

    fn calc(&self, x: T) -> T {
        T::of(self.user(x.v()).0)
    }
}

impl<T: Num> RealImpulseResponse<T> for Resp {
    fn is_symmetric(&self) -> bool {
        self.kind == 0
    }

    fn calc(&self, x: T) -> T {
        T::of(self.user(x.v()).0)
    }
}

impl<T: Num> ComplexFrequencyResponse<T> for Resp {
    fn is_symmetric(&self) -> bool {
        self.kind == 0
    }

    fn calc(&self, x: T) -> Complex<T> {
        let (re, im) = self.user(x.v());
        Complex::new(T::of(re), T::of(im))
    }
}

impl<T: Num> ComplexImpulseResponse<T> for Resp {
    fn is_symmetric(&self) -> bool {
        self.kind == 0
    }

    fn calc(&self, x: T) -> Complex<T> {
        let (re, im) = self.user(x.v());
        Complex::new(T::of(re), T::of(im))
    }
}

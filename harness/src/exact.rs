//! Sums and products in double-double arithmetic (about 106 bits), the reference for sums.

#[derive(Clone, Copy, Debug)]
pub struct Exact {
    hi: f64,
    lo: f64,
    /// Sum of the absolute values of all terms.
    pub mag: f64,
    pub terms: usize,
}

fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}

impl Exact {
    pub fn new() -> Exact {
        Exact {
            hi: 0.0,
            lo: 0.0,
            mag: 0.0,
            terms: 0,
        }
    }

    fn put(&mut self, x: f64, e: f64) {
        let (s, t) = two_sum(self.hi, x);
        let lo = self.lo + t + e;
        let (hi, lo) = two_sum(s, lo);
        self.hi = hi;
        self.lo = lo;
    }

    pub fn add(&mut self, x: f64) {
        self.put(x, 0.0);
        self.mag += x.abs();
        self.terms += 1;
    }

    pub fn add_product(&mut self, x: f64, y: f64) {
        let p = x * y;
        let e = x.mul_add(y, -p);
        self.put(p, e);
        self.mag += p.abs();
        self.terms += 1;
    }

    pub fn value(&self) -> f64 {
        self.hi + self.lo
    }

    /// Error bound of adding the terms one after another in any order.
    pub fn plain(&self, eps: f64) -> f64 {
        eps * self.mag * (4.0 + self.terms as f64)
    }

    /// Error bound of a compensated sum which is added up in a few pieces.
    pub fn precise(&self, eps: f64, pieces: usize) -> f64 {
        let n = self.terms as f64;
        eps * self.mag * (2.0 + 0.5 * pieces as f64 + 8.0 * n * eps)
    }
}

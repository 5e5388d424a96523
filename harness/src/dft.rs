//! Discrete Fourier transforms by definition in f64.

pub type C = (f64, f64);

pub fn mul(a: C, b: C) -> C {
    (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0)
}

pub fn add(a: C, b: C) -> C {
    (a.0 + b.0, a.1 + b.1)
}

/// The turns of one period: exp(j 2 pi k / n).
pub fn roots(n: usize) -> Vec<C> {
    (0..n)
        .map(|k| {
            let x = 2.0 * std::f64::consts::PI * k as f64 / n as f64;
            (x.cos(), x.sin())
        })
        .collect()
}

/// One bin of the unscaled transform; forward: exp(-j..), inverse: exp(+j..).
pub fn bin(x: &[C], roots: &[C], k: usize, inverse: bool) -> C {
    let n = x.len();
    let mut s = (0.0, 0.0);
    let mut phase = 0usize;
    for v in x {
        let r = roots[phase];
        s = add(s, mul(*v, if inverse { r } else { (r.0, -r.1) }));
        phase += k;
        while phase >= n {
            phase -= n;
        }
    }
    s
}

pub fn norm2(x: &[C]) -> f64 {
    x.iter().map(|v| v.0 * v.0 + v.1 * v.1).sum::<f64>().sqrt()
}

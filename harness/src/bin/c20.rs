//! C20: frequency responses are applied at the right frequencies.
use vharness::dft::{mul, C};
use vharness::dsp::conv_types::*;
use vharness::dsp::*;
use vharness::resp::Resp;
use vharness::*;

fn apply<T: Num>(g: &mut G) -> R {
    let st = Store::draw(g);
    let cplx = g.bool();
    let cfun = cplx && g.bool();
    let n = g.len(0, if g.thorough { 3000 } else { 600 });
    let s = if cplx { 2 } else { 1 };
    let data: Vec<T> = data::draw(g, s * n, data::TAME);
    let resp = Resp::draw(g, cfun).rounded::<T>();
    let ratio = match g.below(3) {
        0 => 1.0,
        1 => g.range(1, 6) as f64,
        _ => g.float(0.1, 5.0),
    };
    let ratio = T::of(ratio).v();
    let typed = g.bool();
    let delta: T = data::delta(g);
    g.note(|| format!("{} points, complex: {}, complex function: {}, ratio {}, typed: {}", n, cplx, cfun, ratio, typed));
    macro_rules! run {
        ($v:expr) => {{
            if cfun {
                let f: &dyn ComplexFrequencyResponse<T> = &resp;
                $v.multiply_frequency_response(f, T::of(ratio));
            } else {
                resp.with_freq::<T, _>(|f| $v.multiply_frequency_response(f, T::of(ratio)));
            }
            ($v.data(..).to_vec(), $v.is_complex(), $v.domain(), $v.delta())
        }};
    }
    let (out, c, dom, d) = on_storage!(&st, &data, cplx, DataDomain::Frequency, 0, |v, _b| {
        v.set_delta(delta);
        if !typed {
            run!(v)
        } else if cplx {
            let mut v = ComplexFreqVec::<_, T>::rededicate_from_force(v);
            run!(v)
        } else {
            let mut v = RealFreqVec::<_, T>::rededicate_from_force(v);
            resp.with_freq::<T, _>(|f| v.multiply_frequency_response(f, T::of(ratio)));
            (v.data(..).to_vec(), v.is_complex(), v.domain(), v.delta())
        }
    });
    ensure!(c == cplx && dom == DataDomain::Frequency && d == delta, "meta data changed");
    ensure!(out.len() == s * n, "{} elements instead of {}", out.len(), s * n);
    let max = (n / 2) as f64;
    for i in 0..n {
        let x = if max == 0.0 { 0.0 } else { (i as f64 - max) / max * ratio };
        let dx = T::EPS * 8.0 * x.abs();
        let h: C = if cfun { resp.user(x) } else { (resp.freq(x), 0.0) };
        // A step of the response: either side of it is fine if rounding decides which one is hit.
        let other: C = if resp.kind == 3 && (x.abs() - 1.0).abs() <= dx { (1.0, 0.0) } else { h };
        let at: C = if cplx { (data[2 * i].v(), data[2 * i + 1].v()) } else { (data[i].v(), 0.0) };
        let mag = (at.0.abs() + at.1.abs()) * ratio;
        let tol = mag * (dx * resp.slope() * (1.0 + x.abs()) + T::EPS * 8.0 * (h.0.abs() + h.1.abs() + 1e-3));
        let got: C = if cplx { (out[2 * i].v(), out[2 * i + 1].v()) } else { (out[i].v(), 0.0) };
        let fine = |h: C| {
            let w = mul((at.0 * ratio, at.1 * ratio), h);
            near(got.0, w.0, tol) && near(got.1, w.1, tol)
        };
        ensure!(
            fine(h) || fine(other),
            "bin {} of {} at {} is {:?} but expected {:?} times {:?} times {} (tolerance {:e})", i, n, x, got, at, h, ratio, tol
        );
    }
    ok(n > 1, format!("{} {} {}", if cplx { "complex" } else { "real" }, if cfun { "complex function" } else { "real function" }, ["symmetric", "symmetric, undeclared", "unsymmetric", "sinc", "raised cosine"][resp.kind]))
}

/// Vectors which aren't spectra, and complex responses for real vectors.
fn refused<T: Num>(g: &mut G) -> R {
    let st = Store::draw(g);
    let n = g.range(0, 20);
    let which = g.below(3);
    let cplx = which == 0;
    let dom = if which == 2 { DataDomain::Frequency } else { DataDomain::Time };
    let data: Vec<T> = data::draw(g, if cplx { 2 * n } else { n }, data::TAME);
    let resp = Resp::draw(g, true);
    let cfun = which == 2 || g.bool();
    let (len, delta) = on_storage!(&st, &data, cplx, dom, 0, |v, _b| {
        if cfun {
            let f: &dyn ComplexFrequencyResponse<T> = &resp;
            v.multiply_frequency_response(f, T::of(1.0));
        } else {
            let f: &dyn RealFrequencyResponse<T> = &resp;
            v.multiply_frequency_response(f, T::of(1.0));
        }
        (v.len(), v.delta())
    });
    ensure!(len == 0 && delta.v().is_nan(), "{} elements with delta {} but the operation isn't allowed", len, delta);
    ok(true, "refused")
}

fn main() {
    let mut s = vec![];
    both!(&mut s, "apply", 20000, apply);
    both!(&mut s, "refused", 2000, refused);
    vharness::main(
        "C20",
        "spectrum, number of bins, number space, response function, ratio, threads and storage are drawn; non-trivial: at least two bins, or a refusal",
        s,
    );
}

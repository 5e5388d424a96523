//! C16: Fourier transforms equal the discrete Fourier transform and invert.
use vharness::dft::{bin, norm2, roots, C};
use vharness::dsp::*;
use vharness::*;

fn size(g: &mut G) -> usize {
    let top = if g.thorough { 6000 } else { 1500 };
    match g.weighted(&[6, 3, 1]) {
        0 => g.range(0, 24),
        1 => g.range(0, 200),
        _ => g.range(0, top),
    }
}

fn class(n: usize, what: &str) -> String {
    let prime = n > 1 && (2..).take_while(|d| d * d <= n).all(|d| n % d != 0);
    format!("{} {}", what, match n {
        0 => "empty",
        1 => "one point",
        _ if n.is_power_of_two() => "power of two",
        _ if prime => "prime",
        _ if n % 2 == 0 => "even",
        _ => "odd",
    })
}

/// The seen vector: data, complex?, domain, delta.
type Seen<T> = (Vec<T>, bool, DataDomain, T);

fn points<T: Num>(data: &[T], cplx: bool) -> Vec<C> {
    if cplx {
        data.chunks(2).map(|c| (c[0].v(), c[1].v())).collect()
    } else {
        data.iter().map(|x| (x.v(), 0.0)).collect()
    }
}

fn some_bins(n: usize) -> Vec<usize> {
    if n <= 256 {
        (0..n).collect()
    } else {
        let mut r = vharness::g::Rng::new(n as u64);
        let mut b: Vec<usize> = (0..20).map(|_| r.below(n as u64) as usize).collect();
        b.extend_from_slice(&[0, 1, n / 2, n - n / 2, n - 1]);
        b
    }
}

fn bound<T: Num>(n: usize, norm: f64) -> f64 {
    // The second part is the rounding error of the oracle.
    T::EPS * norm * 16.0 * ((n.max(1) as f64).log2() + 3.0) + std::f64::EPSILON * norm * 8.0 * (n as f64).sqrt()
}

fn log_tol<T: Num>(x: &[C], windowed: bool) -> f64 {
    let mut t = bound::<T>(x.len(), norm2(x));
    if windowed {
        t += 32.0 * T::EPS * x.iter().map(|v| v.0.abs() + v.1.abs()).sum::<f64>();
    }
    t
}

/// Compares the transform `out` of `x`, where `place` tells the position of a bin.
fn compare<T: Num>(
    what: &str,
    out: &[T],
    x: &[C],
    inverse: bool,
    scale: f64,
    tol: f64,
    bins: &[usize],
    place: impl Fn(usize) -> usize,
) -> Result<(), String> {
    let r = roots(x.len());
    for &k in bins {
        let w = bin(x, &r, k, inverse);
        let w = (w.0 * scale, w.1 * scale);
        let p = place(k);
        let got = (out[2 * p].v(), out[2 * p + 1].v());
        if !near(got.0, w.0, tol * scale) || !near(got.1, w.1, tol * scale) {
            return Err(format!(
                "{}: bin {} of {} (position {}) is {:?} but expected {:?} (tolerance {:e})",
                what,
                k,
                x.len(),
                p,
                got,
                w,
                tol * scale
            ));
        }
    }
    Ok(())
}

fn energy(what: &str, time: f64, freq: f64, n: usize, eps: f64) -> Result<(), String> {
    let want = time * (n as f64).sqrt();
    if near(freq, want, want * eps * 64.0 * ((n.max(1) as f64).log2() + 3.0)) {
        Ok(())
    } else {
        Err(format!("{}: the energy is {} but expected {}", what, freq * freq, want * want))
    }
}

fn check_meta<T: Num>(s: &Seen<T>, points: usize, cplx: bool, domain: DataDomain, delta: T) -> Result<(), String> {
    let len = if cplx { 2 * points } else { points };
    if s.0.len() != len || s.1 != cplx || s.2 != domain {
        return Err(format!(
            "{} elements, complex: {}, {:?} but expected {} elements, complex: {}, {:?}",
            s.0.len(),
            s.1,
            s.2,
            len,
            cplx,
            domain
        ));
    }
    if points > 0 && !near(s.3.v(), delta.v(), 4.0 * T::EPS * delta.v().abs()) {
        return Err(format!("the sample spacing is {} but expected {}", s.3, delta));
    }
    Ok(())
}

macro_rules! seen {
    ($r:expr) => {{
        let r = $r;
        (r.data(..).to_vec(), r.is_complex(), r.domain(), r.delta())
    }};
}

fn forward<T: Num>(g: &mut G) -> R {
    let mut st = Store::draw(g);
    st.bufmul = 14;
    let cplx = g.bool();
    let n = size(g);
    let op = g.below(3) as usize;
    let typed = g.bool();
    let name = ["plain_fft", "fft", "windowed_fft"][op];
    let data: Vec<T> = data::draw(g, if cplx { 2 * n } else { n }, data::FINITE);
    let win = Win::draw(g);
    let delta: T = data::delta(g);
    g.note(|| format!("{} of {} {} points, typed: {}", name, n, if cplx { "complex" } else { "real" }, typed));
    macro_rules! run {
        ($v:expr, $b:expr) => {
            match op {
                0 => seen!($v.plain_fft(&mut $b)),
                1 => seen!($v.fft(&mut $b)),
                _ => win.with::<T, _>(|w| seen!($v.windowed_fft(&mut $b, w))),
            }
        };
    }
    let s: Seen<T> = on_storage!(&st, &data, cplx, DataDomain::Time, n, |v, b| {
        v.set_delta(delta);
        match (typed, cplx) {
            (false, _) => run!(v, b),
            (true, false) => run!(RealTimeVec::<_, T>::rededicate_from_force(v), b),
            (true, true) => run!(ComplexTimeVec::<_, T>::rededicate_from_force(v), b),
        }
    });
    check_meta(&s, n, true, DataDomain::Frequency, delta * T::of(n as f64))?;
    let mut x = points(&data, cplx);
    if op == 2 {
        for (i, p) in x.iter_mut().enumerate() {
            let w = win.value(i, n);
            *p = (p.0 * w, p.1 * w);
        }
    }
    let tol = log_tol::<T>(&points(&data, cplx), op == 2) * if op == 2 { 3.0 } else { 1.0 };
    compare(name, &s.0, &x, false, 1.0, tol, &some_bins(n), |k| if op == 0 { k } else { (k + n / 2) % n })?;
    if op < 2 {
        energy(name, norm2(&x), norm2(&points(&s.0, true)), n, T::EPS)?;
    }
    ok(n > 1, class(n, name))
}

fn inverse<T: Num>(g: &mut G) -> R {
    let mut st = Store::draw(g);
    st.bufmul = 14;
    let n = size(g);
    let op = g.below(3) as usize;
    let typed = g.bool();
    let cplx = typed || !g.chance(1, 4);
    let name = ["plain_ifft", "ifft", "windowed_ifft"][op];
    let data: Vec<T> = data::draw(g, if cplx { 2 * n } else { n }, data::FINITE);
    let win = Win::draw(g);
    let delta: T = data::delta(g);
    g.note(|| format!("{} of {} {} points, typed: {}", name, n, if cplx { "complex" } else { "real" }, typed));
    macro_rules! run {
        ($v:expr, $b:expr) => {
            match op {
                0 => seen!($v.plain_ifft(&mut $b)),
                1 => seen!($v.ifft(&mut $b)),
                _ => win.with::<T, _>(|w| seen!($v.windowed_ifft(&mut $b, w))),
            }
        };
    }
    let s: Seen<T> = on_storage!(&st, &data, cplx, DataDomain::Frequency, n, |v, b| {
        v.set_delta(delta);
        if typed {
            run!(ComplexFreqVec::<_, T>::rededicate_from_force(v), b)
        } else {
            run!(v, b)
        }
    });
    check_meta(&s, n, true, DataDomain::Time, delta * T::of(n as f64))?;
    let spec = points(&data, cplx);
    // The spectrum with 0 Hz first.
    let x: Vec<C> = if op == 0 { spec.clone() } else { (0..n).map(|k| spec[(k + n / 2) % n]).collect() };
    let scale = if op == 0 { 1.0 } else { 1.0 / n.max(1) as f64 };
    let tol = log_tol::<T>(&x, false);
    if op == 2 {
        // Dividing by small values amplifies the error: judge the product with the window instead.
        let r = roots(n);
        for k in some_bins(n) {
            let w = bin(&x, &r, k, true);
            let w = (w.0 * scale, w.1 * scale);
            let f = win.value(k, n);
            let got = (s.0[2 * k].v() * f, s.0[2 * k + 1].v() * f);
            let slack = 64.0 * T::EPS * (w.0.abs() + w.1.abs()) / f.abs().min(1.0) + 2.0 * tol * scale;
            ensure!(
                near(got.0, w.0, slack) && near(got.1, w.1, slack),
                "{}: point {} of {} is {:?} times the window, expected {:?} (tolerance {:e})", name, k, n, got, w, slack
            );
        }
    } else {
        compare(name, &s.0, &x, true, scale, tol, &some_bins(n), |k| k)?;
    }
    ok(n > 1, class(n, name))
}

fn symmetric<T: Num>(g: &mut G) -> R {
    let mut st = Store::draw(g);
    st.bufmul = 14;
    let n = size(g);
    let n = if g.chance(1, 10) { n } else { n | 1 };
    let op = g.below(3) as usize;
    let typed = g.bool();
    let name = ["plain_sfft", "sfft", "windowed_sfft"][op];
    let data: Vec<T> = data::draw(g, n, data::FINITE);
    let win = Win::draw(g);
    let delta: T = data::delta(g);
    g.note(|| format!("{} of {} points, typed: {}", name, n, typed));
    macro_rules! run {
        ($v:expr, $b:expr) => {
            match op {
                0 => $v.plain_sfft(&mut $b),
                1 => $v.sfft(&mut $b),
                _ => win.with::<T, _>(|w| $v.windowed_sfft(&mut $b, w)),
            }
        };
    }
    macro_rules! end {
        ($r:expr) => {
            match $r {
                Ok(v) => Ok(seen!(v)),
                Err((e, v)) => Err((e, v.len(), v.delta().is_nan())),
            }
        };
    }
    let r: Result<Seen<T>, (ErrorReason, usize, bool)> = on_storage!(&st, &data, false, DataDomain::Time, n, |v, b| {
        v.set_delta(delta);
        if typed {
            end!(run!(RealTimeVec::<_, T>::rededicate_from_force(v), b))
        } else {
            end!(run!(v, b))
        }
    });
    if n % 2 == 0 {
        match r {
            Err((ErrorReason::InputMustHaveAnOddLength, 0, true)) => return ok(n > 0, "refused even length"),
            Err(e) => fail!("{} of an even length gave {:?}", name, e),
            Ok(_) => fail!("{} of an even length wasn't refused", name),
        }
    }
    let s = match r {
        Err((e, _, _)) => fail!("{} was refused with {:?}", name, e),
        Ok(s) => s,
    };
    let half = n / 2 + 1;
    check_meta(&s, half, true, DataDomain::Frequency, delta * T::of(n as f64))?;
    let mut x = points(&data, false);
    if op == 2 {
        for (i, p) in x.iter_mut().enumerate() {
            p.0 *= win.value(i, n);
        }
    }
    let tol = log_tol::<T>(&points(&data, false), op == 2) * if op == 2 { 3.0 } else { 1.0 };
    let bins: Vec<usize> = some_bins(n).into_iter().filter(|k| *k < half).collect();
    compare(name, &s.0, &x, false, 1.0, tol, &bins, |k| k)?;
    ok(n > 1, class(n, name))
}

fn symmetric_inverse<T: Num>(g: &mut G) -> R {
    let mut st = Store::draw(g);
    st.bufmul = 14;
    let half = size(g) / 2;
    let op = g.below(3) as usize;
    let typed = g.bool();
    let name = ["plain_sifft", "sifft", "windowed_sifft"][op];
    let wrong_dc = half > 0 && g.chance(1, 12);
    let mut data: Vec<T> = data::draw(g, 2 * half, data::FINITE);
    if half > 0 {
        data[1] = if wrong_dc { T::of(g.float(0.5, 9.0) * half as f64 * 4.0) } else { T::of(0.0) };
    }
    let win = Win::draw(g);
    let delta: T = data::delta(g);
    g.note(|| format!("{} of {} points, typed: {}, imaginary 0 Hz: {}", name, half, typed, wrong_dc));
    macro_rules! run {
        ($v:expr, $b:expr) => {
            match op {
                0 => $v.plain_sifft(&mut $b),
                1 => $v.sifft(&mut $b),
                _ => win.with::<T, _>(|w| $v.windowed_sifft(&mut $b, w)),
            }
        };
    }
    macro_rules! end {
        ($r:expr) => {
            match $r {
                Ok(v) => Ok(seen!(v)),
                Err((e, v)) => Err((e, v.len(), v.delta().is_nan())),
            }
        };
    }
    let room = 2 * half;
    let r: Result<Seen<T>, (ErrorReason, usize, bool)> = on_storage!(&st, &data, true, DataDomain::Frequency, room, |v, b| {
        v.set_delta(delta);
        if typed {
            end!(run!(ComplexFreqVec::<_, T>::rededicate_from_force(v), b))
        } else {
            end!(run!(v, b))
        }
    });
    if wrong_dc {
        match r {
            Err((ErrorReason::InputMustBeConjSymmetric, 0, true)) => return ok(true, "refused imaginary 0 Hz"),
            Err(e) => fail!("{} of an imaginary 0 Hz bin gave {:?}", name, e),
            Ok(_) => fail!("{} of an imaginary 0 Hz bin wasn't refused", name),
        }
    }
    let s = match r {
        Err((e, _, _)) => fail!("{} was refused with {:?}", name, e),
        Ok(s) => s,
    };
    let n = if half == 0 { 0 } else { 2 * half - 1 };
    check_meta(&s, n, false, DataDomain::Time, delta * T::of(n as f64))?;
    let spec = points(&data, true);
    let x: Vec<C> = (0..n).map(|k| if k < half { spec[k] } else { (spec[n - k].0, -spec[n - k].1) }).collect();
    let scale = if op == 0 { 1.0 } else { 1.0 / n.max(1) as f64 };
    let tol = log_tol::<T>(&x, false) * scale;
    let r = roots(n);
    for k in some_bins(n) {
        let w = bin(&x, &r, k, true).0 * scale;
        let f = if op == 2 { win.value(k, n) } else { 1.0 };
        let got = s.0[k].v() * f;
        let slack = if op == 2 { 64.0 * T::EPS * w.abs() / f.abs().min(1.0) + 2.0 * tol } else { tol };
        ensure!(near(got, w, slack), "{}: point {} of {} is {} but expected {} (tolerance {:e})", name, k, n, got, w, slack);
    }
    ok(n > 1, class(n, name))
}

/// The inverse of a transform gives back the signal.
fn round_trip<T: Num>(g: &mut G) -> R {
    let mut st = Store::draw(g);
    st.bufmul = 14;
    let op = g.below(6) as usize;
    let name = ["plain_fft", "fft", "windowed_fft", "plain_sfft", "sfft", "windowed_sfft"][op];
    let sym = op >= 3;
    let cplx = !sym && g.bool();
    let n = if sym { size(g) | 1 } else { size(g) };
    let typed = g.bool();
    let data: Vec<T> = data::draw(g, if cplx { 2 * n } else { n }, data::TAME);
    let win = Win::draw(g);
    g.note(|| format!("{} and back of {} points, typed: {}", name, n, typed));
    macro_rules! back {
        ($v:expr, $b:expr) => {
            match op {
                0 => seen!($v.plain_fft(&mut $b).plain_ifft(&mut $b)),
                1 => seen!($v.fft(&mut $b).ifft(&mut $b)),
                _ => win.with::<T, _>(|w| seen!($v.windowed_fft(&mut $b, w).windowed_ifft(&mut $b, w))),
            }
        };
    }
    macro_rules! sback {
        ($v:expr, $b:expr) => {
            match op {
                3 => $v.plain_sfft(&mut $b).map_err(|e| e.0).and_then(|v| v.plain_sifft(&mut $b).map_err(|e| e.0)),
                4 => $v.sfft(&mut $b).map_err(|e| e.0).and_then(|v| v.sifft(&mut $b).map_err(|e| e.0)),
                _ => win.with::<T, _>(|w| {
                    $v.windowed_sfft(&mut $b, w).map_err(|e| e.0).and_then(|v| v.windowed_sifft(&mut $b, w).map_err(|e| e.0))
                }),
            }
            .map(|v| seen!(v))
        };
    }
    let s: Result<Seen<T>, ErrorReason> = on_storage!(&st, &data, cplx, DataDomain::Time, n, |v, b| {
        match (typed, cplx, sym) {
            (false, _, false) => Ok(back!(v, b)),
            (true, false, false) => Ok(back!(RealTimeVec::<_, T>::rededicate_from_force(v), b)),
            (true, true, false) => Ok(back!(ComplexTimeVec::<_, T>::rededicate_from_force(v), b)),
            (false, _, true) => sback!(v, b),
            (true, _, true) => sback!(RealTimeVec::<_, T>::rededicate_from_force(v), b),
        }
    });
    let s = match s {
        Ok(s) => s,
        Err(e) => fail!("{} and back refused with {:?}", name, e),
    };
    ensure!(s.1 == !sym && s.2 == DataDomain::Time, "complex: {}, {:?} after the round trip", s.1, s.2);
    let x = points(&data, cplx);
    let y = points(&s.0, !sym);
    ensure!(x.len() == y.len(), "{} points after the round trip of {}", y.len(), x.len());
    let scale = if op == 0 || op == 3 { n as f64 } else { 1.0 };
    let norm = norm2(&x);
    let windowed = op == 2 || op == 5;
    for i in 0..n {
        let f = if windowed { win.value(i, n).abs().min(1.0) } else { 1.0 };
        let rel = if windowed { 128.0 * T::EPS * (x[i].0.abs() + x[i].1.abs()) / f } else { 0.0 };
        let tol = scale * (2.0 * bound::<T>(n, norm) * if windowed { 3.0 } else { 1.0 } / f + rel);
        let w = (x[i].0 * scale, x[i].1 * scale);
        ensure!(
            near(y[i].0, w.0, tol) && near(y[i].1, w.1, tol),
            "point {} of {} is {:?} after the round trip but expected {:?} (tolerance {:e})", i, n, y[i], w, tol
        );
    }
    ok(n > 1, class(n, &format!("{} and back", name)))
}

/// Moving the 0 Hz bin to the center and back, and completing half of a spectrum.
fn shift<T: Num>(g: &mut G) -> R {
    let mut st = Store::draw(g);
    st.bufmul = 14;
    let n = g.len(0, if g.thorough { 3000 } else { 400 });
    let op = g.below(5) as usize;
    let typed = g.bool();
    let name = ["fft_shift", "ifft_shift", "fft_shift and ifft_shift", "mirror", "transform and shift"][op];
    let data: Vec<T> = data::draw(g, 2 * n, if op == 4 { data::TAME } else { data::ALL });
    let delta: T = data::delta(g);
    g.note(|| format!("{} of {} points, typed: {}", name, n, typed));
    macro_rules! run {
        ($v:expr, $b:expr) => {{
            let mut v = $v;
            match op {
                0 => v.fft_shift(),
                1 => v.ifft_shift(),
                2 => {
                    v.fft_shift();
                    v.ifft_shift();
                }
                _ => v.mirror(&mut $b),
            }
            seen!(v)
        }};
    }
    if op == 4 {
        // The shifted transform is the plain one with its bins moved.
        let a: Seen<T> = on_storage!(&st, &data, true, DataDomain::Time, n, |v, b| seen!(v.fft(&mut b)));
        let b2: Seen<T> = on_storage!(&st, &data, true, DataDomain::Time, n, |v, b| {
            let mut v = v.plain_fft(&mut b);
            v.fft_shift();
            seen!(v)
        });
        let norm = norm2(&points(&data, true));
        let want: Vec<f64> = a.0.iter().map(|x| x.v()).collect();
        all_near(name, &b2.0, &want, bound::<T>(n.max(1), norm), 1.0)?;
        return ok(n > 1, class(n, name));
    }
    let s: Seen<T> = on_storage!(&st, &data, true, DataDomain::Frequency, 2 * n, |v, b| {
        v.set_delta(delta);
        if typed {
            run!(ComplexFreqVec::<_, T>::rededicate_from_force(v), b)
        } else {
            run!(v, b)
        }
    });
    let at = |k: usize| (data[2 * k], data[2 * k + 1]);
    let want: Vec<(T, T)> = match op {
        0 => (0..n).map(|k| at((k + n - n / 2) % n)).collect(),
        1 => (0..n).map(|k| at((k + n / 2) % n)).collect(),
        2 => (0..n).map(at).collect(),
        _ => (0..n).map(at).chain((1..n).rev().map(|k| (at(k).0, -at(k).1))).collect(),
    };
    check_meta(&s, want.len(), true, DataDomain::Frequency, delta)?;
    let want: Vec<T> = want.into_iter().flat_map(|p| vec![p.0, p.1]).collect();
    all_same(name, &s.0, &want)?;
    ok(n > 1, class(n, name))
}

fn main() {
    let mut s = vec![];
    both!(&mut s, "shift", 10000, shift);
    both!(&mut s, "forward", 5000, forward);
    both!(&mut s, "inverse", 5000, inverse);
    both!(&mut s, "symmetric", 4000, symmetric);
    both!(&mut s, "symmetric_inverse", 4000, symmetric_inverse);
    both!(&mut s, "round_trip", 5000, round_trip);
    vharness::main(
        "C16",
        "transform, number space, number of points, contents, window, storage and typed or run-time typed vectors are drawn; non-trivial: at least two points or a refusal",
        s,
    );
}

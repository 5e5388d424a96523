//! C21: band limited interpolation and decimation.
use vharness::dft::{add, mul, C};
use vharness::dsp::conv_types::*;
use vharness::dsp::*;
use vharness::resp::Resp;
use vharness::*;

fn points<T: Num>(data: &[T], cplx: bool) -> Vec<C> {
    if cplx {
        data.chunks(2).map(|c| (c[0].v(), c[1].v())).collect()
    } else {
        data.iter().map(|x| (x.v(), 0.0)).collect()
    }
}

fn some(n: usize) -> Vec<usize> {
    if n <= 400 {
        return (0..n).collect();
    }
    let mut r = vharness::g::Rng::new(n as u64);
    let e = 60;
    let mut v: Vec<usize> = (0..e).chain(n - e..n).collect();
    v.extend((0..100).map(|_| r.below(n as u64) as usize));
    v
}

/// Functions which are practically zero within a few points, so that it doesn't matter which points
/// exactly are taken into account.
#[derive(Clone, Copy, Debug)]
struct Bump {
    symmetric: bool,
    declared: bool,
    width: f64,
}

impl Bump {
    fn value(&self, x: f64) -> f64 {
        let u = x / self.width;
        (-u * u).exp() * if self.symmetric { 1.0 } else { 1.0 + 0.6 * x }
    }
}

impl<T: Num> RealImpulseResponse<T> for Bump {
    fn is_symmetric(&self) -> bool {
        self.declared
    }
    fn calc(&self, x: T) -> T {
        T::of(self.value(x.v()))
    }
}

#[derive(Clone, Copy, Debug)]
enum Fun {
    Bump(Bump),
    Other(Resp),
}

impl Fun {
    fn value(&self, x: f64) -> f64 {
        match *self {
            Fun::Bump(b) => b.value(x),
            Fun::Other(r) => r.time(x),
        }
    }
    fn slope(&self) -> f64 {
        match *self {
            Fun::Bump(b) => 4.0 / b.width + 4.0,
            Fun::Other(r) => r.slope(),
        }
    }
    fn with<T: Num, X>(&self, f: impl FnOnce(&dyn RealImpulseResponse<T>) -> X) -> X {
        match *self {
            Fun::Bump(b) => f(&b),
            Fun::Other(r) => r.with_time(f),
        }
    }
}

type Seen<T> = (Vec<T>, bool, DataDomain, T);

macro_rules! seen {
    ($v:expr) => {
        ($v.data(..).to_vec(), $v.is_complex(), $v.domain(), $v.delta())
    };
}

fn typed_time<T: Num>(s: &Seen<T>, cplx: bool) -> Result<(), Fail> {
    ensure!(
        s.1 == cplx && s.2 == DataDomain::Time,
        "the vector is complex: {}, {:?} afterwards",
        s.1,
        s.2
    );
    Ok(())
}

/// interpolatef evaluates the sum of the shifted impulse responses at the new positions.
fn by_function<T: Num>(g: &mut G, long: bool) -> R {
    let mut st = Store::draw(g);
    st.bufmul = 2;
    let cplx = g.bool();
    let s = if cplx { 2 } else { 1 };
    let (n, f): (usize, f64) = if long {
        let f = g.range(1, 6);
        let least = (2000 + f * s - 1) / (f * s);
        let span = if g.chance(1, 4) { 900 } else { 60 };
        (least + g.below(span) as usize, f as f64)
    } else {
        let f = match g.below(3) {
            0 => g.range(1, 6) as f64,
            1 => g.float(0.3, 1.0),
            _ => g.float(1.0, 5.0),
        };
        (g.len(0, 150), T::of(f).v())
    };
    // Rarely not an integer by just a bit, so that the general path has to be taken
    let f = if long && g.chance(1, 10) { T::of(f * 1.001).v() } else { f };
    let l = match g.below(3) {
        0 => g.range(0, 6),
        1 => g.range(4, 30),
        _ => g.range(0, if long { 230 } else { 80 }),
    };
    let fun = match g.below(3) {
        0 => {
            let symmetric = g.bool();
            let declared = symmetric && g.bool();
            Fun::Bump(Bump {
                symmetric,
                declared,
                width: g.float(0.3, 0.8),
            })
        }
        1 => Fun::Bump(Bump {
            symmetric: false,
            declared: false,
            width: 0.7,
        }),
        _ => Fun::Other(Resp::draw(g, false).rounded::<T>()),
    };
    let delta: T = data::delta(g);
    let delay_points = match g.below(3) {
        0 => 0.0,
        1 => g.range(0, 2) as f64,
        _ => g.float(-1.5, 1.5),
    };
    let delay = T::of(delay_points * delta.v());
    let data: Vec<T> = data::draw(g, s * n, data::TAME);
    let typed = g.bool();
    g.note(|| {
        format!(
            "{} points, complex: {}, factor {}, {:?}, length {}, delay {} of {}, typed: {}",
            n, cplx, f, fun, l, delay, delta, typed
        )
    });
    let new_len = (T::of((s * n) as f64) * T::of(f)).round().v() as usize;
    let new_len = new_len + new_len % 2;
    let seen: Seen<T> = on_storage!(&st, &data, cplx, DataDomain::Time, new_len, |v, b| {
        v.set_delta(delta);
        if !typed {
            fun.with::<T, _>(|h| v.interpolatef(&mut b, h, T::of(f), delay, l));
            seen!(v)
        } else if cplx {
            let mut v = ComplexTimeVec::<_, T>::rededicate_from_force(v);
            fun.with::<T, _>(|h| v.interpolatef(&mut b, h, T::of(f), delay, l));
            seen!(v)
        } else {
            let mut v = RealTimeVec::<_, T>::rededicate_from_force(v);
            fun.with::<T, _>(|h| v.interpolatef(&mut b, h, T::of(f), delay, l));
            seen!(v)
        }
    });
    typed_time(&seen, cplx)?;
    ensure!(seen.0.len() == new_len, "{} elements instead of {}", seen.0.len(), new_len);
    if n == 0 {
        return ok(false, "empty");
    }
    let x = points(&data, cplx);
    let out = points(&seen.0, cplx);
    let l = l.min(n / 2) as i64;
    let d = delay.v() / delta.v();
    let simd = l <= 202 && new_len >= 2000 && (f - f.round()).abs() < 1e-6;
    let mut reversed: Option<String> = None;
    for i in some(out.len()) {
        let t = i as f64 / f;
        let expect = |d: f64| {
            let k0 = t.floor() as i64;
            let mut sum: C = (0.0, 0.0);
            let mut mag = 0.0;
            let mut open = 0.0;
            let dx = T::EPS * (2.0 * t + l as f64 + d.abs() + 2.0);
            for m in -l - 2..=l + 2 {
                let p = x[(k0 + m).rem_euclid(n as i64) as usize];
                let h = fun.value((k0 + m) as f64 - t + d);
                let a = (p.0.abs() + p.1.abs()) * (h.abs() + dx * fun.slope());
                // The window may be next to it if the position is rounded to the next sample
                if m.abs() >= l && f != f.round() && (t - t.round()).abs() <= 4.0 * T::EPS * (t + 1.0) {
                    open += a;
                }
                if m.abs() <= l {
                    sum = add(sum, (p.0 * h, p.1 * h));
                }
                mag += (p.0.abs() + p.1.abs()) * (h.abs() * T::EPS * (8.0 + l as f64) + dx * fun.slope());
            }
            (sum, mag + open + 1e-30)
        };
        let (sum, tol) = expect(d);
        let got = out[i];
        if !near(got.0, sum.0, tol) || !near(got.1, sum.1, tol) {
            let text = format!(
                "point {} of {} at {} is {:?} but expected {:?} (tolerance {:e})",
                i,
                out.len(),
                t,
                got,
                sum,
                tol
            );
            let (other, tol) = expect(-d);
            if simd && near(got.0, other.0, tol) && near(got.1, other.1, tol) {
                reversed.get_or_insert(text);
            } else {
                fail!("{}", text);
            }
        }
    }
    if let Some(msg) = reversed {
        return Err(Fail {
            msg,
            known: Some("interpolatef-simd-delay".to_owned()),
        });
    }
    ok(
        n > 1,
        format!(
            "{} {} {}",
            if cplx { "complex" } else { "real" },
            if f.fract() == 0.0 { "integer factor" } else { "real factor" },
            if d == 0.0 { "no delay" } else { "delayed" }
        ),
    )
}

fn short<T: Num>(g: &mut G) -> R {
    by_function::<T>(g, false)
}

fn long<T: Num>(g: &mut G) -> R {
    by_function::<T>(g, true)
}

fn bins(n: usize) -> impl Fn(usize) -> i64 {
    move |i| if i < (n + 1) / 2 { i as i64 } else { i as i64 - n as i64 }
}

fn transform(x: &[C]) -> Vec<C> {
    let r = dft::roots(x.len());
    (0..x.len()).map(|k| dft::bin(x, &r, k, false)).collect()
}

fn norm(x: &[C]) -> f64 {
    x.iter().map(|v| v.0 * v.0 + v.1 * v.1).sum::<f64>().sqrt()
}

fn turn(c: C, angle: f64) -> C {
    mul(c, (angle.cos(), angle.sin()))
}

/// interpolatei filters the zero interleaved signal in the frequency domain.
fn by_integer<T: Num>(g: &mut G) -> R {
    let mut st = Store::draw(g);
    st.bufmul = 8;
    let cplx = g.bool();
    let s = if cplx { 2 } else { 1 };
    let n = g.len(0, if g.thorough { 200 } else { 70 });
    let f = g.range(0, 5);
    let resp = Resp::draw(g, false).rounded::<T>();
    let delta: T = data::delta(g);
    let data: Vec<T> = data::draw(g, s * n, data::TAME);
    g.note(|| format!("{} points, complex: {}, factor {}", n, cplx, f));
    let mut res = Ok(());
    let seen: Seen<T> = on_storage!(&st, &data, cplx, DataDomain::Time, 2 * f * s * n + 4, |v, b| {
        v.set_delta(delta);
        if cplx {
            let mut v = ComplexTimeVec::<_, T>::rededicate_from_force(v);
            res = resp.with_freq::<T, _>(|h| v.interpolatei(&mut b, h, f as u32));
            seen!(v)
        } else {
            res = resp.with_freq::<T, _>(|h| v.interpolatei(&mut b, h, f as u32));
            seen!(v)
        }
    });
    typed_time(&seen, cplx)?;
    if f <= 1 {
        ensure!(res == Ok(()), "interpolatei gave {:?}", res);
        all_same("factor of one", &seen.0, &data)?;
        return ok(false, "factor of one");
    }
    if !cplx && (resp.kind == 1 || resp.kind == 2) {
        ensure!(
            res == Err(ErrorReason::ArgumentFunctionMustBeSymmetric),
            "interpolatei gave {:?}",
            res
        );
        all_same("refused", &seen.0, &data)?;
        return ok(true, "refused");
    }
    ensure!(res == Ok(()), "interpolatei gave {:?}", res);
    let m = n * f;
    ensure!(seen.0.len() == s * m, "{} elements instead of {}", seen.0.len(), s * m);
    if n == 0 {
        return ok(false, "empty");
    }
    let x = points(&data, cplx);
    let mut stuffed = vec![(0.0, 0.0); m];
    for i in 0..n {
        stuffed[i * f] = x[i];
    }
    let mut spec = transform(&stuffed);
    let max = m as f64 / 2.0;
    let mut open = 0.0;
    for i in 0..m {
        let k = if i <= m / 2 { i as f64 } else { i as f64 - m as f64 };
        // The bin of half the sampling rate is at both ends of the spectrum.
        let at = k / max * f as f64;
        let mut h = resp.freq(at);
        if 2 * i == m && (resp.freq(-at) - h).abs() > 0.0 {
            let o = resp.freq(-at);
            open += (spec[i].0.abs() + spec[i].1.abs()) * (o - h).abs();
        }
        let dx = T::EPS * 8.0 * at.abs();
        if resp.kind == 3 && (at.abs() - 1.0).abs() <= dx {
            open += (spec[i].0.abs() + spec[i].1.abs()) * f as f64;
            h = 1.0;
        }
        open += (spec[i].0.abs() + spec[i].1.abs()) * f as f64 * dx * resp.slope() * (1.0 + at.abs());
        spec[i] = (spec[i].0 * h * f as f64, spec[i].1 * h * f as f64);
    }
    let r = dft::roots(m);
    let tol = open / m as f64 + T::EPS * 64.0 * (norm(&spec) + norm(&x) * f as f64) / (m as f64).sqrt() * ((m as f64).log2() + 2.0);
    let out = points(&seen.0, cplx);
    for i in 0..m {
        let w = dft::bin(&spec, &r, i, true);
        let w = (w.0 / m as f64, if cplx { w.1 / m as f64 } else { 0.0 });
        ensure!(
            near(out[i].0, w.0, tol) && near(out[i].1, w.1, tol),
            "point {} of {} is {:?} but expected {:?} (tolerance {:e})",
            i,
            m,
            out[i],
            w,
            tol
        );
    }
    ok(
        n > 1,
        format!(
            "{} {}",
            if cplx { "complex" } else { "real" },
            ["symmetric", "undeclared", "unsymmetric", "sinc", "raised cosine"][resp.kind]
        ),
    )
}

/// interpolate and interpft evaluate the trigonometric polynomial at the new positions.
fn in_freq<T: Num>(g: &mut G) -> R {
    let mut st = Store::draw(g);
    st.bufmul = 8;
    let cplx = g.bool();
    let s = if cplx { 2 } else { 1 };
    let n = g.len(1, if g.thorough { 200 } else { 70 });
    let m = match g.below(4) {
        0 => n,
        1 => g.range(1, n),
        2 => n * g.range(1, 4),
        _ => g.range(n, 3 * n + 3),
    };
    let resp = if g.bool() {
        Some(Resp::draw(g, false).rounded::<T>())
    } else {
        None
    };
    // What becomes of the response if there are fewer points afterwards isn't documented.
    let resp = if m < n { None } else { resp };
    let delta: T = data::delta(g);
    let d = match g.below(3) {
        0 => 0.0,
        1 => g.irange(-3, 3) as f64,
        _ => g.float(-2.0, 2.0),
    };
    let delay = T::of(d * delta.v());
    let d = delay.v() / delta.v();
    let data: Vec<T> = data::draw(g, s * n, data::TAME);
    let ft = resp.is_none() && d == 0.0 && g.bool();
    g.note(|| {
        format!(
            "{} to {} points, complex: {}, {:?}, delay {} of {}, interpft: {}",
            n, m, cplx, resp, delay, delta, ft
        )
    });
    let mut res = Ok(());
    macro_rules! go {
        ($v:expr, $b:expr) => {{
            if ft {
                $v.interpft(&mut $b, m);
            } else if let Some(r) = resp {
                res = r.with_freq::<T, _>(|h| $v.interpolate(&mut $b, Some(h), m, delay));
            } else {
                res = $v.interpolate(&mut $b, None, m, delay);
            }
            seen!($v)
        }};
    }
    let seen: Seen<T> = on_storage!(&st, &data, cplx, DataDomain::Time, 2 * s * n.max(m) + 4, |v, b| {
        v.set_delta(delta);
        if cplx {
            let mut v = ComplexTimeVec::<_, T>::rededicate_from_force(v);
            go!(v, b)
        } else {
            go!(v, b)
        }
    });
    typed_time(&seen, cplx)?;
    if let Some(r) = resp {
        if !cplx && (r.kind == 1 || r.kind == 2) {
            ensure!(
                res == Err(ErrorReason::ArgumentFunctionMustBeSymmetric),
                "interpolate gave {:?}",
                res
            );
            all_same("refused", &seen.0, &data)?;
            return ok(true, "refused");
        }
    }
    ensure!(res == Ok(()), "interpolate gave {:?}", res);
    ensure!(seen.0.len() == s * m, "{} elements instead of {}", seen.0.len(), s * m);
    let want = delta.v() * n as f64 / m as f64;
    ensure!(
        near(seen.3.v(), want, want * T::EPS * 8.0),
        "the sample spacing is {} but expected {}",
        seen.3,
        want
    );
    let x = points(&data, cplx);
    let spec = transform(&x);
    let k = bins(n);
    let ratio = m as f64 / n as f64;
    let max = m as f64 / 2.0;
    let mut open = 0.0;
    let mut terms: Vec<(i64, C)> = vec![];
    let tau = 2.0 * std::f64::consts::PI;
    for i in 0..n {
        let k = k(i);
        if m < n && !(k >= -((m / 2) as i64) && k < (m - m / 2) as i64) {
            continue;
        }
        let mut h = 1.0;
        let mag = spec[i].0.abs() + spec[i].1.abs();
        if m > n {
            if let Some(r) = resp {
                let at = if max == 0.0 { 0.0 } else { k as f64 / max * ratio };
                h = r.freq(at);
                let dx = T::EPS * 16.0 * at.abs();
                if r.kind == 3 && (at.abs() - 1.0).abs() <= dx {
                    open += mag;
                    h = 1.0;
                }
                // The bin of half the sampling rate is at both ends of the spectrum.
                if 2 * k.abs() == m as i64 {
                    open += mag * (r.freq(-at) - h).abs();
                }
                open += mag * dx * r.slope() * (1.0 + at.abs());
            }
        }
        open += mag * T::EPS * 16.0 * tau * d.abs();
        let c = (spec[i].0 * h, spec[i].1 * h);
        terms.push((k, turn(c, tau * k as f64 * d / n as f64)));
    }
    let out = points(&seen.0, cplx);
    let mag: f64 = terms.iter().map(|t| t.1 .0.abs() + t.1 .1.abs()).sum::<f64>() / n as f64;
    let tol = open / n as f64 + T::EPS * 64.0 * (mag + norm(&x)) * ((m.max(n) as f64).log2() + 2.0);
    for j in 0..m {
        let mut w = (0.0, 0.0);
        for &(k, c) in &terms {
            let p = (k * j as i64).rem_euclid(m as i64) as f64 / m as f64;
            w = add(w, turn(c, tau * p));
        }
        let w = (w.0 / n as f64, if cplx { w.1 / n as f64 } else { 0.0 });
        ensure!(
            near(out[j].0, w.0, tol) && near(out[j].1, w.1, tol),
            "point {} of {} is {:?} but expected {:?} (tolerance {:e})",
            j,
            m,
            out[j],
            w,
            tol
        );
    }
    // The original samples are kept where they are sampled again
    if m >= n && m % n == 0 && resp.is_none() && d == 0.0 {
        for i in 0..n {
            let o = out[i * (m / n)];
            ensure!(
                near(o.0, x[i].0, tol) && near(o.1, x[i].1, tol),
                "sample {} is {:?} after the interpolation, but was {:?}",
                i,
                o,
                x[i]
            );
        }
    }
    ok(
        n > 1 && (m != n || d != 0.0),
        format!(
            "{} {}{}{}",
            if cplx { "complex" } else { "real" },
            if m > n {
                "more points"
            } else if m < n {
                "fewer points"
            } else {
                "same points"
            },
            if resp.is_some() { ", response" } else { "" },
            if d != 0.0 { ", delayed" } else { "" }
        ),
    )
}

/// Band limited signals are interpolated exactly with the sinc function.
fn sampled<T: Num>(g: &mut G) -> R {
    let mut st = Store::draw(g);
    st.bufmul = 8;
    let n = g.range(3, 60);
    let f = g.range(2, 5);
    let tones: Vec<(i64, f64, f64)> = (0..g.range(1, 4))
        .map(|_| {
            (
                g.irange(-((n as i64 - 1) / 2), (n as i64 - 1) / 2),
                g.float(-2.0, 2.0),
                g.float(-2.0, 2.0),
            )
        })
        .collect();
    let tau = 2.0 * std::f64::consts::PI;
    let signal = |t: f64| {
        let mut w = (0.0, 0.0);
        for &(k, a, b) in &tones {
            w = add(w, turn((a, b), tau * k as f64 * t / n as f64));
        }
        w
    };
    let data: Vec<T> = (0..n)
        .flat_map(|i| {
            let w = signal(i as f64);
            vec![T::of(w.0), T::of(w.1)]
        })
        .collect();
    let way = g.below(3);
    let d = if way == 0 { 0.0 } else { g.float(-2.0, 2.0) };
    g.note(|| format!("{} points by {}, tones {:?}, way {}, delay {}", n, f, tones, way, d));
    let sinc = SincFunction::<T>::new();
    let h: &dyn RealFrequencyResponse<T> = &sinc;
    let out: Vec<T> = on_storage!(&st, &data, true, DataDomain::Time, 4 * f * n + 4, |v, b| {
        match way {
            0 => v.interpolatei(&mut b, h, f as u32).expect("fine"),
            1 => v.interpolate(&mut b, Some(h), f * n, T::of(d)).expect("fine"),
            _ => v.interpolate(&mut b, None, f * n, T::of(d)).expect("fine"),
        }
        v.data(..).to_vec()
    });
    ensure!(out.len() == 2 * n * f, "{} elements instead of {}", out.len(), 2 * n * f);
    let mag: f64 = tones.iter().map(|t| t.1.abs() + t.2.abs()).sum();
    let tol = T::EPS * 200.0 * mag * (1.0 + (n as f64).log2()) + 1e-30;
    for i in 0..n * f {
        let w = signal(i as f64 / f as f64 + d);
        let got = (out[2 * i].v(), out[2 * i + 1].v());
        ensure!(
            near(got.0, w.0, tol) && near(got.1, w.1, tol),
            "point {} is {:?} but the signal is {:?} there (tolerance {:e})",
            i,
            got,
            w,
            tol
        );
    }
    ok(mag > 0.0, ["interpolatei", "interpolate sinc", "interpolate"][way as usize])
}

fn decimate<T: Num>(g: &mut G) -> R {
    let st = Store::draw(g);
    let cplx = g.bool();
    let s = if cplx { 2 } else { 1 };
    let n = g.len(0, 300);
    let f = g.range(1, 8);
    let d = g.range(0, n + 2);
    let data: Vec<T> = data::draw(g, s * n, data::ALL);
    let delta: T = data::delta(g);
    g.note(|| format!("every {} of {} points from {}, complex: {}", f, n, d, cplx));
    let seen: Seen<T> = on_storage!(&st, &data, cplx, DataDomain::Time, 0, |v, _b| {
        v.set_delta(delta);
        v.decimatei(f as u32, d as u32);
        seen!(v)
    });
    typed_time(&seen, cplx)?;
    let want: Vec<T> = data.chunks(s).skip(d).step_by(f).flat_map(|c| c.to_vec()).collect();
    all_same("decimatei", &seen.0, &want)?;
    ok(n > d && f > 1, if cplx { "complex" } else { "real" })
}

fn main() {
    let mut s = vec![];
    both!(&mut s, "short", 5000, short);
    both!(&mut s, "long", 1500, long);
    both!(&mut s, "by_integer", 4000, by_integer);
    both!(&mut s, "in_freq", 4000, in_freq);
    both!(&mut s, "sampled", 2000, sampled);
    both!(&mut s, "decimate", 8000, decimate);
    vharness::main(
        "C21",
        "signal, factor or number of points, response, window length, delay, number space, storage, buffer and threads are drawn; non-trivial: at least two points, a factor other than one (or a delay) and something decimated, or a refusal",
        s,
    );
}

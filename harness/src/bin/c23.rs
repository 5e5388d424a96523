//! C23: impulse and frequency response functions, custom and tabulated.
use vharness::dft::C;
use vharness::dsp::conv_types::*;
use vharness::resp::Resp;
use vharness::*;

/// The largest table of the build.
fn most() -> usize {
    if cfg!(feature = "std") {
        300
    } else {
        32
    }
}

fn nudge<T: Num>(x: T, ulps: i64) -> T {
    let eps = T::EPS * ulps as f64;
    T::of(x.v() * (1.0 + eps) + if x.v() == 0.0 { eps } else { 0.0 })
}

/// The textbook values.
fn builtin<T: Num>(g: &mut G) -> R {
    let kind = 3 + g.below(2) as usize;
    let p = if kind == 4 {
        match g.below(3) {
            0 => *g.pick(&[0.25, 0.5, 0.125, 1.0, 0.35]),
            _ => g.float(0.02, 1.0),
        }
    } else {
        0.5
    };
    let r = Resp { kind, p: T::of(p).v(), q: 0.0 };
    let freq = g.bool();
    // The edges of the response, or the removable singularities
    let special: Vec<f64> = if freq {
        if kind == 3 { vec![0.0, 1.0] } else { vec![0.0, 1.0 - r.p, 1.0 + r.p, 1.0] }
    } else {
        vec![0.0, 0.5 / r.p, 1.0, 2.0]
    };
    let sign = if g.bool() { -1.0 } else { 1.0 };
    let x = if g.bool() {
        let s = *g.pick(&special);
        let s = T::of(s);
        match g.below(4) {
            0 => s,
            1 => nudge(s, g.irange(-4, 4)),
            2 => nudge(s, g.irange(-3000, 3000)),
            _ => T::of(s.v() + g.float(-1e-3, 1e-3)),
        }
    } else {
        let top = *g.pick(&[2.0, 20.0, 200.0]);
        T::of(g.float(0.0, top))
    };
    let x = T::of(x.v() * sign);
    g.note(|| format!("{:?}, frequency domain: {}, x {:?}", r, freq, x));
    let (got, mirrored, symmetric) = if freq {
        r.with_freq::<T, _>(|f| (f.calc(x), f.calc(T::of(-x.v())), f.is_symmetric()))
    } else {
        r.with_time::<T, _>(|f| (f.calc(x), f.calc(T::of(-x.v())), f.is_symmetric()))
    };
    ensure!(symmetric, "isn't symmetric by its own account");
    ensure!(got == mirrored, "isn't symmetric: {} and {}", got, mirrored);
    let x = x.v();
    let want = if freq { r.freq(x) } else { r.time(x) };
    // The rounding of the argument, and of the parameter
    let tol = if freq {
        T::EPS * 16.0 * (1.0 + 1.0 / r.p)
    } else {
        T::EPS * (16.0 + 8.0 * x.abs().min(4.0 / r.p)) * (1.0 + 1.0 / (1.0 + x.abs()))
    };
    let edge = freq && kind == 3 && (x.abs() - 1.0).abs() < T::EPS / 4.0;
    ensure!(near(got.v(), want, tol) || edge, "the value at {:e} is {} but expected {} (tolerance {:e})", x, got, want, tol);
    ok(x != 0.0, format!("{} {}", if kind == 3 { "sinc" } else { "raised cosine" }, if freq { "frequency" } else { "time" }))
}

/// The time domain is the inverse Fourier transform of the frequency domain.
fn pair<T: Num>(g: &mut G) -> R {
    let kind = 3 + g.below(2) as usize;
    let r = Resp { kind, p: T::of(g.float(0.1, 1.0)).v(), q: 0.0 };
    let t = T::of(g.float(-6.0, 6.0));
    g.note(|| format!("{:?} at {}", r, t));
    // Half the integral of H(u) cos(pi u t), by the midpoint rule between the edges
    let edges = if kind == 3 { vec![0.0, 1.0] } else { vec![0.0, 1.0 - r.p, 1.0 + r.p] };
    let steps = 2000;
    let mut sum = 0.0;
    for e in edges.windows(2) {
        let h = (e[1] - e[0]) / steps as f64;
        for i in 0..steps {
            let u = e[0] + h * (i as f64 + 0.5);
            let v = r.with_freq::<T, _>(|f| f.calc(T::of(u))).v();
            sum += v * (std::f64::consts::PI * u * t.v()).cos() * h;
        }
    }
    let got = r.with_time::<T, _>(|f| f.calc(t)).v();
    let tol = 1e-4 + T::EPS * 10.0;
    ensure!(near(got, sum, tol), "the impulse response at {} is {} but the transform of the frequency response is {}", t, got, sum);
    ok(t.v() != 0.0, if kind == 3 { "sinc" } else { "raised cosine" })
}

fn cdata<T: Num>(g: &mut G, n: usize) -> Vec<Complex<T>> {
    let d: Vec<T> = data::draw(g, 2 * n, data::TAME);
    d.chunks(2).map(|c| Complex::new(c[0], c[1])).collect()
}

fn c<T: Num>(z: Complex<T>) -> C {
    (z.re.v(), z.im.v())
}

/// A table with linear interpolation between its points.
fn expect_lookup(table: &[C], p: f64, slack: f64, got: C, tol: f64) -> Result<(), String> {
    let n = table.len();
    let fine = |w: C, tol: f64| near(got.0, w.0, tol) && near(got.1, w.1, tol);
    let last = n as f64 - 1.0;
    if p < -0.5 - slack || p > last + 0.5 + slack || n == 0 {
        if !fine((0.0, 0.0), 0.0) {
            return Err(format!("{:?} at position {} outside of the table with {} points", got, p, n));
        }
        return Ok(());
    }
    // Up to half a point outside either the closest point or zero is fine
    if p < slack || p > last - slack {
        if p < -slack && (fine((0.0, 0.0), 0.0) || fine(table[0], tol)) {
            return Ok(());
        }
        if p > last + slack && (fine((0.0, 0.0), 0.0) || fine(table[n - 1], tol)) {
            return Ok(());
        }
    }
    let k = (p.max(0.0).min(last).floor() as usize).min(n - 1);
    let next = (k + 1).min(n - 1);
    let u = (p - k as f64).max(0.0).min(1.0);
    let w = (table[k].0 * (1.0 - u) + table[next].0 * u, table[k].1 * (1.0 - u) + table[next].1 * u);
    if !fine(w, tol) {
        return Err(format!("{:?} at position {} of the table but expected {:?} (tolerance {:e})", got, p, w, tol));
    }
    Ok(())
}

macro_rules! table_checks {
    ($T:ty, $mod:ident) => {
        mod $mod {
            use super::*;
            type T = $T;

            pub fn lookup(g: &mut G) -> R {
                let n = match g.below(3) {
                    0 => g.range(1, 6),
                    _ => g.range(1, most()),
                };
                let delta: T = T::of(*g.pick(&[1.0, 0.5, 0.1, 0.3, 2.0]));
                let sym = g.bool();
                let kind = g.below(4);
                let cplx = kind >= 2;
                let tc: Vec<Complex<T>> = cdata(g, n);
                let tr: Vec<T> = tc.iter().map(|z| z.re).collect();
                let center = (n / 2) as f64;
                let p = match g.below(5) {
                    0 => g.range(0, n - 1) as f64,
                    1 => g.irange(-3, n as i64 + 3) as f64,
                    2 => g.float(-1.5, 1.0),
                    3 => n as f64 - g.float(-1.5, 1.5),
                    _ => g.float(-2.0 * n as f64, 3.0 * n as f64),
                };
                let x = T::of((p - center) * delta.v());
                let p = x.v() / delta.v() + center;
                g.note(|| format!("kind {}, {} points, delta {}, x {}", kind, n, delta, x));
                let (got, s, d) = match kind {
                    0 => {
                        let t = RealTimeLinearTableLookup::<T>::from_raw_parts(&tr, delta, sym);
                        all_same("table", t.table(), &tr)?;
                        ((t.calc(x).v(), 0.0), t.is_symmetric(), t.delta())
                    }
                    1 => {
                        let t = RealFrequencyLinearTableLookup::<T>::from_raw_parts(&tr, delta, sym);
                        all_same("table", t.table(), &tr)?;
                        ((t.calc(x).v(), 0.0), t.is_symmetric(), t.delta())
                    }
                    2 => {
                        let t = ComplexTimeLinearTableLookup::<T>::from_raw_parts(&tc, delta, sym);
                        ensure!(t.table() == &tc[..], "another table");
                        (c(t.calc(x)), t.is_symmetric(), t.delta())
                    }
                    _ => {
                        let t = ComplexFrequencyLinearTableLookup::<T>::from_raw_parts(&tc, delta, sym);
                        ensure!(t.table() == &tc[..], "another table");
                        (c(t.calc(x)), t.is_symmetric(), t.delta())
                    }
                };
                ensure!(s == sym && d == delta, "symmetric: {}, delta {}", s, d);
                let table: Vec<C> = tc.iter().map(|z| if cplx { c(*z) } else { (z.re.v(), 0.0) }).collect();
                let mag = table.iter().fold(0.0f64, |m, z| m.max(z.0.abs() + z.1.abs()));
                let slack = <T as Num>::EPS * 8.0 * (p.abs() + center + 1.0) + 1.1e-6;
                expect_lookup(&table, p, slack, got, mag * (2.0 * slack + 8.0 * <T as Num>::EPS))?;
                ok(n > 1, ["real time", "real frequency", "complex time", "complex frequency"][kind as usize])
            }

            /// A table is filled with the function's values.
            pub fn sampled(g: &mut G) -> R {
                let len = g.range(0, (most() - 1) / 2);
                let delta: T = T::of(*g.pick(&[1.0, 0.5, 0.1, 0.3, 2.0]));
                let kind = g.below(4);
                let r = Resp::draw(g, kind >= 2).rounded::<T>();
                g.note(|| format!("kind {}, len {}, delta {}", kind, len, delta));
                let (table, sym, d, fsym): (Vec<Complex<T>>, bool, T, bool) = match kind {
                    0 => r.with_time::<T, _>(|f| {
                        let t = RealTimeLinearTableLookup::<T>::from_conv_function(f, delta, len);
                        (t.table().iter().map(|x| Complex::new(*x, 0.0)).collect(), t.is_symmetric(), t.delta(), f.is_symmetric())
                    }),
                    1 => r.with_freq::<T, _>(|f| {
                        let t = RealFrequencyLinearTableLookup::<T>::from_conv_function(f, delta, len);
                        (t.table().iter().map(|x| Complex::new(*x, 0.0)).collect(), t.is_symmetric(), t.delta(), f.is_symmetric())
                    }),
                    2 => {
                        let f: &dyn ComplexImpulseResponse<T> = &r;
                        let t = ComplexTimeLinearTableLookup::<T>::from_conv_function(f, delta, len);
                        (t.table().to_vec(), t.is_symmetric(), t.delta(), f.is_symmetric())
                    }
                    _ => {
                        let f: &dyn ComplexFrequencyResponse<T> = &r;
                        let t = ComplexFrequencyLinearTableLookup::<T>::from_conv_function(f, delta, len);
                        (t.table().to_vec(), t.is_symmetric(), t.delta(), f.is_symmetric())
                    }
                };
                ensure!(sym == fsym && d == delta, "symmetric: {}, delta {}", sym, d);
                ensure!(table.len() == 2 * len + 1, "{} points instead of {}", table.len(), 2 * len + 1);
                for i in 0..table.len() {
                    let x = (i as f64 - len as f64) * delta.v();
                    let w = match kind {
                        0 => (r.time(x), 0.0),
                        1 => (r.freq(x), 0.0),
                        _ => r.user(x),
                    };
                    let dx = <T as Num>::EPS * 4.0 * x.abs();
                    let edge = kind == 1 && r.kind == 3 && (x.abs() - 1.0).abs() <= dx;
                    let tol = <T as Num>::EPS * 32.0 * (w.0.abs() + w.1.abs() + 1.0) + dx * r.slope() * (1.0 + x.abs());
                    let got = c(table[i]);
                    ensure!(
                        edge || (near(got.0, w.0, tol) && near(got.1, w.1, tol)),
                        "point {} of the table is {:?} but expected {:?} (tolerance {:e})", i, got, w, tol
                    );
                }
                ok(len > 0, ["real time", "real frequency", "complex time", "complex frequency"][kind as usize])
            }

            fn near_table(what: &str, got: &[Complex<T>], want: &[C], tol: f64) -> Result<(), String> {
                if got.len() != want.len() {
                    return Err(format!("{}: {} points instead of {}", what, got.len(), want.len()));
                }
                for i in 0..got.len() {
                    let z = c(got[i]);
                    if !near(z.0, want[i].0, tol) || !near(z.1, want[i].1, tol) {
                        return Err(format!("{}: point {} is {:?} but expected {:?} (tolerance {:e})", what, i, z, want[i], tol));
                    }
                }
                Ok(())
            }

            /// Conversions between number spaces and domains.
            pub fn convert(g: &mut G) -> R {
                let n = g.range(1, most().min(150));
                let delta: T = T::of(*g.pick(&[1.0, 0.5, 0.1, 0.3, 2.0]));
                let sym = g.bool();
                let tc: Vec<Complex<T>> = cdata(g, n);
                let tr: Vec<T> = tc.iter().map(|z| z.re).collect();
                let what = g.below(8);
                g.note(|| format!("conversion {}, {} points, delta {}", what, n, delta));
                let z: Vec<C> = tc.iter().map(|z| c(*z)).collect();
                let re: Vec<C> = tr.iter().map(|x| (x.v(), 0.0)).collect();
                let roots = dft::roots(n);
                let spectrum = |x: &[C]| -> Vec<C> {
                    // 0 Hz is in the center
                    (0..n).map(|i| dft::bin(x, &roots, (i + (n + 1) / 2) % n, false)).collect()
                };
                let norm = dft::norm2(&z);
                let tol = <T as Num>::EPS * 64.0 * norm * ((n as f64).log2() + 2.0);
                let reals = |t: &[T]| -> Vec<Complex<T>> { t.iter().map(|x| Complex::new(*x, 0.0)).collect() };
                let (name, s, d, scaled) = match what {
                    0 => {
                        let t = RealTimeLinearTableLookup::<T>::from_raw_parts(&tr, delta, sym).to_complex();
                        near_table("to_complex", t.table(), &re, 0.0)?;
                        ("real time to complex", t.is_symmetric(), t.delta(), false)
                    }
                    1 => {
                        let t = RealFrequencyLinearTableLookup::<T>::from_raw_parts(&tr, delta, sym).to_complex();
                        near_table("to_complex", t.table(), &re, 0.0)?;
                        ("real frequency to complex", t.is_symmetric(), t.delta(), false)
                    }
                    2 => {
                        let t = ComplexTimeLinearTableLookup::<T>::from_raw_parts(&tc, delta, sym).to_real();
                        near_table("to_real", &reals(t.table()), &re, 0.0)?;
                        ("complex time to real", t.is_symmetric(), t.delta(), false)
                    }
                    3 => {
                        let t = ComplexFrequencyLinearTableLookup::<T>::from_raw_parts(&tc, delta, sym).to_real();
                        near_table("to_real", &reals(t.table()), &re, 0.0)?;
                        ("complex frequency to real", t.is_symmetric(), t.delta(), false)
                    }
                    4 => {
                        let t = ComplexTimeLinearTableLookup::<T>::from_raw_parts(&tc, delta, sym).fft();
                        near_table("fft", t.table(), &spectrum(&z), tol)?;
                        ("complex fft", t.is_symmetric(), t.delta(), true)
                    }
                    5 => {
                        let t = RealTimeLinearTableLookup::<T>::from_raw_parts(&tr, delta, sym).fft();
                        let w: Vec<C> = spectrum(&re).iter().map(|z| (z.0.hypot(z.1), 0.0)).collect();
                        near_table("fft", &reals(t.table()), &w, tol)?;
                        ("magnitude spectrum", t.is_symmetric(), t.delta(), true)
                    }
                    6 => {
                        let t = ComplexFrequencyLinearTableLookup::<T>::from_raw_parts(&tc, delta, sym).ifft();
                        let w: Vec<C> = (0..n)
                            .map(|i| {
                                let mut x = z.clone();
                                x.rotate_left(n / 2);
                                let w = dft::bin(&x, &roots, i, true);
                                (w.0 / n as f64, w.1 / n as f64)
                            })
                            .collect();
                        near_table("ifft", t.table(), &w, tol)?;
                        ("complex ifft", t.is_symmetric(), t.delta(), true)
                    }
                    _ => {
                        let t = ComplexTimeLinearTableLookup::<T>::from_raw_parts(&tc, delta, sym).fft().ifft();
                        near_table("fft and ifft", t.table(), &z, tol)?;
                        ("fft and ifft", t.is_symmetric(), delta, false)
                    }
                };
                let want = if scaled { delta.v() * n as f64 } else { delta.v() };
                ensure!(s == sym, "symmetric {} but was {}", s, sym);
                ensure!(near(d.v(), want, want * 4.0 * <T as Num>::EPS), "delta {} but expected {}", d, want);
                ok(n > 1, name)
            }
        }
    };
}
table_checks!(f32, single);
table_checks!(f64, double);

fn main() {
    let mut s = vec![];
    both!(&mut s, "builtin", 20000, builtin);
    both!(&mut s, "pair", 200, pair);
    sub(&mut s, "lookup<f32>", 10000, single::lookup);
    sub(&mut s, "lookup<f64>", 10000, double::lookup);
    sub(&mut s, "sampled<f32>", 2000, single::sampled);
    sub(&mut s, "sampled<f64>", 2000, double::sampled);
    sub(&mut s, "convert<f32>", 4000, single::convert);
    sub(&mut s, "convert<f64>", 4000, double::convert);
    vharness::main(
        "C23",
        "the function and its argument (often at or within some ulps of an edge or a removable singularity), or a table, its spacing and a position inside or outside are drawn; non-trivial: an argument other than zero, a table with at least two points",
        s,
    );
}

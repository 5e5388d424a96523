//! C22: linear and spline interpolation of real vectors.
use vharness::dsp::*;
use vharness::*;

/// The signal goes on linearly outside of its samples.
fn sample(x: &[f64], k: i64) -> f64 {
    let n = x.len() as i64;
    if n == 1 {
        x[0]
    } else if k < 0 {
        x[0] + (x[1] - x[0]) * k as f64
    } else if k >= n {
        x[n as usize - 1] + (x[n as usize - 1] - x[n as usize - 2]) * (k - n + 1) as f64
    } else {
        x[k as usize]
    }
}

fn interpolate<T: Num>(g: &mut G) -> R {
    let st = Store::draw(g);
    let n = match g.below(3) {
        0 => g.range(0, 6),
        1 => g.range(0, 30),
        _ => g.range(0, if g.thorough { 800 } else { 200 }),
    };
    let f = T::of(match g.below(3) {
        0 => g.range(1, 6) as f64,
        1 => g.float(0.2, 1.0),
        _ => g.float(1.0, 8.0),
    });
    // A delay which keeps within the signal, or leaves it by at most two points
    let d = T::of(match g.below(4) {
        0 => 0.0,
        1 => g.float(0.0, 1.0),
        2 => g.irange(-2, 2) as f64,
        _ => g.float(-2.0, 2.0),
    });
    let hermite = g.bool();
    let linear = g.chance(1, 4);
    let dom = if g.bool() { DataDomain::Time } else { DataDomain::Frequency };
    let typed = g.bool();
    let delta: T = data::delta(g);
    let data: Vec<T> = if linear {
        let (a, b) = (g.float(-3.0, 3.0), g.float(-10.0, 10.0));
        (0..n).map(|i| T::of(a * i as f64 + b)).collect()
    } else {
        data::draw(g, n, data::TAME)
    };
    g.note(|| format!("{} points, factor {}, delay {}, hermite: {}, linear: {}, {:?}, typed: {}", n, f, d, hermite, linear, dom, typed));
    let m = if n == 0 { 0 } else { (T::of((n - 1) as f64) * f).round().v() as usize + 1 };
    macro_rules! run {
        ($v:expr, $b:expr) => {{
            if hermite {
                $v.interpolate_hermite(&mut $b, f, d);
            } else {
                $v.interpolate_lin(&mut $b, f, d);
            }
            ($v.data(..).to_vec(), $v.is_complex(), $v.domain(), $v.delta())
        }};
    }
    let (out, c, dm, dl) = on_storage!(&st, &data, false, dom, m, |v, b| {
        v.set_delta(delta);
        if !typed {
            run!(v, b)
        } else if dom == DataDomain::Time {
            let mut v = RealTimeVec::<_, T>::rededicate_from_force(v);
            run!(v, b)
        } else {
            let mut v = RealFreqVec::<_, T>::rededicate_from_force(v);
            run!(v, b)
        }
    });
    ensure!(!c && dm == dom && dl == delta, "meta data changed: complex {}, {:?}, delta {}", c, dm, dl);
    ensure!(out.len() == m, "{} points instead of {}", out.len(), m);
    let x: Vec<f64> = data.iter().map(|x| x.v()).collect();
    let mag = x.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    for i in 0..m {
        let p = i as f64 / f.v() + d.v();
        let k = p.floor() as i64;
        let u = p - k as f64;
        let y = [sample(&x, k - 1), sample(&x, k), sample(&x, k + 1), sample(&x, k + 2)];
        let steep = (0..3).map(|j| (y[j + 1] - y[j]).abs()).fold(0.0, f64::max);
        let size = y.iter().fold(0.0f64, |m, x| m.max(x.abs())).max(if k < 0 || k + 2 >= n as i64 { mag } else { 0.0 });
        // The position itself is rounded
        let tol = T::EPS * (16.0 * size + 8.0 * steep * (p.abs() + i as f64 / f.v() + 1.0));
        let w = if hermite {
            // The Catmull-Rom spline in its Hermite form
            let (m1, m2) = ((y[2] - y[0]) / 2.0, (y[3] - y[1]) / 2.0);
            let (u2, u3) = (u * u, u * u * u);
            (2.0 * u3 - 3.0 * u2 + 1.0) * y[1] + (u3 - 2.0 * u2 + u) * m1 + (-2.0 * u3 + 3.0 * u2) * y[2] + (u3 - u2) * m2
        } else {
            y[1] * (1.0 - u) + y[2] * u
        };
        ensure!(near(out[i].v(), w, tol), "point {} of {} at {} is {} but expected {} (tolerance {:e})", i, m, p, out[i], w, tol);
        if linear && n > 1 {
            let w = x[0] + (x[1] - x[0]) * p;
            let tol = tol + 4.0 * T::EPS * (mag + 10.0) * (p.abs() + 1.0);
            ensure!(near(out[i].v(), w, tol), "point {} of the linear signal at {} is {} but expected {}", i, p, out[i], w);
        }
    }
    // Passes through every sample
    if f.v().fract() == 0.0 && d.v() == 0.0 {
        for i in 0..n {
            let tol = T::EPS * 16.0 * (mag + 1.0) * (1.0 + i as f64);
            let got = out[i * f.v() as usize].v();
            ensure!(near(got, x[i], tol), "sample {} is {} afterwards but was {}", i, got, x[i]);
        }
    }
    ok(n > 1, format!("{} {} {}", if hermite { "hermite" } else { "linear" }, if f.v().fract() == 0.0 { "integer" } else { "fraction" }, if d.v() == 0.0 { "no delay" } else { "delay" }))
}

fn refused<T: Num>(g: &mut G) -> R {
    let st = Store::draw(g);
    let n = g.range(0, 20);
    let data: Vec<T> = data::draw(g, 2 * n, data::TAME);
    let hermite = g.bool();
    let (len, delta) = on_storage!(&st, &data, true, DataDomain::Time, 4 * n, |v, b| {
        if hermite {
            v.interpolate_hermite(&mut b, T::of(2.0), T::of(0.0));
        } else {
            v.interpolate_lin(&mut b, T::of(2.0), T::of(0.0));
        }
        (v.len(), v.delta())
    });
    ensure!(len == 0 && delta.v().is_nan(), "{} elements with delta {} but complex vectors aren't allowed", len, delta);
    ok(true, "refused")
}

fn main() {
    let mut s = vec![];
    both!(&mut s, "interpolate", 15000, interpolate);
    both!(&mut s, "refused", 1000, refused);
    vharness::main(
        "C22",
        "signal, factor, delay, kind of interpolation, domain, storage and buffer are drawn; non-trivial: at least two points, or a refusal",
        s,
    );
}

//! C07: complex exponentials, conjugation, and phase wrap/unwrap.
use vharness::dsp::*;
use vharness::*;

fn class(points: usize, what: &str) -> String {
    format!("{} {}", what, match points {
        0 => "empty",
        1 => "one point",
        2..=9 => "short",
        _ => "long",
    })
}

fn exponential<T: Num>(g: &mut G) -> R {
    let st = Store::draw(g);
    let m = if g.thorough { 2000 } else { 300 };
    let n = g.len(0, m);
    let data: Vec<T> = data::draw(g, 2 * n, data::FINITE);
    let a: T = T::of(g.float(-4.0, 4.0));
    let b: T = T::of(g.float(-7.0, 7.0));
    let delta: T = T::of(*g.pick(&[1.0, 0.5, 0.1, 2.0, 0.001]));
    let dom = *g.pick(&[DataDomain::Time, DataDomain::Frequency]);
    g.note(|| format!("exp(j*({}*i+{})*{})", a, b, delta));
    let (out, d) = on_storage!(&st, &data, true, dom, 0, |v, _b| {
        v.set_delta(delta);
        v.multiply_complex_exponential(a, b);
        (v.data(..).to_vec(), v.delta())
    });
    ensure!(d == delta, "delta changed to {}", d);
    ensure!(out.len() == 2 * n, "length changed to {}", out.len());
    for i in 0..n {
        let x = (data[2 * i].v(), data[2 * i + 1].v());
        let phi = (a * delta).v() * i as f64 + (b * delta).v();
        let w = (x.0 * phi.cos() - x.1 * phi.sin(), x.0 * phi.sin() + x.1 * phi.cos());
        let mag = x.0.hypot(x.1);
        let tol = T::EPS * mag * (20.0 + 8.0 * i as f64);
        let got = (out[2 * i].v(), out[2 * i + 1].v());
        ensure!(near(got.0, w.0, tol) && near(got.1, w.1, tol), "point {} of {}: {:?} became {:?} but expected {:?}", i, n, x, got, w);
    }
    ok(n > 0, class(n, "exponential"))
}

fn conj<T: Num>(g: &mut G) -> R {
    let st = Store::draw(g);
    let m = if g.thorough { 5000 } else { 600 };
    let n = g.len(0, m);
    let data: Vec<T> = data::draw(g, 2 * n, data::ALL);
    let dom = *g.pick(&[DataDomain::Time, DataDomain::Frequency]);
    let out = on_storage!(&st, &data, true, dom, 0, |v, _b| {
        v.conj();
        v.data(..).to_vec()
    });
    let want: Vec<T> = data.iter().enumerate().map(|(i, x)| if i % 2 == 0 { *x } else { -*x }).collect();
    all_same("conjugate", &out, &want)?;
    ok(n > 0, class(n, "conj"))
}

fn wrap<T: Num>(g: &mut G) -> R {
    let st = Store::draw(g);
    let m = if g.thorough { 3000 } else { 400 };
    let n = g.len(0, m);
    let data: Vec<T> = data::draw(g, n, data::ALL);
    let divisor: T = T::of(match g.below(8) {
        6 => g.float(0.01, 100.0),
        7 => 1000.0,
        i => [4.0, 1.0, 0.5, 3.0, 6.283185307179586, 10.0][i as usize],
    });
    let dom = *g.pick(&[DataDomain::Time, DataDomain::Frequency]);
    let out = on_storage!(&st, &data, false, dom, 0, |v, _b| {
        v.wrap(divisor);
        v.data(..).to_vec()
    });
    let want: Vec<T> = data.iter().map(|x| *x % divisor).collect();
    all_same("wrapped", &out, &want)?;
    ok(n > 0, class(n, "wrap"))
}

/// Unwrapping undoes wrapping as long as the steps are smaller than half the divisor.
fn unwrap<T: Num>(g: &mut G) -> R {
    let st = Store::draw(g);
    let m = if g.thorough { 3000 } else { 400 };
    let n = g.len(0, m);
    let exact = g.chance(2, 3);
    // If all values are multiples of a power of two, then every step is exact.
    let divisor: f64 = if exact {
        *g.pick(&[4.0, 1.0, 8.0, 2.0])
    } else {
        let d = *g.pick(&[6.283185307179586, 3.0, 0.1, 360.0, 0.0]);
        let d = if d == 0.0 { g.float(0.05, 50.0) } else { d };
        T::of(d).v()
    };
    let big = if exact { 511i64 } else { 500 };
    let quantum = divisor / 1024.0;
    let mode = g.below(4);
    let seed = g.below(1 << 40);
    let mut r = vharness::g::Rng::new(seed);
    let mut x = 0i64;
    let mut signal = vec![];
    let edge = g.bool();
    let trend = if edge { big * (1 - 2 * r.below(2) as i64) } else { r.below(2 * big as u64 + 1) as i64 - big };
    for _ in 0..n {
        let up = if edge && r.below(3) > 0 { big } else { r.below(big as u64 + 1) as i64 };
        let step = match mode {
            0 => trend,
            1 => if r.below(2) == 0 { up } else { -up },
            2 => if r.below(3) == 0 { 0 } else { up },
            _ => -up,
        };
        x += step;
        signal.push(x);
    }
    let data: Vec<T> = signal.iter().map(|x| T::of(*x as f64 * quantum)).collect();
    g.note(|| format!("unwrap mode {} divisor {} seed {}: {:?}", mode, divisor, seed, &data[..n.min(6)]));
    let out = on_storage!(&st, &data, false, DataDomain::Time, 0, |v, _b| {
        v.wrap(T::of(divisor));
        v.unwrap(T::of(divisor));
        v.data(..).to_vec()
    });
    // Only the first point decides about the multiple of the divisor which is lost.
    let shift = if n > 0 { (data[0].v() % divisor) - data[0].v() } else { 0.0 };
    if exact {
        let want: Vec<T> = data.iter().map(|x| T::of(x.v() + shift)).collect();
        all_same("unwrapped", &out, &want)?;
    } else {
        let want: Vec<f64> = data.iter().map(|x| x.v() + shift).collect();
        let top = data.iter().fold(divisor, |m, x| m.max(x.v().abs()));
        all_near("unwrapped", &out, &want, 4.0 * (n as f64 + 1.0) * T::EPS, top)?;
    }
    ok(n > 1, class(n, &format!("unwrap {}", ["steady", "random walk", "growing", "falling"][mode as usize])))
}

/// What unwrap means for any input: the values keep their remainders and the steps become small.
fn unwrap_any<T: Num>(g: &mut G) -> R {
    let st = Store::draw(g);
    let n = g.len(0, 300);
    let data: Vec<T> = data::draw(g, n, &[data::Kind::SmallInts, data::Kind::Ramp]);
    let divisor = *g.pick(&[4.0, 8.0, 2.0, 3.0, 5.0]);
    g.note(|| format!("divisor {}", divisor));
    let out = on_storage!(&st, &data, false, DataDomain::Time, 0, |v, _b| {
        v.unwrap(T::of(divisor));
        v.data(..).to_vec()
    });
    ensure!(out.len() == n, "length changed to {}", out.len());
    for i in 0..n {
        let d = (out[i].v() - data[i].v()) / divisor;
        ensure!(d == d.round(), "element {} moved by {} which isn't a multiple of {}", i, out[i].v() - data[i].v(), divisor);
        if i > 0 {
            let step = out[i].v() - out[i - 1].v();
            ensure!(step.abs() <= divisor / 2.0, "step {} at {} after unwrapping by {}", step, i, divisor);
        }
    }
    ok(n > 1, class(n, "unwrap any"))
}

fn main() {
    let mut s = vec![];
    both!(&mut s, "exponential", 30000, exponential);
    both!(&mut s, "conj", 25000, conj);
    both!(&mut s, "wrap", 15000, wrap);
    both!(&mut s, "unwrap", 25000, unwrap);
    both!(&mut s, "unwrap_any", 10000, unwrap_any);
    vharness::main(
        "C07",
        "contents, factors, sample spacing, divisors, signal shapes, sizes and storages are drawn; non-trivial: at least one \
         point (two for unwrapping)",
        s,
    );
}

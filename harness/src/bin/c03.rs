//! C03: approximated functions stay within their documented accuracy.
use vharness::dsp::*;
use vharness::*;

const NAMES: [&str; 7] = ["ln_approx", "exp_approx", "sin_approx", "cos_approx", "log_approx", "expf_approx", "powf_approx"];

fn exact(op: usize, x: f64, a: f64) -> f64 {
    match op {
        0 => x.ln(),
        1 => x.exp(),
        2 => x.sin(),
        3 => x.cos(),
        4 => x.ln() / a.ln(),
        5 => a.powf(x),
        _ => x.powf(a),
    }
}

macro_rules! apply {
    ($v:expr, $op:expr, $a:expr) => {
        match $op {
            0 => $v.ln_approx(),
            1 => $v.exp_approx(),
            2 => $v.sin_approx(),
            3 => $v.cos_approx(),
            4 => $v.log_approx($a),
            5 => $v.expf_approx($a),
            _ => $v.powf_approx($a),
        }
    };
}

/// The error the documentation allows: 1 % for logarithms, exponentials and powers, 1e-6 for sine
/// and cosine (of which one rounding error of the argument's magnitude is the number type's own).
fn allowed<T: Num>(op: usize, x: f64, want: f64) -> f64 {
    match op {
        2 | 3 => 1e-6,
        _ => 0.01 * want.abs() + 4.0 * T::EPS,
    }
}

fn base(g: &mut G) -> f64 {
    match g.below(6) {
        4 => g.float(0.1, 0.8),
        5 => g.float(1.2, 20.0),
        i => [2.0, 10.0, 3.5, 0.5][i as usize],
    }
}

fn domain(g: &mut G, op: usize) -> (f64, f64) {
    match op {
        0 | 4 => *g.pick(&[(1.0, 2.0), (1.0, 10.0), (1.0, 1000.0), (1.0, 1e8)]),
        1 => *g.pick(&[(-1.0, 1.0), (-10.0, 10.0), (0.0, 5.0)]),
        2 | 3 => *g.pick(&[(-1.0, 1.0), (-7.0, 7.0), (-100.0, 100.0), (-8000.0, 8000.0)]),
        5 => *g.pick(&[(-1.0, 1.0), (-4.0, 4.0)]),
        _ => *g.pick(&[(0.001, 0.1), (1.0, 3.0), (1.0, 10.0)]),
    }
}

fn accuracy<T: Num>(g: &mut G) -> R {
    let st = Store::draw(g);
    let op = g.below(7) as usize;
    let m = if g.thorough { 3000 } else { 300 };
    let len = g.len(0, m);
    let (lo, hi) = domain(g, op);
    let constant = g.chance(1, 4);
    let mut data: Vec<T> = data::within(g, len, lo, hi);
    if g.chance(1, 3) {
        // The ends of the range and round numbers.
        for i in 0..len {
            data[i] = T::of(match i % 3 {
                0 => lo,
                1 => hi,
                _ => data[i].v().round().max(lo).min(hi),
            });
        }
    }
    if constant && len > 0 {
        let c = data[0];
        for x in data.iter_mut() {
            *x = c;
        }
    }
    let a: T = match op {
        4 | 5 => T::of(base(g)),
        6 => T::of(match g.below(7) {
            6 => g.float(-3.0, 3.0),
            i => [2.0, 3.0, 0.5, -1.0, 1.7, 0.0][i as usize],
        }),
        _ => T::one(),
    };
    let dom = *g.pick(&[DataDomain::Time, DataDomain::Frequency]);
    g.note(|| format!("{} ({}) in {}..{}", NAMES[op], a, lo, hi));
    let delta: T = data::delta(g);
    let (out, delta2, cplx, dom2) = on_storage!(&st, &data, false, dom, 0, |v, b| {
        v.set_delta(delta);
        apply!(v, op, a);
        (v.data(..).to_vec(), v.delta(), v.is_complex(), v.domain())
    });
    ensure!(out.len() == len, "{}: length changed from {} to {}", NAMES[op], len, out.len());
    ensure!(delta2 == delta && !cplx && dom2 == dom, "{}: meta data changed", NAMES[op]);
    for i in 0..len {
        let w = exact(op, data[i].v(), a.v());
        let tol = allowed::<T>(op, data[i].v(), w);
        ensure!(near(out[i].v(), w, tol), "{} ({}) of {} at {} of {} gave {} but is {}", NAMES[op], a, data[i], i, len, out[i], w);
    }
    ok(len > 0, format!("{} {}", NAMES[op], if len < 8 { "short" } else { "long" }))
}

/// A base dependent function agrees with the scaled natural one.
fn bases<T: Num>(g: &mut G) -> R {
    let st = Store::draw(g);
    let log = g.bool();
    let m = if g.thorough { 1000 } else { 200 };
    let len = g.len(1, m);
    let (lo, hi) = if log { (1.0, 1000.0) } else { (-3.0, 3.0) };
    let data: Vec<T> = data::within(g, len, lo, hi);
    let base: T = T::of(base(g));
    let k = base.v().ln();
    g.note(|| format!("{} base {}", if log { "log" } else { "expf" }, base));
    let dom = DataDomain::Time;
    let a = on_storage!(&st, &data, false, dom, 0, |v, b| {
        if log { v.log_approx(base) } else { v.expf_approx(base) }
        v.data(..).to_vec()
    });
    let b2 = on_storage!(&st, &data, false, dom, 0, |v, b| {
        if log {
            v.ln_approx();
            v.scale(T::of(1.0 / k));
        } else {
            v.scale(T::of(k));
            v.exp_approx();
        }
        v.data(..).to_vec()
    });
    let want: Vec<f64> = b2.iter().map(|x| x.v()).collect();
    all_near("base dependent", &a, &want, 100.0 * T::EPS, 1.0)?;
    ok(true, if log { "log" } else { "expf" })
}

fn main() {
    let mut s = vec![];
    both!(&mut s, "accuracy", 60000, accuracy);
    both!(&mut s, "bases", 15000, bases);
    vharness::main(
        "C03",
        "function, documented range, base or exponent, length, storage and alignment are drawn; non-trivial: a non-empty vector",
        s,
    );
}

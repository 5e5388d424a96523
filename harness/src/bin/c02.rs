//! C02: trigonometry, powers, roots, logs and abs are element-wise.
use vharness::dsp::numbers::Float;
use vharness::dsp::*;
use vharness::*;

const NAMES: [&str; 21] = [
    "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "sqrt", "square", "root",
    "powf", "ln", "exp", "log", "expf", "abs",
];

fn real_fn<T: Num>(op: usize, x: T, a: T) -> T {
    match op {
        0 => Float::sin(x),
        1 => Float::cos(x),
        2 => Float::tan(x),
        3 => Float::asin(x),
        4 => Float::acos(x),
        5 => Float::atan(x),
        6 => Float::sinh(x),
        7 => Float::cosh(x),
        8 => Float::tanh(x),
        9 => Float::asinh(x),
        10 => Float::acosh(x),
        11 => Float::atanh(x),
        12 => Float::sqrt(x),
        13 => x * x,
        14 => Float::powf(x, T::one() / a),
        15 => Float::powf(x, a),
        16 => Float::ln(x),
        17 => Float::exp(x),
        18 => Float::log(x, a),
        19 => Float::powf(a, x),
        _ => Float::abs(x),
    }
}

fn complex_fn<T: Num>(op: usize, x: Complex<T>, a: T) -> Complex<T> {
    match op {
        0 => x.sin(),
        1 => x.cos(),
        2 => x.tan(),
        3 => x.asin(),
        4 => x.acos(),
        5 => x.atan(),
        6 => x.sinh(),
        7 => x.cosh(),
        8 => x.tanh(),
        9 => x.asinh(),
        10 => x.acosh(),
        11 => x.atanh(),
        12 => x.sqrt(),
        13 => x * x,
        14 => x.powf(T::one() / a),
        15 => x.powf(a),
        16 => x.ln(),
        17 => x.exp(),
        18 => x.log(a),
        _ => x.expf(a),
    }
}

/// The principal values by definition, as an oracle for the oracle: evaluated with f64 reals only.
fn by_definition(op: usize, x: f64, y: f64) -> Option<(f64, f64)> {
    Some(match op {
        0 => (x.sin() * y.cosh(), x.cos() * y.sinh()),
        1 => (x.cos() * y.cosh(), -x.sin() * y.sinh()),
        6 => (x.sinh() * y.cos(), x.cosh() * y.sin()),
        7 => (x.cosh() * y.cos(), x.sinh() * y.sin()),
        13 => (x * x - y * y, 2.0 * x * y),
        16 => (x.hypot(y).ln(), y.atan2(x)),
        17 => (x.exp() * y.cos(), x.exp() * y.sin()),
        _ => return None,
    })
}

fn run<T: Num>(g: &mut G) -> R {
    let st = Store::draw(g);
    let is_complex = g.bool();
    let op = g.below(if is_complex { 20 } else { 21 }) as usize;
    let m = if g.thorough { 4000 } else { 400 };
    let mut len = g.len(0, m);
    if is_complex {
        len &= !1;
    }
    let a: T = match op {
        14 => T::of(*g.pick(&[2.0, 3.0, 0.5, -2.0, 1.0, 4.5])),
        15 => T::of(*g.pick(&[2.0, 3.0, 0.5, -1.0, 1.0, 2.7, 0.0])),
        18 => T::of(*g.pick(&[2.0, 10.0, 0.5, 3.3])),
        19 => T::of(*g.pick(&[2.0, 10.0, 0.5, 1.5])),
        _ => T::zero(),
    };
    let data: Vec<T> = match g.below(3) {
        0 if !is_complex => data::draw(g, len, data::ALL),
        1 => data::within(g, len, -1.0, 1.0),
        _ => data::draw(g, len, data::TAME),
    };
    let dom = *g.pick(&[DataDomain::Time, DataDomain::Frequency]);
    let delta = T::of(g.float(0.1, 4.0));
    g.note(|| format!("{} {} ({})", if is_complex { "complex" } else { "real" }, NAMES[op], a));
    let (out, delta2, cplx, dom2) = on_storage!(&st, &data, is_complex, dom, 0, |v, b| {
        v.set_delta(delta);
        match op {
            0 => v.sin(),
            1 => v.cos(),
            2 => v.tan(),
            3 => v.asin(),
            4 => v.acos(),
            5 => v.atan(),
            6 => v.sinh(),
            7 => v.cosh(),
            8 => v.tanh(),
            9 => v.asinh(),
            10 => v.acosh(),
            11 => v.atanh(),
            12 => v.sqrt(),
            13 => v.square(),
            14 => v.root(a),
            15 => v.powf(a),
            16 => v.ln(),
            17 => v.exp(),
            18 => v.log(a),
            19 => v.expf(a),
            _ => v.abs(),
        }
        (v.data(..).to_vec(), v.delta(), v.is_complex(), v.domain())
    });
    ensure!(out.len() == len, "{}: length changed from {} to {}", NAMES[op], len, out.len());
    ensure!(delta2 == delta && cplx == is_complex && dom2 == dom, "{}: meta data changed", NAMES[op]);
    if is_complex {
        for i in 0..len / 2 {
            let x = Complex::new(data[2 * i], data[2 * i + 1]);
            let got = Complex::new(out[2 * i], out[2 * i + 1]);
            let w = complex_fn(op, x, a);
            let mag = w.re.v().hypot(w.im.v());
            let tol = if mag.is_finite() { 64.0 * T::EPS * mag } else { 0.0 };
            let same = |g: f64, w: f64| near(g, w, tol) || (!mag.is_finite() && !g.is_finite());
            ensure!(same(got.re.v(), w.re.v()) && same(got.im.v(), w.im.v()), "{} of {} gave {} but expected {}", NAMES[op], x, got, w);
            if let Some(d) = by_definition(op, x.re.v(), x.im.v()) {
                let mag = d.0.hypot(d.1) + x.re.v().hypot(x.im.v());
                let tol = 1000.0 * T::EPS * (mag + 1.0);
                if mag.is_finite() && mag < T::MAXF {
                    ensure!(near(got.re.v(), d.0, tol) && near(got.im.v(), d.1, tol), "{} of {} gave {} but is {:?}", NAMES[op], x, got, d);
                }
            }
        }
    } else {
        for i in 0..len {
            let w = real_fn(op, data[i], a).v();
            let tol = if w.is_finite() { 8.0 * T::EPS * w.abs() } else { 0.0 };
            ensure!(near(out[i].v(), w, tol), "{} ({}) of {} gave {} but expected {}", NAMES[op], a, data[i], out[i], w);
        }
    }
    ok(len > 0, format!("{} {}", if is_complex { "complex" } else { "real" }, NAMES[op]))
}

/// Functions undo their inverses, whatever the scalar oracle says.
fn inverse<T: Num>(g: &mut G) -> R {
    let st = Store::draw(g);
    let is_complex = g.bool();
    let op = g.below(10);
    let m = if g.thorough { 2000 } else { 200 };
    let mut len = g.len(1, m);
    if is_complex {
        len = (len + 1) & !1;
    }
    let (lo, hi) = match op {
        5 | 6 | 7 | 8 => (0.2, 3.0),
        3 => (0.05, 2.0),
        1 | 2 => (-0.7, 0.7),
        _ => (-0.9, 0.9),
    };
    let data: Vec<T> = data::within(g, len, lo, hi);
    let k = T::of(*g.pick(&[2.0, 3.0, 2.5, 0.5]));
    g.note(|| format!("pair {} ({}) {}", op, k, is_complex));
    let dom = DataDomain::Time;
    let out = on_storage!(&st, &data, is_complex, dom, 0, |v, b| {
        match op {
            0 => { v.asin(); v.sin() }
            1 => { v.tan(); v.atan() }
            2 => { v.sinh(); v.asinh() }
            3 => { v.cosh(); v.acosh() }
            4 => { v.atanh(); v.tanh() }
            5 => { v.sqrt(); v.square() }
            6 => { v.ln(); v.exp() }
            7 => { v.log(k); v.expf(k) }
            8 => { v.root(k); v.powf(k) }
            _ => { v.acos(); v.cos() }
        }
        v.data(..).to_vec()
    });
    let want: Vec<f64> = data.iter().map(|x| x.v()).collect();
    let rel = if T::F32 { 3e-3 } else { 1e-6 };
    all_near("round trip", &out, &want, rel, 1.0)?;
    ok(true, format!("pair {}", op))
}

fn main() {
    let mut s = vec![];
    both!(&mut s, "function", 60000, run);
    both!(&mut s, "inverse", 20000, inverse);
    vharness::main(
        "C02",
        "function, number space, storage, length, threading and arguments are drawn; non-trivial: a non-empty vector",
        s,
    );
}

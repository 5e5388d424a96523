//! C17: windows multiply every point with the window function.
use std::sync::Mutex;
use vharness::dsp::window_functions::*;
use vharness::dsp::*;
use vharness::*;

fn class(points: usize, win: &Win, what: &str) -> String {
    let w = ["rectangular", "triangular", "Hamming", "Blackman Harris", "Hamming alpha", "custom", "custom symmetric", "custom undeclared symmetric"];
    format!("{} {} {}", what, w[win.kind], match points {
        0 => "empty",
        1 => "one point",
        _ if points % 2 == 0 => "even",
        _ => "odd",
    })
}

fn store(g: &mut G) -> Store {
    let mut st = Store::draw(g);
    if g.chance(1, 4) {
        st.cores = 2 + g.below(7) as usize;
        let c = st.cores;
        g.note(|| format!("{} cores", c));
    }
    st
}

/// op 0: apply, 1: unapply, 2: both
fn window<T: Num>(g: &mut G, op: usize) -> R {
    let st = store(g);
    let m = if g.thorough { 20000 } else { 1200 };
    let cplx = g.bool();
    let n = g.len(0, m);
    let data: Vec<T> = data::draw(g, if cplx { 2 * n } else { n }, data::FINITE);
    let win = Win::draw(g);
    let typed = g.bool();
    let delta: T = data::delta(g);
    let name = ["apply", "unapply", "apply and unapply"][op];
    g.note(|| format!("{} {} points, complex: {}, typed: {}", name, n, cplx, typed));
    macro_rules! run {
        ($v:expr) => {{
            let mut v = $v;
            if op != 1 {
                win.with::<T, _>(|w| v.apply_window(w));
            }
            if op != 0 {
                win.with::<T, _>(|w| v.unapply_window(w));
            }
            (v.data(..).to_vec(), v.is_complex(), v.domain(), v.delta())
        }};
    }
    let (out, c, dom, d) = on_storage!(&st, &data, cplx, DataDomain::Time, 0, |v, _b| {
        v.set_delta(delta);
        match (typed, cplx) {
            (false, _) => run!(v),
            (true, false) => run!(RealTimeVec::<_, T>::rededicate_from_force(v)),
            (true, true) => run!(ComplexTimeVec::<_, T>::rededicate_from_force(v)),
        }
    });
    ensure!(c == cplx && dom == DataDomain::Time && d == delta, "complex: {}, {:?}, delta {}", c, dom, d);
    ensure!(out.len() == data.len(), "{} elements became {}", data.len(), out.len());
    for i in 0..out.len() {
        let p = if cplx { i / 2 } else { i };
        let f = win.value(p, n);
        let x = data[i].v();
        let (want, tol) = match op {
            0 => (x * f, 64.0 * T::EPS * x.abs()),
            1 => (x / f, 64.0 * T::EPS * (x / f).abs() * (1.0 + 1.0 / f.abs())),
            _ => (x, 128.0 * T::EPS * x.abs() * (1.0 + 1.0 / f.abs())),
        };
        ensure!(
            near(out[i].v(), want, tol),
            "{}: element {} (point {} of {}) {} became {} but expected {}", name, i, p, n, x, out[i].v(), want
        );
    }
    ok(n > 0, class(n, &win, name))
}

fn apply<T: Num>(g: &mut G) -> R {
    window::<T>(g, 0)
}

fn unapply<T: Num>(g: &mut G) -> R {
    window::<T>(g, 1)
}

fn both_ways<T: Num>(g: &mut G) -> R {
    window::<T>(g, 2)
}

/// The coefficients of the built-in windows.
fn coefficients<T: Num>(g: &mut G) -> R {
    let win = Win { kind: g.below(5) as usize, par: g.float(0.5, 1.0) };
    let n = g.len(1, 100000);
    let i = g.below(n as u64) as usize;
    g.note(|| format!("{:?} at {} of {}", win, i, n));
    let (sym, a, b) = win.with::<T, _>(|w| (w.is_symmetric(), w.window(i, n), w.window(n - 1 - i, n)));
    ensure!(sym, "{:?} says it isn't symmetric", win);
    let tol = 48.0 * T::EPS;
    ensure!(near(a.v(), win.value(i, n), tol), "{:?}: {} of {} is {} but expected {}", win, i, n, a, win.value(i, n));
    ensure!(near(a.v(), b.v(), 2.0 * tol), "{:?}: {} of {} is {} but the opposite {}", win, i, n, a, b);
    ok(n > 1, class(n, &win, "value of"))
}

struct Recorder {
    symmetric: bool,
    calls: Mutex<Vec<(usize, usize)>>,
}

impl<T: Num> WindowFunction<T> for Recorder {
    fn is_symmetric(&self) -> bool {
        self.symmetric
    }

    fn window(&self, n: usize, length: usize) -> T {
        self.calls.lock().unwrap().push((n, length));
        let d = 2 * n as i64 - (length as i64 - 1);
        T::of(if self.symmetric { 1.0 + (d * d % 1021) as f64 } else { 1.0 + (n % 1021) as f64 })
    }
}

/// A user supplied window is asked for points within the vector only, for every point it needs.
fn asked<T: Num>(g: &mut G) -> R {
    let st = store(g);
    let cplx = g.bool();
    let n = g.len(0, 300);
    let sym = g.bool();
    let inverse = g.bool();
    let data: Vec<T> = data::draw(g, if cplx { 2 * n } else { n }, &[Kind::SmallInts]);
    g.note(|| format!("{} points, complex: {}, symmetric: {}, inverse: {}", n, cplx, sym, inverse));
    let rec = Recorder { symmetric: sym, calls: Mutex::new(vec![]) };
    let out = on_storage!(&st, &data, cplx, DataDomain::Time, 0, |v, _b| {
        if inverse {
            v.unapply_window(&rec);
        } else {
            v.apply_window(&rec);
        }
        v.data(..).to_vec()
    });
    let calls = rec.calls.into_inner().unwrap();
    let mut seen = vec![false; n];
    for (i, l) in calls {
        ensure!(l == n && i < n, "asked for point {} of {} in a vector of {} points", i, l, n);
        seen[i] = true;
    }
    for i in 0..n {
        ensure!(seen[i] || (sym && seen[n - 1 - i]), "never asked for point {} of {}", i, n);
        let d = 2 * i as i64 - (n as i64 - 1);
        let f = if sym { 1.0 + (d * d % 1021) as f64 } else { 1.0 + (i % 1021) as f64 };
        let f = if inverse { 1.0 / f } else { f };
        let s = if cplx { 2 } else { 1 };
        for k in 0..s {
            let (x, y) = (data[s * i + k].v(), out[s * i + k].v());
            ensure!(near(y, x * f, 4.0 * T::EPS * (x * f).abs()), "point {} of {}: {} became {} but expected {}", i, n, x, y, x * f);
        }
    }
    ok(n > 0, if sym { "recorded symmetric" } else { "recorded" })
}

fn main() {
    let mut s = vec![];
    both!(&mut s, "apply", 6000, apply);
    both!(&mut s, "unapply", 6000, unapply);
    both!(&mut s, "apply_unapply", 4000, both_ways);
    both!(&mut s, "coefficients", 20000, coefficients);
    both!(&mut s, "asked", 3000, asked);
    vharness::main(
        "C17",
        "window, number space, number of points, contents, storage and number of cores are drawn; non-trivial: the vector isn't empty",
        s,
    );
}

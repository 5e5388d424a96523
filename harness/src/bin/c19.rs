//! C19: correlation equals the cross correlation by definition.
use vharness::dft::{add, mul, C};
use vharness::dsp::*;
use vharness::*;

fn points<T: Num>(data: &[T]) -> Vec<C> {
    data.chunks(2).map(|c| (c[0].v(), c[1].v())).collect()
}

/// Zero padding around.
fn pad(x: &[C], n: usize) -> Vec<C> {
    let left = (n - x.len() + 1) / 2;
    let mut v = vec![(0.0, 0.0); n];
    v[left..left + x.len()].copy_from_slice(x);
    v
}

fn size(g: &mut G) -> usize {
    match g.weighted(&[6, 3, 1]) {
        0 => g.range(0, 16),
        1 => g.range(0, 70),
        _ => g.range(0, if g.thorough { 700 } else { 250 }),
    }
}

struct Drawn<T> {
    st: Store,
    x: Vec<T>,
    y: Vec<T>,
    padded: bool,
    typed: bool,
    delta: T,
}

fn draw<T: Num>(g: &mut G, same: bool) -> Drawn<T> {
    let mut st = Store::draw(g);
    st.bufmul = 24;
    let m = size(g);
    let padded = g.bool();
    let p = if padded { (2 * m).max(1) - 1 } else { m };
    let n = match g.below(6) {
        _ if same => m,
        0 => g.range(0, p + 3),
        1 => p,
        _ => m,
    };
    let y: Vec<T> = data::draw(g, 2 * m, data::TAME);
    let x: Vec<T> = if same { y.clone() } else { data::draw(g, 2 * n, data::TAME) };
    let typed = g.bool();
    let delta: T = data::delta(g);
    g.note(|| format!("{} points with {} points, padded: {}, typed: {}", n, m, padded, typed));
    Drawn { st, x, y, padded, typed, delta }
}

type Seen<T> = (Vec<T>, bool, DataDomain, T, VoidResult);

fn run<T: Num>(d: &Drawn<T>) -> Result<Seen<T>, Fail> {
    let p = if d.padded { 2 * d.y.len() } else { d.y.len() };
    macro_rules! seen {
        ($v:expr, $r:expr) => {{
            let r = $r;
            ($v.data(..).to_vec(), $v.is_complex(), $v.domain(), $v.delta(), r)
        }};
    }
    let arg: Result<Vec<T>, Fail> = (|| {
        Ok(on_storage!(&d.st, &d.y, true, DataDomain::Time, p + 4, |v, b| {
            v.set_delta(d.delta);
            if d.typed {
                let v = ComplexTimeVec::<_, T>::rededicate_from_force(v);
                if d.padded {
                    v.prepare_argument_padded(&mut b).data(..).to_vec()
                } else {
                    v.prepare_argument(&mut b).data(..).to_vec()
                }
            } else {
                let a = if d.padded { v.prepare_argument_padded(&mut b) } else { v.prepare_argument(&mut b) };
                ensure!(a.is_complex() && a.domain() == DataDomain::Frequency, "the argument isn't a spectrum");
                a.data(..).to_vec()
            }
        }))
    })();
    let mut arg = arg?;
    let s = on_storage!(&d.st, &d.x, true, DataDomain::Time, p + 4, |v, b| {
        v.set_delta(d.delta);
        if d.typed {
            let mut v = ComplexTimeVec::<_, T>::rededicate_from_force(v);
            let a = (&mut arg[..]).to_complex_freq_vec();
            let r = v.correlate(&mut b, &a);
            seen!(v, r)
        } else {
            let a = (&mut arg[..]).to_gen_dsp_vec(true, DataDomain::Frequency);
            let r = v.correlate(&mut b, &a);
            seen!(v, r)
        }
    });
    Ok(s)
}

fn cross<T: Num>(g: &mut G) -> R {
    let d: Drawn<T> = draw(g, false);
    let (n, m) = (d.x.len() / 2, d.y.len() / 2);
    let p = if d.padded { (2 * m).max(1) - 1 } else { m };
    let s = run(&d)?;
    if p < n {
        ensure!(s.4.is_err(), "an argument which is too short wasn't refused");
        return ok(true, "refused");
    }
    ensure!(s.4.is_ok(), "correlate gave {:?}", s.4);
    ensure!(s.1 && s.2 == DataDomain::Time, "complex: {}, {:?} after correlate", s.1, s.2);
    ensure!(s.3 == d.delta, "the sample spacing is {} after correlate but was {}", s.3, d.delta);
    ensure!(s.0.len() == 2 * p, "{} elements after correlate instead of {}", s.0.len(), 2 * p);
    let x = pad(&points(&d.x), p);
    let y = pad(&points(&d.y), p);
    let norm = |v: &Vec<C>| v.iter().map(|c| c.0 * c.0 + c.1 * c.1).sum::<f64>().sqrt();
    let tol = T::EPS * 64.0 * norm(&x) * norm(&y) * ((p.max(1) as f64).log2() + 2.0);
    for l in 0..p {
        let mut w = (0.0, 0.0);
        for i in 0..p {
            let c = y[i];
            w = add(w, mul(x[(i + l) % p], (c.0, -c.1)));
        }
        let at = (l + p / 2) % p;
        let got = (s.0[2 * at].v(), s.0[2 * at + 1].v());
        ensure!(
            near(got.0, w.0, tol) && near(got.1, w.1, tol),
            "lag {} (position {} of {}) is {:?} but expected {:?} (tolerance {:e})", l, at, p, got, w, tol
        );
    }
    ok(n > 0 && m > 0, format!("{} {}", if d.padded { "padded" } else { "circular" }, if n == m { "same size" } else { "different size" }))
}

/// The auto correlation is largest at zero lag, equals the energy there and is conjugate symmetric.
fn auto<T: Num>(g: &mut G) -> R {
    let d: Drawn<T> = draw(g, true);
    let s = run(&d)?;
    ensure!(s.4.is_ok(), "correlate gave {:?}", s.4);
    let out = points(&s.0);
    let p = out.len();
    if p == 0 {
        return ok(false, "empty");
    }
    let c = p / 2;
    let energy: f64 = points(&d.y).iter().map(|v| v.0 * v.0 + v.1 * v.1).sum();
    let tol = T::EPS * 64.0 * energy * ((p as f64).log2() + 2.0);
    ensure!(near(out[c].0, energy, tol) && near(out[c].1, 0.0, tol), "zero lag is {:?} but the energy is {}", out[c], energy);
    for k in 1..p {
        let (a, b) = (out[(c + k) % p], out[(c + p - k) % p]);
        ensure!(a.0.hypot(a.1) <= energy + 2.0 * tol, "lag {} is {:?}, larger than the zero lag {}", k, a, energy);
        ensure!(near(a.0, b.0, 2.0 * tol) && near(a.1, -b.1, 2.0 * tol), "lags {} and -{} are {:?} and {:?}", k, k, a, b);
    }
    ok(p > 1, if d.padded { "auto padded" } else { "auto circular" })
}

fn main() {
    let mut s = vec![];
    both!(&mut s, "cross", 6000, cross);
    both!(&mut s, "auto", 4000, auto);
    vharness::main(
        "C19",
        "both signals, their numbers of points, padding, storage, buffer and typed or run-time typed vectors are drawn; non-trivial: both signals have points (auto correlation: at least two lags), or a refusal",
        s,
    );
}

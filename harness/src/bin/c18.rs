//! C18: convolution equals circular convolution by definition.
use vharness::dft::{add, mul, C};
use vharness::dsp::conv_types::*;
use vharness::dsp::*;
use vharness::*;

fn points<T: Num>(data: &[T], cplx: bool) -> Vec<C> {
    if cplx {
        data.chunks(2).map(|c| (c[0].v(), c[1].v())).collect()
    } else {
        data.iter().map(|x| (x.v(), 0.0)).collect()
    }
}

fn abs(x: C) -> f64 {
    x.0.abs() + x.1.abs()
}

/// The points which are judged: all of them, or the edges and a sample.
fn some(n: usize, edge: usize) -> Vec<usize> {
    if n <= 300 {
        return (0..n).collect();
    }
    let e = edge.min(n / 2);
    let mut r = vharness::g::Rng::new(n as u64 * 31 + edge as u64);
    let mut v: Vec<usize> = (0..e).collect();
    v.extend(n - e..n);
    v.extend((0..60).map(|_| r.below(n as u64) as usize));
    v
}

fn judge<T: Num>(out: &[T], n: usize, cplx: bool, which: &[usize], eps: f64, f: impl Fn(usize) -> (C, f64)) -> Result<(), String> {
    let len = if cplx { 2 * n } else { n };
    if out.len() != len {
        return Err(format!("{} elements but expected {}", out.len(), len));
    }
    for &i in which {
        let (w, mag) = f(i);
        let tol = eps * mag;
        let got = if cplx { (out[2 * i].v(), out[2 * i + 1].v()) } else { (out[i].v(), 0.0) };
        if !near(got.0, w.0, tol) || !near(got.1, w.1, tol) {
            return Err(format!("point {} of {} is {:?} but expected {:?} (tolerance {:e})", i, n, got, w, tol));
        }
    }
    Ok(())
}

/// The storage of arguments.
#[cfg(feature = "std")]
type Owned<T> = Vec<T>;
#[cfg(not(feature = "std"))]
type Owned<T> = Array<T, 2048>;

fn signal_case<T: Num>(g: &mut G, st: &Store, cplx: bool, n: usize, m: usize, what: &str) -> R {
    let s = if cplx { 2 } else { 1 };
    let data: Vec<T> = data::draw(g, s * n, data::TAME);
    let imp: Vec<T> = data::draw(g, s * m, data::TAME);
    let typed = g.bool();
    let delta: T = data::delta(g);
    // The meta data of the argument: agrees, another sample spacing, another number space, another domain.
    let agree = if g.chance(1, 12) { 1 + g.below(3) as usize } else { 0 };
    let agree = if typed { 0 } else { agree };
    let delta2 = if agree == 1 { delta * T::of(1.5) } else { delta * T::of(g.float(0.95, 1.05)) };
    g.note(|| format!("{} points with {} points, complex: {}, typed: {}, agree: {}", n, m, cplx, typed, agree));
    macro_rules! seen {
        ($v:expr, $r:expr) => {{
            let r = $r;
            ($v.data(..).to_vec(), $v.is_complex(), $v.domain(), $v.delta(), r)
        }};
    }
    let argdata = st.storage(&imp);
    let (out, c, dom, d, r) = on_owned!(st, &data, cplx, DataDomain::Time, 16384, |v, b| {
        v.set_delta(delta);
        let _offset = vharness::alloc::Offset::new((st.off2 + 3) * std::mem::size_of::<T>());
        let ac = if agree == 2 { !cplx } else { cplx };
        let ad = if agree == 3 { DataDomain::Frequency } else { DataDomain::Time };
        let content: Owned<T> = argdata.iter().cloned().collect();
        let mut a = content.to_gen_dsp_vec(ac, ad);
        a.resize(s * m - if ac && (s * m) % 2 == 1 { 1 } else { 0 }).unwrap();
        a.set_delta(delta2);
        if !typed {
            let r = v.convolve_signal(&mut b, &a);
            seen!(v, r)
        } else if cplx {
            let mut v = ComplexTimeVec::<_, T>::rededicate_from_force(v);
            let a = ComplexTimeVec::<_, T>::rededicate_from_force(a);
            let r = v.convolve_signal(&mut b, &a);
            seen!(v, r)
        } else {
            let mut v = RealTimeVec::<_, T>::rededicate_from_force(v);
            let a = RealTimeVec::<_, T>::rededicate_from_force(a);
            let r = v.convolve_signal(&mut b, &a);
            seen!(v, r)
        }
    });
    if agree != 0 || m > n {
        let want = if agree != 0 { ErrorReason::InputMetaDataMustAgree } else { ErrorReason::InvalidArgumentLength };
        ensure!(r == Err(want), "convolve_signal gave {:?} instead of {:?}", r, want);
        ensure!(c == cplx && dom == DataDomain::Time && d == delta, "meta data changed by a refused operation");
        all_same("refused", &out, &data)?;
        return ok(true, "refused");
    }
    ensure!(r.is_ok(), "convolve_signal gave {:?}", r);
    ensure!(c == cplx && dom == DataDomain::Time && d == delta, "meta data changed");
    let (x, h) = (points(&data, cplx), points(&imp, cplx));
    let center = (m + 1) / 2;
    let fft = what == "overlap";
    let norm = if fft { x.iter().map(|v| abs(*v)).fold(0.0, f64::max) * h.iter().map(|v| abs(*v)).sum::<f64>() } else { 0.0 };
    let eps = T::EPS * if fft { 200.0 } else { 4.0 + m as f64 };
    judge(&out, n, cplx, &some(n, m + 4), eps, |i| {
        let (mut y, mut mag) = ((0.0, 0.0), norm);
        for k in 0..m {
            let p = (i + center + n - 1 - k) % n;
            y = add(y, mul(h[k], x[p]));
            mag += abs(h[k]) * abs(x[p]);
        }
        (y, mag)
    })?;
    ok(n > 0 && m > 0, format!("{} {}", what, if cplx { "complex" } else { "real" }))
}

fn short_signal<T: Num>(g: &mut G) -> R {
    let st = Store::draw(g);
    let cplx = g.bool();
    let n = g.len(0, 200);
    let m = match g.below(6) {
        0 => g.range(0, n + 3),
        1 => n,
        _ => g.range(0, n),
    };
    signal_case::<T>(g, &st, cplx, n, m, "short")
}

/// Long vectors and short responses are convolved with registers.
fn long_signal<T: Num>(g: &mut G) -> R {
    let st = Store::draw(g);
    let cplx = g.bool();
    let s = if cplx { 2 } else { 1 };
    let n = g.range(980, if g.thorough { 6000 } else { 1700 }) / s;
    let m = g.range(4, 216) / s;
    signal_case::<T>(g, &st, cplx, n, m, "long")
}

/// Very long complex vectors are convolved in blocks in frequency domain.
fn overlap<T: Num>(g: &mut G) -> R {
    let mut st = Store::draw(g);
    st.bufmul = 3;
    let top = if g.thorough { 40000 } else { 9000 };
    let n = g.range(4980, if cfg!(feature = "std") { top } else { 8000 });
    let m = match g.below(3) {
        0 => g.range(100, 130),
        1 => g.range(100, n / 10 + 2),
        _ => g.range(n / 40, n / 10),
    };
    signal_case::<T>(g, &st, true, n, m, "overlap")
}

/// A smooth impulse response, symmetric or not.
#[derive(Clone, Copy, Debug)]
struct Resp {
    sym: bool,
    a: f64,
    b: f64,
}

impl Resp {
    fn value(&self, x: f64) -> C {
        let e = (-x * x * 0.02 * self.a).exp();
        if self.sym {
            (e * (self.b * x).cos(), e * 0.5)
        } else {
            (e * (self.b * x + 1.0).cos(), e * (x * 0.3 + self.b).sin())
        }
    }
}

impl<T: Num> RealImpulseResponse<T> for Resp {
    fn is_symmetric(&self) -> bool {
        self.sym
    }
    fn calc(&self, x: T) -> T {
        T::of(self.value(x.v()).0)
    }
}

impl<T: Num> ComplexImpulseResponse<T> for Resp {
    fn is_symmetric(&self) -> bool {
        self.sym
    }
    fn calc(&self, x: T) -> Complex<T> {
        let v = self.value(x.v());
        Complex::new(T::of(v.0), T::of(v.1))
    }
}

fn function<T: Num>(g: &mut G) -> R {
    let st = Store::draw(g);
    let cplx = g.bool();
    let long = g.chance(1, 4);
    let s = if cplx { 2 } else { 1 };
    let n = if long { g.range(1990, if g.thorough { 6000 } else { 2600 }) / s } else { g.len(0, 120) };
    let cfun = cplx && g.bool();
    let ratio: T = T::of(match g.below(4) {
        0 | 1 => 1.0,
        2 => *g.pick(&[0.5, 2.0, 0.25, 3.0, 1.5, 0.51, 0.75]),
        _ => g.float(0.05, 5.0),
    });
    let l = if long { g.range(0, 230) } else { g.range(0, n + 4) };
    let f = Resp { sym: g.bool(), a: g.float(0.0, 2.0), b: g.float(-1.0, 1.0) };
    let typed = g.bool();
    let delta: T = data::delta(g);
    let data: Vec<T> = data::draw(g, s * n, data::TAME);
    g.note(|| format!("{} points, complex: {}, {:?} complex: {}, ratio {}, len {}, typed: {}", n, cplx, f, cfun, ratio, l, typed));
    macro_rules! run {
        ($v:expr, $b:expr, $f:expr) => {{
            let mut v = $v;
            v.convolve(&mut $b, $f, ratio, l);
            (v.data(..).to_vec(), v.is_complex(), v.domain(), v.delta())
        }};
    }
    let rf: &dyn RealImpulseResponse<T> = &f;
    let cf: &dyn ComplexImpulseResponse<T> = &f;
    let (out, c, dom, d) = on_owned!(&st, &data, cplx, DataDomain::Time, 16384, |v, b| {
        v.set_delta(delta);
        match (typed, cplx, cfun) {
            (false, _, false) => run!(v, b, rf),
            (false, _, true) => run!(v, b, cf),
            (true, false, _) => run!(RealTimeVec::<_, T>::rededicate_from_force(v), b, rf),
            (true, true, false) => run!(ComplexTimeVec::<_, T>::rededicate_from_force(v), b, rf),
            (true, true, true) => run!(ComplexTimeVec::<_, T>::rededicate_from_force(v), b, cf),
        }
    });
    ensure!(c == cplx && dom == DataDomain::Time && d == delta, "meta data changed");
    let x = points(&data, cplx);
    let l = l.min(n) as i64;
    let h: Vec<C> = (-l..=l)
        .map(|j| {
            let v = f.value((T::of(-j as f64) * ratio).v());
            if cfun { v } else { (v.0, 0.0) }
        })
        .collect();
    judge(&out, n, cplx, &some(n, l as usize + 4), T::EPS * (8.0 + 2.0 * l as f64), |i| {
        let (mut y, mut mag) = ((0.0, 0.0), 0.0);
        for j in -l..=l {
            let p = (i as i64 + j).rem_euclid(n as i64) as usize;
            let c = h[(j + l) as usize];
            y = add(y, mul(c, x[p]));
            mag += (abs(c) + 1.0) * abs(x[p]);
        }
        (y, mag)
    })?;
    let k = if long { "long" } else { "short" };
    ok(n > 0, format!("{} {} function on {}", k, if cfun { "complex" } else { "real" }, if cplx { "complex" } else { "real" }))
}

fn main() {
    let mut s = vec![];
    both!(&mut s, "short_signal", 8000, short_signal);
    both!(&mut s, "long_signal", 700, long_signal);
    both!(&mut s, "overlap", 60, overlap);
    both!(&mut s, "function", 2500, function);
    vharness::main(
        "C18",
        "vector and impulse response (sampled or a function), their number spaces, lengths, meta data, contents, ratio, storage and number of cores are drawn; non-trivial: vector and response aren't empty, or a refusal",
        s,
    );
}

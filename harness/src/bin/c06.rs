//! C06: conversions between real and complex preserve every point.
use vharness::dsp::*;
use vharness::*;

const PARTS: [&str; 5] = ["real", "imag", "magnitude", "magnitude_squared", "phase"];

fn part<T: Num>(op: usize, re: T, im: T) -> f64 {
    let (re, im) = (re.v(), im.v());
    match op {
        0 => re,
        1 => im,
        2 => re.hypot(im),
        3 => re * re + im * im,
        _ => im.atan2(re),
    }
}

fn check_part<T: Num>(op: usize, data: &[T], out: &[T]) -> Result<(), String> {
    let want: Vec<f64> = data.chunks(2).map(|c| part(op, c[0], c[1])).collect();
    all_near(PARTS[op], out, &want, if op < 2 { 0.0 } else { 8.0 * T::EPS }, 0.0)
}

fn class(points: usize, what: &str) -> String {
    format!("{} {}", what, match points {
        0 => "empty",
        1..=4 => "1 to 4 points",
        5..=40 => "short",
        _ => "long",
    })
}

fn drawn<T: Num>(g: &mut G, unit: usize) -> (Store, Vec<T>, DataDomain) {
    let st = Store::draw(g);
    let m = if g.thorough { 5000 } else { 600 };
    let n = g.len(0, m);
    let data: Vec<T> = data::draw(g, n * unit, data::FINITE);
    let dom = *g.pick(&[DataDomain::Time, DataDomain::Frequency]);
    (st, data, dom)
}

/// Points of any magnitude, as long as the squares stay in range where the operation squares.
/// (Magnitudes do, in registers and without.)
fn extremes<T: Num>(g: &mut G, op: usize, data: &mut [T]) {
    let squares = op == 2 || op == 3;
    let top = T::MAXF.log10() - 1.0;
    let top = if squares { top / 2.0 } else { top };
    let factor = 10f64.powf(g.float(-top, top));
    // The parts of the values are neither zero nor subnormal after scaling.
    for c in data.chunks_mut(2) {
        if c[0].v().abs().max(c[1].v().abs()) >= 1e-2 {
            let m = c[0].v().hypot(c[1].v());
            for x in c.iter_mut() {
                let y = x.v() / m;
                *x = T::of(if y.abs() < 1e-2 { 0.0 } else { y * factor });
            }
        }
    }
    g.note(|| format!("scaled to {:e}: {:?}", factor, &data[..data.len().min(6)]));
}

/// Operations which turn the vector itself real.
fn transform<T: Num>(g: &mut G) -> R {
    let (st, mut data, dom) = drawn::<T>(g, 2);
    let op = g.below(5) as usize;
    if g.chance(1, 4) {
        extremes(g, op, &mut data);
    }
    let buffered = g.bool();
    g.note(|| format!("{} buffered: {}", PARTS[op], buffered));
    let delta: T = data::delta(g);
    let (out, cplx, dom2, delta2) = on_storage!(&st, &data, true, dom, 0, |v, b| {
        v.set_delta(delta);
        let r = match (op, buffered) {
            (0, false) => v.to_real(),
            (1, false) => v.to_imag(),
            (2, false) => v.magnitude(),
            (3, false) => v.magnitude_squared(),
            (4, false) => v.phase(),
            (0, _) => v.to_real_b(&mut b),
            (1, _) => v.to_imag_b(&mut b),
            (2, _) => v.magnitude_b(&mut b),
            (3, _) => v.magnitude_squared_b(&mut b),
            (_, _) => v.phase_b(&mut b),
        };
        (r.data(..).to_vec(), r.is_complex(), r.domain(), r.delta())
    });
    ensure!(!cplx && dom2 == dom && delta2 == delta, "meta data: complex {} domain {:?} delta {}", cplx, dom2, delta2);
    check_part(op, &data, &out)?;
    ok(!data.is_empty(), class(data.len() / 2, PARTS[op]))
}

/// Getters leave the vector as it is and overwrite the destination.
fn getter<T: Num>(g: &mut G) -> R {
    let (st, mut data, dom) = drawn::<T>(g, 2);
    let n = data.len() / 2;
    let op = g.below(7) as usize;
    if g.chance(1, 4) {
        extremes(g, op, &mut data);
    }
    let spare = g.below(4) as usize * g.below(20) as usize;
    let old = if spare > 0 { g.below(n as u64 + spare as u64) as usize } else { n };
    let off = g.below(16) as usize;
    let delta: T = data::delta(g);
    g.note(|| format!("getter {} into {} of {} elements", op, old, n + spare));
    let junk = vec![T::of(-77.5); n + spare];
    let mut d1 = Guarded::new(&junk, off);
    let mut d2 = Guarded::new(&junk, st.off2);
    let (o1, o2, delta1, delta2, source) = {
        let mut t1 = d1.slice().to_gen_dsp_vec(false, dom);
        let mut t2 = d2.slice().to_gen_dsp_vec(false, dom);
        t1.set_delta(data::delta(g));
        t2.set_delta(data::delta(g));
        t1.resize(old).unwrap();
        t2.resize(old).unwrap();
        let source = on_storage!(&st, &data, true, dom, 0, |v, b| {
            v.set_delta(delta);
            match op {
                0 => v.get_real(&mut t1),
                1 => v.get_imag(&mut t1),
                2 => v.get_magnitude(&mut t1),
                3 => v.get_magnitude_squared(&mut t1),
                4 => v.get_phase(&mut t1),
                5 => v.get_real_imag(&mut t1, &mut t2),
                _ => v.get_mag_phase(&mut t1, &mut t2),
            }
            v.data(..).to_vec()
        });
        (t1.data(..).to_vec(), t2.data(..).to_vec(), t1.delta(), t2.delta(), source)
    };
    d1.check()?;
    d2.check()?;
    all_same("source", &source, &data)?;
    ensure!(delta1 == delta, "delta of the target is {}", delta1);
    match op {
        5 => {
            check_part(0, &data, &o1)?;
            check_part(1, &data, &o2)?;
            ensure!(delta2 == delta, "delta of the second target is {}", delta2);
        }
        6 => {
            check_part(2, &data, &o1)?;
            check_part(4, &data, &o2)?;
            ensure!(delta2 == delta, "delta of the second target is {}", delta2);
        }
        _ => check_part(op, &data, &o1)?,
    }
    ok(n > 0, class(n, &format!("get {}", op)))
}

/// Complex from real vectors.
fn to_complex<T: Num>(g: &mut G) -> R {
    let (st, data, dom) = drawn::<T>(g, 1);
    let buffered = g.bool();
    let back = g.bool();
    let delta: T = data::delta(g);
    g.note(|| format!("to_complex buffered: {}, and back: {}", buffered, back));
    let (out, cplx, dom2, delta2) = on_storage!(&st, &data, false, dom, data.len(), |v, b| {
        v.set_delta(delta);
        let r = if buffered {
            v.to_complex_b(&mut b)
        } else {
            match v.to_complex() {
                Ok(r) => r,
                Err((e, _)) => fail!("to_complex failed with {:?}", e),
            }
        };
        let r = if back { r.to_real() } else { r };
        (r.data(..).to_vec(), r.is_complex(), r.domain(), r.delta())
    });
    ensure!(cplx == !back && dom2 == dom && delta2 == delta, "meta data: complex {} domain {:?} delta {}", cplx, dom2, delta2);
    if back {
        all_same("real and back", &out, &data)?;
    } else {
        let want: Vec<T> = data.iter().flat_map(|x| vec![*x, T::zero()]).collect();
        all_same("complex", &out, &want)?;
    }
    ok(!data.is_empty(), class(data.len(), "to_complex"))
}

/// Setting the parts.
#[cfg(feature = "std")]
fn setter<T: Num>(g: &mut G) -> R {
    let m = if g.thorough { 3000 } else { 300 };
    let n = g.len(0, m);
    let polar = g.bool();
    let mismatch = if g.chance(1, 10) { g.range(1, 3) } else { 0 };
    let a: Vec<T> = if polar { data::within(g, n, 0.1, 20.0) } else { data::draw(g, n, data::ALL) };
    let b: Vec<T> = if polar { data::within(g, n + mismatch, -3.1, 3.1) } else { data::draw(g, n + mismatch, data::ALL) };
    let old = g.below(30) as usize * 2;
    let kind = g.below(3);
    let (off, off2) = (g.below(16) as usize, g.below(16) as usize);
    let mut sa = a.clone();
    sa.push(T::of(5.0));
    let mut ga = Guarded::new(&sa, off);
    let mut gb = Guarded::new(&b, off2);
    g.note(|| format!("set {} kind {}", if polar { "mag_phase" } else { "real_imag" }, kind));
    let junk = vec![T::of(-5.5); old];
    macro_rules! run {
        ($v:expr, $a:expr, $b:expr) => {{
            let mut v = $v;
            let r = if polar { v.set_mag_phase(&$a, &$b) } else { v.set_real_imag(&$a, &$b) };
            (r, v)
        }};
    }
    let (r, out, parts) = match kind {
        0 => {
            let mut va = ga.slice().to_real_time_vec();
            va.resize(n).unwrap();
            let vb = gb.slice().to_real_time_vec();
            let (r, v) = run!(junk.to_complex_time_vec(), va, vb);
            let mut p = Vec::new().to_real_time_vec();
            let mut q = Vec::new().to_real_time_vec();
            if polar { v.get_mag_phase(&mut p, &mut q) } else { v.get_real_imag(&mut p, &mut q) }
            (r, v.data(..).to_vec(), (p.data(..).to_vec(), q.data(..).to_vec()))
        }
        1 => {
            let mut va = ga.slice().to_real_freq_vec();
            va.resize(n).unwrap();
            let vb = gb.slice().to_real_freq_vec();
            let (r, v) = run!(junk.to_complex_freq_vec(), va, vb);
            let mut p = Vec::new().to_real_freq_vec();
            let mut q = Vec::new().to_real_freq_vec();
            if polar { v.get_mag_phase(&mut p, &mut q) } else { v.get_real_imag(&mut p, &mut q) }
            (r, v.data(..).to_vec(), (p.data(..).to_vec(), q.data(..).to_vec()))
        }
        _ => {
            let mut va = ga.slice().to_gen_dsp_vec(false, DataDomain::Time);
            va.resize(n).unwrap();
            let vb = gb.slice().to_gen_dsp_vec(false, DataDomain::Time);
            let (r, v) = run!(junk.to_gen_dsp_vec(true, DataDomain::Time), va, vb);
            let mut p = Vec::new().to_gen_dsp_vec(false, DataDomain::Time);
            let mut q = Vec::new().to_gen_dsp_vec(false, DataDomain::Time);
            if polar { v.get_mag_phase(&mut p, &mut q) } else { v.get_real_imag(&mut p, &mut q) }
            (r, v.data(..).to_vec(), (p.data(..).to_vec(), q.data(..).to_vec()))
        }
    };
    if mismatch > 0 {
        ensure!(r == Err(ErrorReason::InvalidArgumentLength), "parts of {} and {} elements gave {:?}", n, n + mismatch, r);
        all_same("vector after a refusal", &out, &vec![T::of(-5.5); old])?;
        return ok(true, "refused");
    }
    ensure!(r.is_ok(), "setting {} points failed with {:?}", n, r);
    let mut want = vec![];
    for i in 0..n {
        let (x, y) = (a[i].v(), b[i].v());
        if polar {
            want.push(x * y.cos());
            want.push(x * y.sin());
        } else {
            want.push(x);
            want.push(y);
        }
    }
    all_near("complex", &out, &want, if polar { 8.0 * T::EPS } else { 0.0 }, if polar { 20.0 } else { 0.0 })?;
    let wa: Vec<f64> = a.iter().map(|x| x.v()).collect();
    let wb: Vec<f64> = b.iter().map(|x| x.v()).collect();
    all_near("first part", &parts.0, &wa, if polar { 16.0 * T::EPS } else { 0.0 }, if polar { 1.0 } else { 0.0 })?;
    all_near("second part", &parts.1, &wb, if polar { 64.0 * T::EPS } else { 0.0 }, if polar { 1.0 } else { 0.0 })?;
    ok(n > 0, class(n, if polar { "set mag phase" } else { "set real imag" }))
}

fn main() {
    let mut s = vec![];
    both!(&mut s, "transform", 50000, transform);
    both!(&mut s, "getter", 50000, getter);
    both!(&mut s, "to_complex", 25000, to_complex);
    #[cfg(feature = "std")]
    {
        both!(&mut s, "setter", 25000, setter);
    }
    vharness::main(
        "C06",
        "operation, contents, size, storage, destination size and alignment are drawn; non-trivial: at least one point or a refusal",
        s,
    );
}

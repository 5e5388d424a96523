//! C01: elementary arithmetic equals element-wise scalar arithmetic.
use vharness::dsp::*;
use vharness::*;

fn cplx<T: Num>(a: Complex<T>) -> (f64, f64) {
    (a.re.v(), a.im.v())
}

fn cmul(a: (f64, f64), b: (f64, f64)) -> (f64, f64) {
    (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0)
}

fn cdiv(a: (f64, f64), b: (f64, f64)) -> (f64, f64) {
    let n = b.0 * b.0 + b.1 * b.1;
    ((a.0 * b.0 + a.1 * b.1) / n, (a.1 * b.0 - a.0 * b.1) / n)
}

fn drawn_scalar<T: Num>(g: &mut G) -> T {
    T::of(match g.below(7) {
        0 => 1.0,
        1 => 0.0,
        2 => -1.0,
        3 => g.irange(-20, 20) as f64,
        4 => *g.pick(&[-0.0, 0.5, 2.0, 1e-20, 1e15, -1e-6]),
        _ => g.float(-100.0, 100.0),
    })
}

fn maxlen(g: &G) -> usize {
    if g.thorough {
        20000
    } else {
        3000
    }
}

fn class(len: usize, is_complex: bool, st: &Store) -> String {
    format!(
        "{} {} {}",
        if is_complex { "complex" } else { "real" },
        if st.kind == 0 { "vec" } else if st.off % 4 == 0 { "slice aligned" } else { "slice unaligned" },
        if len == 0 { "empty" } else if len < 4 { "below one register" } else if len < 40 { "short" } else { "long" }
    )
}

/// A complex result, compared relative to the magnitudes which went into it.
fn cnear<T: Num>(what: &str, i: usize, got: (f64, f64), want: (f64, f64), mag: f64) -> Result<(), String> {
    let tol = 8.0 * T::EPS * mag;
    if near(got.0, want.0, tol) && near(got.1, want.1, tol) {
        Ok(())
    } else {
        Err(format!("{}: point {} is {:?} but expected {:?}", what, i, got, want))
    }
}

fn scalar<T: Num>(g: &mut G) -> R {
    let st = Store::draw(g);
    let is_complex = g.bool();
    let m = maxlen(g);
    let mut len = g.len(0, m);
    if is_complex {
        len &= !1;
    }
    let cargs = is_complex && g.bool();
    let op = g.below(2);
    let data: Vec<T> = data::draw(g, len, if cargs { data::FINITE } else { data::ALL });
    let s: T = drawn_scalar(g);
    let s2: T = if cargs { drawn_scalar(g) } else { T::zero() };
    let dom = *g.pick(&[DataDomain::Time, DataDomain::Frequency]);
    g.note(|| format!("{} {} by {} {}", if is_complex { "complex" } else { "real" }, if op == 0 { "offset" } else { "scale" }, s, s2));
    let delta: T = data::delta(g);
    let (out, delta2, dom2, c2) = on_storage!(&st, &data, is_complex, dom, 0, |v, b| {
        v.set_delta(delta);
        match (op, cargs) {
            (0, false) => v.offset(s),
            (0, true) => v.offset(Complex::new(s, s2)),
            (1, false) => v.scale(s),
            (_, _) => v.scale(Complex::new(s, s2)),
        }
        (v.data(..).to_vec(), v.delta(), v.domain(), v.is_complex())
    });
    ensure!(delta2 == delta && dom2 == dom && c2 == is_complex, "meta data changed to {} {:?} {}", delta2, dom2, c2);
    ensure!(out.len() == len, "length changed from {} to {}", len, out.len());
    for i in 0..len {
        let got = out[i].v();
        let re = !is_complex || i % 2 == 0;
        let same = |w: T| near(got, w.v(), 0.0);
        let good = match (op, cargs) {
            (0, false) => if re { same(data[i] + s) } else { same(data[i]) },
            (0, true) => same(data[i] + if re { s } else { s2 }),
            (1, false) => same(data[i] * s),
            (_, _) => {
                let j = i & !1;
                let a = (data[j].v(), data[j + 1].v());
                let w = cmul(a, (s.v(), s2.v()));
                let mag = a.0.hypot(a.1) * s.v().hypot(s2.v());
                near(got, if re { w.0 } else { w.1 }, 8.0 * T::EPS * mag)
            }
        };
        ensure!(good, "element {} of {}: {} became {}", i, len, data[i], got);
    }
    ok(len > 0, class(len, is_complex, &st))
}

fn check_binary<T: Num>(op: u64, is_complex: bool, a: &[T], b: &[T], out: &[T]) -> Result<(), String> {
    let len = a.len();
    let bl = b.len();
    if out.len() != len {
        return Err(format!("length changed from {} to {}", len, out.len()));
    }
    if is_complex && op >= 2 {
        for i in 0..len / 2 {
            let x = (a[2 * i].v(), a[2 * i + 1].v());
            let k = i % (bl / 2);
            let y = (b[2 * k].v(), b[2 * k + 1].v());
            let (w, mag) = if op == 2 {
                (cmul(x, y), x.0.hypot(x.1) * y.0.hypot(y.1))
            } else {
                (cdiv(x, y), x.0.hypot(x.1) / y.0.hypot(y.1))
            };
            cnear::<T>("result", i, (out[2 * i].v(), out[2 * i + 1].v()), w, mag)?;
        }
    } else {
        let want: Vec<T> = (0..len)
            .map(|i| {
                let (x, y) = (a[i], b[i % bl]);
                match op {
                    0 => x + y,
                    1 => x - y,
                    2 => x * y,
                    _ => x / y,
                }
            })
            .collect();
        all_same("result", out, &want)?;
    }
    Ok(())
}

const OPS: [&str; 4] = ["add", "sub", "mul", "div"];

fn binary_data<T: Num>(g: &mut G, op: u64, is_complex: bool, len: usize, divisor: bool) -> Vec<T> {
    if is_complex && op >= 2 {
        let mut v: Vec<T> = data::draw(g, len, data::FINITE);
        if op == 3 && divisor {
            // Away from zero: the quotient of two finite numbers is finite.
            for i in 0..len / 2 {
                if v[2 * i].v().abs() < 1e-3 && v[2 * i + 1].v().abs() < 1e-3 {
                    v[2 * i] = T::of(0.5);
                }
            }
        }
        v
    } else {
        data::draw(g, len, data::ALL)
    }
}

fn binary<T: Num>(g: &mut G) -> R {
    let st = Store::draw(g);
    let is_complex = g.bool();
    let op = g.below(4);
    let m = maxlen(g);
    let mut len = g.len(0, m);
    if is_complex {
        len &= !1;
    }
    let a: Vec<T> = binary_data(g, op, is_complex, len, false);
    let b: Vec<T> = binary_data(g, op, is_complex, len, true);
    let dom = *g.pick(&[DataDomain::Time, DataDomain::Frequency]);
    g.note(|| format!("{} of {} vectors", OPS[op as usize], if is_complex { "complex" } else { "real" }));
    let delta: T = data::delta(g);
    // An argument of another size is refused and leaves the vector alone.
    let refuse = g.chance(1, 12);
    let b = if refuse {
        let unit = if is_complex { 2 } else { 1 };
        let other = g.len(0, m) / unit * unit;
        let mut b = b;
        b.resize(if other == len { len + unit } else { other }, T::one());
        b
    } else {
        b
    };
    let mut arg = Guarded::new(&b, st.off2);
    let (out, meta) = {
        let mut arg = arg.slice().to_gen_dsp_vec(is_complex, dom);
        arg.set_delta(delta);
        on_storage!(&st, &a, is_complex, dom, 0, |v, _b| {
            v.set_delta(delta);
            let r = match op {
                0 => v.add(&arg),
                1 => v.sub(&arg),
                2 => v.mul(&arg),
                _ => v.div(&arg),
            };
            if refuse {
                all_same("vector after a refused operation", v.data(..), &a)?;
            }
            (r.map(|_| v.data(..).to_vec()), (v.delta(), v.domain(), v.is_complex()))
        })
    };
    ensure!(meta == (delta, dom, is_complex), "meta data changed to {:?}", meta);
    arg.check()?;
    all_same("argument after the operation", arg.get(), &b)?;
    let out = match out {
        Ok(_) if refuse => fail!("{} of {} elements with {} wasn't refused", OPS[op as usize], len, b.len()),
        Err(ErrorReason::InputMustHaveTheSameSize) if refuse => return ok(len > 0, "refused"),
        Ok(o) => o,
        Err(e) => fail!("{} of two vectors of {} elements failed with {:?}", OPS[op as usize], len, e),
    };
    check_binary(op, is_complex, &a, &b, &out)?;
    ok(len > 0, format!("{} {}", OPS[op as usize], class(len, is_complex, &st)))
}

fn wrap<T: Num>(g: &mut G) -> R {
    let st = Store::draw(g);
    let is_complex = g.bool();
    let op = g.below(4);
    let unit = if is_complex { 2 } else { 1 };
    let empty = g.chance(1, 40);
    let arg_points = if empty { 0 } else { g.len(1, 60) };
    let m = if g.thorough { 300 } else { 60 };
    let times = g.len(0, m);
    let odd = if g.chance(1, 20) { g.len(0, 60) } else { 0 };
    let len = (arg_points * times + odd) * unit;
    // An argument which doesn't fill the vector can't be repeated.
    let refuse = empty || odd % arg_points != 0;
    let a: Vec<T> = binary_data(g, op, is_complex, len, false);
    let b: Vec<T> = binary_data(g, op, is_complex, arg_points * unit, true);
    let dom = *g.pick(&[DataDomain::Time, DataDomain::Frequency]);
    g.note(|| format!("{}_smaller of {} vectors", OPS[op as usize], if is_complex { "complex" } else { "real" }));
    let mut arg = Guarded::new(&b, st.off2);
    let out = {
        let arg = arg.slice().to_gen_dsp_vec(is_complex, dom);
        on_storage!(&st, &a, is_complex, dom, 0, |v, _b| {
            let r = match op {
                0 => v.add_smaller(&arg),
                1 => v.sub_smaller(&arg),
                2 => v.mul_smaller(&arg),
                _ => v.div_smaller(&arg),
            };
            r.map(|_| v.data(..).to_vec())
        })
    };
    arg.check()?;
    all_same("argument after the operation", arg.get(), &b)?;
    let out = match out {
        Ok(_) if refuse => fail!("{}_smaller of {} elements with {} wasn't refused", OPS[op as usize], len, b.len()),
        Err(ErrorReason::InvalidArgumentLength) if refuse => return ok(true, "refused"),
        Ok(o) => o,
        Err(e) => fail!("{}_smaller of {} elements with {} failed with {:?}", OPS[op as usize], len, b.len(), e),
    };
    check_binary(op, is_complex, &a, &b, &out)?;
    ok(times > 1, format!("{} {}", OPS[op as usize], class(len, is_complex, &st)))
}

fn main() {
    let mut s = vec![];
    both!(&mut s, "scalar", 20000, scalar);
    both!(&mut s, "binary", 25000, binary);
    both!(&mut s, "wrap_around", 15000, wrap);
    vharness::main(
        "C01",
        "vector contents, lengths, storages (growable, slice at any alignment, stale tails), domains, operations and \
         operands are drawn; non-trivial: a non-empty vector (wrap-around: the argument repeats at least twice)",
        s,
    );
}

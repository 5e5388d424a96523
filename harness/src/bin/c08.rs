//! C08: sums and dot products, plain and precise.
use vharness::dsp::*;
use vharness::*;

/// Contents which make a sum hard: constants (rounding errors of one sign), cancelling pairs.
fn hard<T: Num>(g: &mut G, len: usize) -> Vec<T> {
    match g.weighted(&[3, 2, 2, 2]) {
        0 => data::draw(g, len, data::FINITE),
        1 => {
            let c = T::of(g.float(0.01, 3.0));
            g.note(|| format!("len {} of constant {}", len, c));
            vec![c; len]
        }
        2 if len > 0 => {
            // One term dominates, each of the others is about its rounding error.
            let big = T::of((2.0 / T::EPS) * g.float(0.3, 2.0));
            let at = if g.bool() { 0 } else { g.below(len as u64) as usize };
            let small = T::of(if g.bool() { 1.0 } else { g.float(0.5, 1.5) });
            g.note(|| format!("len {} of {} but {} at {}", len, small, big, at));
            let mut v = vec![small; len];
            v[at] = big;
            v
        }
        _ => {
            let seed = g.below(1 << 40);
            g.note(|| format!("len {} cancelling seed {}", len, seed));
            let mut r = vharness::g::Rng::new(seed);
            let big = if T::F32 { 1e6 } else { 1e12 };
            let mut v: Vec<T> = (0..len).map(|_| T::of(r.unit())).collect();
            for _ in 0..len / 4 {
                let (i, j) = (r.below(len as u64) as usize, r.below(len as u64) as usize);
                if i != j {
                    let x = T::of((r.unit() - 0.5) * big);
                    v[i] = x;
                    v[j] = -x;
                }
            }
            v
        }
    }
}

fn size(g: &mut G) -> usize {
    if g.chance(1, 40) {
        let top = if g.thorough { 40000 } else { 20000 };
        g.range(2000, top)
    } else {
        let m = if g.thorough { 5000 } else { 600 };
        g.len(0, m)
    }
}

fn class(n: usize, cplx: bool, what: &str) -> String {
    format!("{} {} {}", what, if cplx { "complex" } else { "real" }, match n {
        0 => "empty",
        1 => "one point",
        2..=40 => "short",
        41..=1000 => "medium",
        _ => "long",
    })
}

/// Exact (real, imaginary) sum of the products of points.
fn products<T: Num>(a: &[T], b: &[T], cplx: bool) -> (Exact, Exact) {
    let (mut re, mut im) = (Exact::new(), Exact::new());
    if cplx {
        for (x, y) in a.chunks(2).zip(b.chunks(2)) {
            let (x, y) = ((x[0].v(), x[1].v()), (y[0].v(), y[1].v()));
            re.add_product(x.0, y.0);
            re.add_product(-x.1, y.1);
            im.add_product(x.0, y.1);
            im.add_product(x.1, y.0);
        }
    } else {
        for (x, y) in a.iter().zip(b) {
            re.add_product(x.v(), y.v());
        }
    }
    (re, im)
}

fn total<T: Num>(a: &[T], cplx: bool) -> (Exact, Exact) {
    let (mut re, mut im) = (Exact::new(), Exact::new());
    if cplx {
        for x in a.chunks(2) {
            re.add(x[0].v());
            im.add(x[1].v());
        }
    } else {
        for x in a {
            re.add(x.v());
        }
    }
    (re, im)
}

fn agree(what: &str, got: (f64, f64), want: &(Exact, Exact), tol: (f64, f64)) -> Result<(), String> {
    let w = (want.0.value(), want.1.value());
    if near(got.0, w.0, tol.0) && near(got.1, w.1, tol.1) {
        Ok(())
    } else {
        Err(format!("{} is {:?} but expected {:?} (tolerance {:?})", what, got, w, tol))
    }
}

macro_rules! family {
    ($sums:ident, $dots:ident, $t:ty) => {
        fn $sums(g: &mut G) -> R {
            type T = $t;
            let st = Store::draw(g);
            let step = g.range(1, 2);
            let n = size(g);
            let cplx = step == 2;
            let data: Vec<T> = hard(g, n * step);
            let dom = *g.pick(&[DataDomain::Time, DataDomain::Frequency]);
            let op = g.below(4) as usize;
            let name = ["sum", "sum_sq", "sum_prec", "sum_sq_prec"][op];
            g.note(|| name.to_owned());
            let (got, after) = on_storage!(&st, &data, cplx, dom, 0, |v, b| {
                let r: (f64, f64) = match (op, cplx) {
                    (0, false) => (SumOps::<T>::sum(&v).v(), 0.0),
                    (1, false) => (SumOps::<T>::sum_sq(&v).v(), 0.0),
                    (2, false) => (PreciseSumOps::<f64>::sum_prec(&v), 0.0),
                    (3, false) => (PreciseSumOps::<f64>::sum_sq_prec(&v), 0.0),
                    (0, true) => {
                        let r = SumOps::<Complex<T>>::sum(&v);
                        (r.re.v(), r.im.v())
                    }
                    (1, true) => {
                        let r = SumOps::<Complex<T>>::sum_sq(&v);
                        (r.re.v(), r.im.v())
                    }
                    (2, _) => {
                        let r = PreciseSumOps::<Complex<f64>>::sum_prec(&v);
                        (r.re, r.im)
                    }
                    (_, _) => {
                        let r = PreciseSumOps::<Complex<f64>>::sum_sq_prec(&v);
                        (r.re, r.im)
                    }
                };
                (r, v.data(..).to_vec())
            });
            let want = if op % 2 == 0 { total(&data, cplx) } else { products(&data, &data, cplx) };
            let tol = match op {
                0 | 1 => (want.0.plain(T::EPS), want.1.plain(T::EPS)),
                _ if T::F32 => (want.0.plain(f64::EPSILON), want.1.plain(f64::EPSILON)),
                _ => (want.0.precise(T::EPS, 2), want.1.precise(T::EPS, 2)),
            };
            agree(name, got, &want, tol)?;
            all_same("vector", &after, &data)?;
            ok(n > 0, class(n, cplx, name))
        }

        fn $dots(g: &mut G) -> R {
            type T = $t;
            let st = Store::draw(g);
            let step = g.range(1, 2);
            let n = size(g);
            let cplx = step == 2;
            let dom = *g.pick(&[DataDomain::Time, DataDomain::Frequency]);
            let prec = g.bool();
            // 0: fine, 1: other size, 2: other number space, 3: other domain, 4: the method of the other space
            let wrong = if g.chance(1, 6) { g.range(1, 4) } else { 0 };
            let n2 = if wrong == 1 {
                let m = g.len(0, 100);
                if m == n {
                    n + 1
                } else {
                    m
                }
            } else {
                n
            };
            let a: Vec<T> = hard(g, n * step);
            let c: Vec<T> = if wrong == 2 {
                // As many elements, but the other number space.
                hard(g, n * 2)
            } else {
                hard(g, n2 * step)
            };
            let (a, c) = if wrong == 2 {
                if cplx { (a, c) } else { (hard(g, n * 2), c) }
            } else {
                (a, c)
            };
            let delta2 = T::of(*g.pick(&[1.0, 1.05, 0.95]));
            let (dom2, cplx2) = (
                if wrong == 3 { if dom == DataDomain::Time { DataDomain::Frequency } else { DataDomain::Time } } else { dom },
                if wrong == 2 { !cplx } else { cplx },
            );
            g.note(|| format!("dot product of {} and {} points, precise: {}, mismatch {}", n, n2, prec, wrong));
            let junk: usize = g.below(9) as usize;
            let mut content = c.clone();
            for i in 0..junk {
                content.push(T::of(555.5 + i as f64));
            }
            let mut guard = Guarded::new(&content, st.off2);
            let got: Result<(f64, f64), ErrorReason> = {
                let mut arg = guard.slice().to_gen_dsp_vec(cplx2, dom2);
                arg.resize(c.len()).unwrap();
                arg.set_delta(delta2);
                on_storage!(&st, &a, cplx, dom, 0, |v, b| {
                    if cplx != (wrong == 4) {
                        let r: ScalarResult<Complex<T>> = if prec {
                            PreciseDotProductOps::<_, Complex<T>, T, _, _>::dot_product_prec(&v, &arg)
                        } else {
                            DotProductOps::<_, Complex<T>, T, _, _>::dot_product(&v, &arg)
                        };
                        r.map(|r| (r.re.v(), r.im.v()))
                    } else {
                        let r: ScalarResult<T> = if prec {
                            PreciseDotProductOps::<_, T, T, _, _>::dot_product_prec(&v, &arg)
                        } else {
                            DotProductOps::<_, T, T, _, _>::dot_product(&v, &arg)
                        };
                        r.map(|r| (r.v(), 0.0))
                    }
                })
            };
            guard.check()?;
            let want_err = match wrong {
                1 => Some(ErrorReason::InputMustHaveTheSameSize),
                2 | 3 => Some(ErrorReason::InputMetaDataMustAgree),
                4 => Some(if cplx { ErrorReason::InputMustBeReal } else { ErrorReason::InputMustBeComplex }),
                _ => None,
            };
            match (want_err, got) {
                (Some(e), Err(r)) => ensure!(e == r, "refused with {:?} instead of {:?}", r, e),
                (Some(e), Ok(v)) => fail!("gave {:?} instead of the error {:?}", v, e),
                (None, Err(e)) => fail!("refused with {:?}", e),
                (None, Ok(v)) => {
                    let want = products(&a, &c, cplx);
                    let tol = if prec {
                        // One compensated sum per register lane and one for the edges.
                        (want.0.precise(T::EPS, 10), want.1.precise(T::EPS, 10))
                    } else {
                        (want.0.plain(T::EPS), want.1.plain(T::EPS))
                    };
                    agree("dot product", v, &want, tol)?;
                }
            }
            let what = match (wrong, prec) {
                (0, false) => "dot",
                (0, true) => "dot_prec",
                _ => "refused dot",
            };
            ok(n > 0, class(n, cplx, what))
        }
    };
}

family!(sums32, dots32, f32);
family!(sums64, dots64, f64);

fn main() {
    let mut s = vec![];
    sub(&mut s, "sums<f32>", 30000, sums32);
    sub(&mut s, "sums<f64>", 30000, sums64);
    sub(&mut s, "dots<f32>", 30000, dots32);
    sub(&mut s, "dots<f64>", 30000, dots64);
    vharness::main(
        "C08",
        "operation, number space, size, contents (also constants and cancelling pairs), alignment and mismatches are drawn; non-trivial: at least one point",
        s,
    );
}

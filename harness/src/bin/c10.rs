//! C10: mapping and aggregation visit every valid point once with its index.
use std::collections::BTreeMap;
use std::sync::Mutex;
use vharness::dsp::*;
use vharness::*;

fn class(n: usize, cplx: bool, what: &str) -> String {
    format!("{} {} {}", what, if cplx { "complex" } else { "real" }, match n {
        0 => "empty",
        1 => "one point",
        2..=40 => "short",
        _ => "long",
    })
}

/// What a call got: index and bits of the value, argument.
type Calls = Mutex<BTreeMap<(usize, u64, u64, i64), usize>>;

fn note_call(calls: &Calls, i: usize, a: u64, b: u64, arg: i64) {
    *calls.lock().unwrap().entry((i, a, b, arg)).or_insert(0) += 1;
}

fn check_calls<T: Num>(calls: &Calls, data: &[T], step: usize, arg: i64) -> Result<(), String> {
    let calls = calls.lock().unwrap();
    let n = data.len() / step;
    let mut seen = 0;
    for (k, c) in calls.iter() {
        let i = k.0;
        if i >= n {
            return Err(format!("called with index {} but there are {} points", i, n));
        }
        let want = (data[i * step].bits(), if step == 2 { data[i * step + 1].bits() } else { 0 });
        if (k.1, k.2) != want {
            return Err(format!("called for index {} with another value than the point there", i));
        }
        if k.3 != arg {
            return Err(format!("called with the argument {} instead of {}", k.3, arg));
        }
        if *c != 1 {
            return Err(format!("called {} times for index {}", c, i));
        }
        seen += 1;
    }
    if seen != n {
        return Err(format!("called for {} of {} points", seen, n));
    }
    Ok(())
}

fn map<T: Num>(g: &mut G) -> R {
    let st = Store::draw(g);
    let step = g.range(1, 2);
    let cplx = step == 2;
    let m = if g.thorough { 3000 } else { 400 };
    let n = g.len(0, m);
    let data: Vec<T> = data::draw(g, n * step, data::FINITE);
    let dom = *g.pick(&[DataDomain::Time, DataDomain::Frequency]);
    let arg = g.irange(-5, 5);
    let wrong = g.chance(1, 20);
    g.note(|| format!("map with argument {}, {}", arg, if wrong { "wrong number space" } else { "" }));
    let calls: Calls = Mutex::new(BTreeMap::new());
    let delta: T = data::delta(g);
    let real = |x: T, i: usize, a: i64| {
        note_call(&calls, i, x.bits(), 0, a);
        x * T::of(3.0) + T::of(i as f64) - T::of(a as f64)
    };
    let complex = |x: Complex<T>, i: usize, a: i64| {
        note_call(&calls, i, x.re.bits(), x.im.bits(), a);
        Complex::new(x.im * T::of(3.0) + T::of(i as f64), x.re - T::of(a as f64))
    };
    let (out, d, dm, behind, bad) = on_storage!(&st, &data, cplx, dom, 0, |v, b| {
        v.set_delta(delta);
        if cplx != wrong {
            v.map_inplace(arg, &complex);
        } else {
            v.map_inplace(arg, &real);
        }
        let out = v.data(..).to_vec();
        let bad = v.is_erroneous();
        let (d, dm) = (v.delta(), v.domain());
        // What lies behind the valid points.
        let mut behind: Vec<T> = vec![];
        if !bad && st.stale >= 2 && data.len() % step == 0 {
            let room = st.stale / step * step;
            if v.resize(data.len() + room).is_ok() {
                behind = v.data(data.len()..).to_vec();
            }
        }
        (out, d, dm, behind, bad)
    });
    if wrong {
        ensure!(bad, "mapping in the wrong number space wasn't refused");
        return ok(n > 0, class(n, cplx, "refused map"));
    }
    ensure!(d == delta && dm == dom && !bad, "meta data changed");
    check_calls(&calls, &data, step, arg)?;
    let want: Vec<T> = if cplx {
        data.chunks(2)
            .enumerate()
            .flat_map(|(i, c)| vec![c[1] * T::of(3.0) + T::of(i as f64), c[0] - T::of(arg as f64)])
            .collect()
    } else {
        data.iter().enumerate().map(|(i, x)| *x * T::of(3.0) + T::of(i as f64) - T::of(arg as f64)).collect()
    };
    all_same("mapped vector", &out, &want)?;
    if st.kind == 1 {
        // A fixed storage keeps what is behind the valid points.
        for (i, x) in behind.iter().enumerate() {
            ensure!(x.v() == -1000.5 - i as f64, "element {} behind the valid points became {}", i, x);
        }
    }
    ok(n > 0, class(n, cplx, "map"))
}

fn aggregate<T: Num>(g: &mut G) -> R {
    let st = Store::draw(g);
    let step = g.range(1, 2);
    let cplx = step == 2;
    let m = if g.thorough { 3000 } else { 400 };
    let n = g.len(0, m);
    let data: Vec<T> = data::draw(g, n * step, data::FINITE);
    let dom = *g.pick(&[DataDomain::Time, DataDomain::Frequency]);
    let arg = g.irange(-5, 5);
    let op = g.below(4);
    let wrong = g.chance(1, 20);
    g.note(|| format!("aggregate {} with argument {}, {}", op, arg, if wrong { "wrong number space" } else { "" }));
    let calls: Calls = Mutex::new(BTreeMap::new());
    // The mapped value: a number which tells all points apart.
    let code = |a: u64, b: u64, i: usize| -> u64 { (a ^ b.rotate_left(17) ^ (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15)) >> 1 };
    let join = |a: u64, b: u64| -> u64 {
        match op {
            0 => a.wrapping_add(b),
            1 => a.max(b),
            2 => a.min(b),
            _ => a ^ b,
        }
    };
    let real = |x: T, i: usize, a: i64| {
        note_call(&calls, i, x.bits(), 0, a);
        code(x.bits(), 0, i)
    };
    let complex = |x: Complex<T>, i: usize, a: i64| {
        note_call(&calls, i, x.re.bits(), x.im.bits(), a);
        code(x.re.bits(), x.im.bits(), i)
    };
    let (r, after) = on_storage!(&st, &data, cplx, dom, 0, |v, b| {
        let r: ScalarResult<u64> = if cplx != wrong {
            MapAggregateOps::<Complex<T>, u64>::map_aggregate(&v, arg, &complex, &join)
        } else {
            MapAggregateOps::<T, u64>::map_aggregate(&v, arg, &real, &join)
        };
        (r, v.data(..).to_vec())
    });
    all_same("vector", &after, &data)?;
    if wrong {
        let e = if cplx { ErrorReason::InputMustBeReal } else { ErrorReason::InputMustBeComplex };
        ensure!(r == Err(e), "aggregating in the wrong number space gave {:?}", r);
        return ok(n > 0, class(n, cplx, "refused aggregate"));
    }
    if n == 0 {
        ensure!(r == Err(ErrorReason::InputMustNotBeEmpty), "aggregating nothing gave {:?}", r);
        return ok(true, class(0, cplx, "aggregate"));
    }
    check_calls(&calls, &data, step, arg)?;
    let mut want: Option<u64> = None;
    for i in 0..n {
        let c = code(data[i * step].bits(), if cplx { data[i * step + 1].bits() } else { 0 }, i);
        want = Some(match want {
            None => c,
            Some(w) => join(w, c),
        });
    }
    ensure!(r == Ok(want.unwrap()), "aggregated to {:?} but expected {:?}", r, want);
    ok(n > 0, class(n, cplx, "aggregate"))
}

fn main() {
    let mut s = vec![];
    both!(&mut s, "map", 25000, map);
    both!(&mut s, "aggregate", 25000, aggregate);
    vharness::main(
        "C10",
        "number space, size, contents, storage, argument, aggregate and refusals are drawn; non-trivial: at least one point or the refused empty aggregate",
        s,
    );
}

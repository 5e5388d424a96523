//! C05: differences and cumulative sums invert each other.
use vharness::dsp::*;
use vharness::*;

fn class(len: usize, step: usize, what: &str) -> String {
    let n = len / step;
    format!("{} {} {}", what, if step == 2 { "complex" } else { "real" }, match n {
        0 => "empty",
        1 => "one point",
        2..=9 => "short",
        _ => "long",
    })
}

fn each<T: Num>(g: &mut G) -> R {
    let st = Store::draw(g);
    let step = g.range(1, 2);
    let m = if g.thorough { 5000 } else { 600 };
    let n = g.len(0, m);
    let op = g.below(3);
    let data: Vec<T> = data::draw(g, n * step, if op == 2 { data::FINITE } else { data::ALL });
    let dom = *g.pick(&[DataDomain::Time, DataDomain::Frequency]);
    let delta: T = data::delta(g);
    g.note(|| format!("{} of {} {} points", ["diff", "diff_with_start", "cum_sum"][op as usize], n, step));
    let (out, p, d, dm) = on_storage!(&st, &data, step == 2, dom, 0, |v, b| {
        v.set_delta(delta);
        match op {
            0 => v.diff(),
            1 => v.diff_with_start(),
            _ => v.cum_sum(),
        }
        (v.data(..).to_vec(), v.points(), v.delta(), v.domain())
    });
    ensure!(p * step == out.len() && d == delta && dm == dom, "meta data changed");
    match op {
        0 | 1 => {
            let mut want = vec![];
            if op == 1 && n > 0 {
                want.extend_from_slice(&data[0..step]);
            }
            for i in step..n * step {
                want.push(data[i] - data[i - step]);
            }
            all_same("differences", &out, &want)?;
        }
        _ => {
            ensure!(out.len() == n * step, "length changed from {} to {}", n * step, out.len());
            let mut sum = [0.0f64; 2];
            let mut mag = [0.0f64; 2];
            for i in 0..n * step {
                let k = i % step;
                sum[k] += data[i].v();
                mag[k] += data[i].v().abs();
                let tol = 2.0 * T::EPS * mag[k] * (1.0 + i as f64 / 8.0);
                ensure!(near(out[i].v(), sum[k], tol), "running total {} of {} is {} but expected {}", i, n * step, out[i], sum[k]);
            }
        }
    }
    ok(n > 1, class(data.len(), step, ["diff", "diff_with_start", "cum_sum"][op as usize]))
}

/// With integers both round trips are exact.
fn round_trip<T: Num>(g: &mut G) -> R {
    let st = Store::draw(g);
    let step = g.range(1, 2);
    let m = if g.thorough { 5000 } else { 600 };
    let n = g.len(0, m);
    let order = g.below(2);
    let data: Vec<T> = data::draw(g, n * step, &[data::Kind::SmallInts]);
    let out = on_storage!(&st, &data, step == 2, DataDomain::Time, 0, |v, b| {
        if order == 0 {
            v.diff_with_start();
            v.cum_sum();
        } else {
            v.cum_sum();
            v.diff_with_start();
        }
        v.data(..).to_vec()
    });
    all_same("round trip", &out, &data)?;
    ok(n > 1, class(data.len(), step, if order == 0 { "diff then sum" } else { "sum then diff" }))
}

fn main() {
    let mut s = vec![];
    both!(&mut s, "each", 40000, each);
    both!(&mut s, "round_trip", 30000, round_trip);
    vharness::main(
        "C05",
        "operation, number space, size, contents and storage are drawn; non-trivial: at least two points",
        s,
    );
}

//! C09: statistics describe exactly the valid points of the vector.
use vharness::dsp::*;
use vharness::*;

/// The statistics of a column in f64 for comparison.
#[derive(Debug, Clone, Copy)]
struct Seen {
    sum: (f64, f64),
    count: usize,
    average: (f64, f64),
    rms: (f64, f64),
    min: (f64, f64),
    max: (f64, f64),
    min_index: usize,
    max_index: usize,
}

trait Part: Copy {
    fn pair(self) -> (f64, f64);
}
impl Part for f32 {
    fn pair(self) -> (f64, f64) {
        (self as f64, 0.0)
    }
}
impl Part for f64 {
    fn pair(self) -> (f64, f64) {
        (self, 0.0)
    }
}
impl<T: Num> Part for Complex<T> {
    fn pair(self) -> (f64, f64) {
        (self.re.v(), self.im.v())
    }
}

fn seen<P: Part>(s: &Statistics<P>) -> Seen {
    Seen {
        sum: s.sum.pair(),
        count: s.count,
        average: s.average.pair(),
        rms: s.rms.pair(),
        min: s.min.pair(),
        max: s.max.pair(),
        min_index: s.min_index,
        max_index: s.max_index,
    }
}

/// Compares with the definition. `eps` is the rounding error of the type the statistics were
/// calculated in; `precise` says if sums are compensated.
fn judge(s: &Seen, points: &[(f64, f64)], cplx: bool, eps: f64, precise: bool) -> Result<(), String> {
    let n = points.len();
    if s.count != n {
        return Err(format!("count is {} but there are {} points", s.count, n));
    }
    let mut sum = (Exact::new(), Exact::new());
    let mut sq = (Exact::new(), Exact::new());
    for p in points {
        sum.0.add(p.0);
        sum.1.add(p.1);
        sq.0.add_product(p.0, p.0);
        sq.0.add_product(-p.1, p.1);
        sq.1.add_product(2.0 * p.0, p.1);
    }
    let t = |e: &Exact| if precise { e.precise(eps, 4) } else { e.plain(eps) };
    let (tr, ti) = (t(&sum.0), t(&sum.1));
    let w = (sum.0.value(), sum.1.value());
    if !near(s.sum.0, w.0, tr) || !near(s.sum.1, w.1, ti) {
        return Err(format!("sum is {:?} but expected {:?} (tolerance {:?})", s.sum, w, (tr, ti)));
    }
    if n == 0 {
        return Ok(());
    }
    let k = n as f64;
    let a = (w.0 / k, w.1 / k);
    let (ta, tb) = (tr / k + 2.0 * eps * a.0.abs(), ti / k + 2.0 * eps * a.1.abs());
    if !near(s.average.0, a.0, ta) || !near(s.average.1, a.1, tb) {
        return Err(format!("average is {:?} but expected {:?}", s.average, a));
    }
    // The square of the root mean square is the mean of the squares.
    let m = (sq.0.value() / k, sq.1.value() / k);
    let r2 = if cplx {
        (s.rms.0 * s.rms.0 - s.rms.1 * s.rms.1, 2.0 * s.rms.0 * s.rms.1)
    } else {
        (s.rms.0 * s.rms.0, 0.0)
    };
    let size = (m.0.abs() + m.1.abs()) * 16.0 * eps;
    let tol = ((t(&sq.0) + t(&sq.1)) / k) * 1.5 + size;
    if !near(r2.0, m.0, tol) || !near(r2.1, m.1, tol) || s.rms.0 < -tol {
        return Err(format!("rms is {:?}, its square is {:?} but expected {:?} (tolerance {:e})", s.rms, r2, m, tol));
    }
    let key = |p: &(f64, f64)| if cplx { p.0.hypot(p.1) } else { p.0 };
    let lo = points.iter().map(key).fold(f64::INFINITY, f64::min);
    let hi = points.iter().map(key).fold(f64::NEG_INFINITY, f64::max);
    let slack = |v: f64| if cplx { 4.0 * eps * v } else { 0.0 };
    if !near(key(&s.min), lo, slack(lo)) {
        return Err(format!("minimum is {:?} but the smallest is {}", s.min, lo));
    }
    if !near(key(&s.max), hi, slack(hi)) {
        return Err(format!("maximum is {:?} but the largest is {}", s.max, hi));
    }
    if s.min_index >= n || points[s.min_index] != s.min {
        return Err(format!("minimum {:?} isn't at index {} of {}", s.min, s.min_index, n));
    }
    if s.max_index >= n || points[s.max_index] != s.max {
        return Err(format!("maximum {:?} isn't at index {} of {}", s.max, s.max_index, n));
    }
    Ok(())
}

fn pairs<T: Num>(data: &[T], cplx: bool) -> Vec<(f64, f64)> {
    if cplx {
        data.chunks(2).map(|c| (c[0].v(), c[1].v())).collect()
    } else {
        data.iter().map(|x| (x.v(), 0.0)).collect()
    }
}

fn column(points: &[(f64, f64)], col: usize, cols: usize) -> Vec<(f64, f64)> {
    points.iter().skip(col).step_by(cols).cloned().collect()
}

fn class(n: usize, cplx: bool, what: &str) -> String {
    format!("{} {} {}", what, if cplx { "complex" } else { "real" }, match n {
        0 => "empty",
        1 => "one point",
        2..=40 => "short",
        _ => "long",
    })
}

fn contents<T: Num>(g: &mut G, len: usize) -> Vec<T> {
    match g.weighted(&[4, 1, 1]) {
        0 => data::draw(g, len, data::FINITE),
        1 => {
            let c = T::of(g.float(-3.0, 3.0));
            g.note(|| format!("len {} of constant {}", len, c));
            vec![c; len]
        }
        _ => {
            let c = T::of(g.float(0.05, 3.0));
            g.note(|| format!("len {} with rising multiples of {}", len, c));
            (0..len).map(|i| T::of((i % 13) as f64) * c + c).collect()
        }
    }
}

macro_rules! family {
    ($whole:ident, $split:ident, $t:ty) => {
        fn $whole(g: &mut G) -> R {
            type T = $t;
            let st = Store::draw(g);
            let step = g.range(1, 2);
            let cplx = step == 2;
            let m = if g.thorough { 8000 } else { 1200 };
            let n = g.len(0, m);
            let data: Vec<T> = contents(g, n * step);
            let prec = g.bool();
            let dom = *g.pick(&[DataDomain::Time, DataDomain::Frequency]);
            g.note(|| format!("precise: {}", prec));
            let (s, after) = on_storage!(&st, &data, cplx, dom, 0, |v, b| {
                let s = match (cplx, prec) {
                    (false, false) => seen(&StatisticsOps::<T>::statistics(&v)),
                    (true, false) => seen(&StatisticsOps::<Complex<T>>::statistics(&v)),
                    (false, true) => seen(&PreciseStatisticsOps::<f64>::statistics_prec(&v)),
                    (true, true) => seen(&PreciseStatisticsOps::<Complex<f64>>::statistics_prec(&v)),
                };
                (s, v.data(..).to_vec())
            });
            all_same("vector", &after, &data)?;
            let eps = if prec { f64::EPSILON } else { T::EPS };
            judge(&s, &pairs(&data, cplx), cplx, eps, prec && !T::F32)?;
            ok(n > 0, class(n, cplx, if prec { "precise" } else { "plain" }))
        }

        fn $split(g: &mut G) -> R {
            type T = $t;
            let st = Store::draw(g);
            let step = g.range(1, 2);
            let cplx = step == 2;
            let m = if g.thorough { 8000 } else { 1200 };
            let n = g.len(0, m);
            let cols = if g.chance(1, 20) { *g.pick(&[0usize, 17, 18, 100]) } else { g.range(1, 16) };
            let data: Vec<T> = contents(g, n * step);
            let prec = g.bool();
            let dom = *g.pick(&[DataDomain::Time, DataDomain::Frequency]);
            g.note(|| format!("precise: {}, split by {}", prec, cols));
            let r: Result<Vec<Seen>, ErrorReason> = on_storage!(&st, &data, cplx, dom, 0, |v, b| {
                match (cplx, prec) {
                    (false, false) => StatisticsSplitOps::<T>::statistics_split(&v, cols).map(|s| s.iter().map(seen).collect()),
                    (true, false) => {
                        StatisticsSplitOps::<Complex<T>>::statistics_split(&v, cols).map(|s| s.iter().map(seen).collect())
                    }
                    (false, true) => {
                        PreciseStatisticsSplitOps::<f64>::statistics_split_prec(&v, cols).map(|s| s.iter().map(seen).collect())
                    }
                    (true, true) => PreciseStatisticsSplitOps::<Complex<f64>>::statistics_split_prec(&v, cols)
                        .map(|s| s.iter().map(seen).collect()),
                }
            });
            let s = match r {
                Err(e) => {
                    ensure!(cols > 16 && e == ErrorReason::InvalidArgumentLength, "splitting by {} refused with {:?}", cols, e);
                    return ok(false, "refused");
                }
                Ok(s) => s,
            };
            ensure!(cols <= 16, "splitting by {} wasn't refused", cols);
            if n == 0 || cols == 0 {
                ensure!(s.iter().all(|c| c.count == 0), "statistics of nothing count points");
                return ok(false, "nothing to split");
            }
            ensure!(s.len() == cols, "{} statistics for {} columns", s.len(), cols);
            let eps = if prec { f64::EPSILON } else { T::EPS };
            let points = pairs(&data, cplx);
            for c in 0..cols {
                if let Err(e) = judge(&s[c], &column(&points, c, cols), cplx, eps, prec && !T::F32) {
                    fail!("column {} of {}: {}", c, cols, e);
                }
            }
            ok(n > 0, class(n, cplx, if prec { "precise split" } else { "split" }))
        }
    };
}

family!(whole32, split32, f32);
family!(whole64, split64, f64);

/// Statistics which are gathered in parts and merged.
fn merge<T: Num + Part>(g: &mut G) -> R {
    let cplx = g.bool();
    let m = if g.thorough { 500 } else { 100 };
    let n = g.len(0, m);
    let data: Vec<T> = contents(g, n * if cplx { 2 } else { 1 });
    let points = pairs(&data, cplx);
    let parts = if g.chance(1, 8) { g.range(17, 60) } else { g.range(1, 16) };
    let cols = g.range(1, 16);
    let precise = g.bool();
    let mut cuts: Vec<usize> = (1..parts).map(|_| g.below(n as u64 + 1) as usize).collect();
    cuts.push(0);
    cuts.push(n);
    cuts.sort();
    g.note(|| format!("{} points cut at {:?}, {} columns", n, cuts, cols));
    macro_rules! gather {
        ($p:ty, $get:expr) => {{
            let mut one: Vec<Statistics<$p>> = vec![];
            let mut many: Vec<StatsVec<Statistics<$p>>> = vec![];
            for w in cuts.windows(2) {
                let mut s = <Statistics<$p> as Stats<$p>>::empty();
                let mut sv = <Statistics<$p> as Stats<$p>>::empty_vec(cols);
                let zero: $p = num_zero::<$p>();
                let (mut c1, mut c2) = (zero, zero);
                for i in w[0]..w[1] {
                    let e: $p = $get(i);
                    if precise {
                        s.add_prec(e, i, &mut c1, &mut c2);
                    } else {
                        s.add(e, i);
                    }
                    sv[i % cols].add(e, i / cols);
                }
                one.push(s);
                many.push(sv);
            }
            (
                seen(&<Statistics<$p> as Stats<$p>>::merge(&one)),
                <Statistics<$p> as Stats<$p>>::merge_cols(&many).iter().map(seen).collect::<Vec<_>>(),
            )
        }};
    }
    let (whole, split) = if cplx {
        gather!(Complex<T>, |i: usize| Complex::new(data[2 * i], data[2 * i + 1]))
    } else {
        gather!(T, |i: usize| data[i])
    };
    judge(&whole, &points, cplx, T::EPS, false)?;
    ensure!(split.len() == cols, "{} statistics for {} columns", split.len(), cols);
    for c in 0..cols {
        if let Err(e) = judge(&split[c], &column(&points, c, cols), cplx, T::EPS, false) {
            fail!("merged column {} of {}: {}", c, cols, e);
        }
    }
    ok(n > 0 && parts > 1, class(n, cplx, "merged"))
}

fn num_zero<P: dsp::numbers::Zero>() -> P {
    P::zero()
}

fn main() {
    let mut s = vec![];
    sub(&mut s, "whole<f32>", 25000, whole32);
    sub(&mut s, "whole<f64>", 25000, whole64);
    sub(&mut s, "split<f32>", 25000, split32);
    sub(&mut s, "split<f64>", 25000, split64);
    both!(&mut s, "merge", 20000, merge);
    vharness::main(
        "C09",
        "number space, size, contents, storage, number of columns and parts are drawn; non-trivial: at least one point (and two parts for merging)",
        s,
    );
}

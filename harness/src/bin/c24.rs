//! C24: a matrix operation equals the vector operation on every row.
use basic_dsp_matrix::*;
use vharness::dsp::*;
use vharness::dsp::conv_types::*;
use vharness::ops::*;
use vharness::*;

/// What a matrix operation reported, and what it did to each row.
struct Done<T> {
    err: Option<ErrorReason>,
    rows: Vec<(State<T>, Out<T>)>,
}

type Row<T> = GenDspVec<Vec<T>, T>;

/// The operations of matrices for one number type. Shape 0 holds any number of rows.
trait Mat: Num {
    /// One operation per row: they differ only in the content of the argument. With `matrix`
    /// all arguments together are one, otherwise the argument of the first row is the only one.
    fn run(shape: usize, ops: &[Op<Self>], rows: Vec<Row<Self>>, matrix: bool) -> Done<Self>;
    /// Any sequence of operations which work in place and don't fail, rows and other properties in between
    fn meta(shape: usize, g: &mut G) -> R;
    /// Setters and getters together.
    fn set(shape: usize, g: &mut G) -> R;
    /// Convolution which mixes the rows.
    fn mix(shape: usize, g: &mut G) -> R;
    /// Typed matrices.
    fn typed(shape: usize, g: &mut G) -> R;
}

fn supported(id: Id) -> bool {
    use vharness::ops::Id::*;
    match id {
        ZeroPad | ZeroPadB | ZeroInterleave | ZeroInterleaveB | ResizeB | SplitInto | Merge | SumC | SumSqC
        | SumPrecC | SumSqPrecC | DotC | DotPrecC | StatisticsC | StatisticsPrecC | StatisticsSplitC
        | StatisticsSplitPrecC | MapAggregateC => false,
        _ => true,
    }
}

/// Operations which take a matrix as argument.
fn takes_matrix(id: Id) -> bool {
    id.binary() && id != Id::ConvolveSignal
}

/// Operations which take a vector as argument.
fn takes_vector(id: Id) -> bool {
    id.binary() && id != Id::Correlate
}

fn out<T: Num>() -> Out<T> {
    Out {
        err: None,
        scalars: vec![],
        indices: vec![],
        others: vec![],
    }
}

fn vector<T: Num>(data: &[T], cplx: bool, dom: DataDomain, delta: T, stale: usize) -> Row<T> {
    let mut content = data.to_vec();
    content.extend((0..stale * 2).map(|i| T::canary(i)));
    let mut v = content.to_gen_dsp_vec(cplx, dom);
    v.resize(data.len()).expect("shrinking works");
    v.set_delta(delta);
    v
}

fn make<T: Num>(s: &State<T>, stale: usize) -> Row<T> {
    vector(&s.data, s.cplx, s.dom, s.delta, stale)
}

macro_rules! scalars {
    ($outs:expr, $r:expr, $err:expr) => {
        match $r {
            Ok(r) => {
                for (o, x) in $outs.iter_mut().zip(r.iter()) {
                    o.scalars.push((*x).v());
                }
            }
            Err(e) => $err = Some(e),
        }
    };
}
macro_rules! one_stats {
    ($o:expr, $s:expr) => {{
        let s = $s;
        $o.scalars.push(s.sum.v());
        $o.scalars.push(s.average.v());
        $o.scalars.push(s.rms.v());
        $o.scalars.push(s.min.v());
        $o.scalars.push(s.max.v());
        $o.indices.push(s.count);
    }};
}
macro_rules! split {
    ($outs:expr, $r:expr, $err:expr) => {
        match $r {
            Ok(r) => {
                for (o, x) in $outs.iter_mut().zip(r.iter()) {
                    o.indices.push(x.len());
                    for s in x.iter() {
                        one_stats!(o, s.clone());
                    }
                }
            }
            Err(e) => $err = Some(e),
        }
    };
}

macro_rules! build {
    (MatrixMxN, $rows:expr) => {
        $rows.to_mat()
    };
    (Matrix2xN, $rows:expr) => {{
        let mut it = $rows.into_iter();
        [it.next().unwrap(), it.next().unwrap()].to_mat()
    }};
    (Matrix3xN, $rows:expr) => {{
        let mut it = $rows.into_iter();
        [it.next().unwrap(), it.next().unwrap(), it.next().unwrap()].to_mat()
    }};
    (Matrix4xN, $rows:expr) => {{
        let mut it = $rows.into_iter();
        [it.next().unwrap(), it.next().unwrap(), it.next().unwrap(), it.next().unwrap()].to_mat()
    }};
}

/// An array or vector of `n` items.
macro_rules! collection {
    (MatrixMxN, $items:expr) => {
        $items
    };
    (Matrix2xN, $items:expr) => {{
        let mut it = $items.into_iter();
        [it.next().unwrap(), it.next().unwrap()]
    }};
    (Matrix3xN, $items:expr) => {{
        let mut it = $items.into_iter();
        [it.next().unwrap(), it.next().unwrap(), it.next().unwrap()]
    }};
    (Matrix4xN, $items:expr) => {{
        let mut it = $items.into_iter();
        [it.next().unwrap(), it.next().unwrap(), it.next().unwrap(), it.next().unwrap()]
    }};
}

macro_rules! mix_responses {
    (MatrixMxN, $m:expr, $b:expr, $h:expr) => {{
        let refs: Vec<Vec<&Row<_>>> = $h.iter().map(|r| r.iter().collect()).collect();
        let refs: Vec<&Vec<&Row<_>>> = refs.iter().collect();
        $m.convolve_signal(&mut $b, &refs)
    }};
    (Matrix2xN, $m:expr, $b:expr, $h:expr) => {{
        let h = $h;
        $m.convolve_signal(&mut $b, &[[&h[0][0], &h[0][1]], [&h[1][0], &h[1][1]]])
    }};
    (Matrix3xN, $m:expr, $b:expr, $h:expr) => {{
        let h = $h;
        let a: Vec<[&Row<_>; 3]> = h.iter().map(|r| [&r[0], &r[1], &r[2]]).collect();
        $m.convolve_signal(&mut $b, &[a[0], a[1], a[2]])
    }};
    (Matrix4xN, $m:expr, $b:expr, $h:expr) => {{
        let h = $h;
        let a: Vec<[&Row<_>; 4]> = h.iter().map(|r| [&r[0], &r[1], &r[2], &r[3]]).collect();
        $m.convolve_signal(&mut $b, &[a[0], a[1], a[2], a[3]])
    }};
}

/// The same operations in the same order on one matrix and on its rows.
macro_rules! both_ways {
    ($m:ident, $rows:ident, $name:ident) => {{
        $m.$name();
        for r in $rows.iter_mut() {
            r.$name();
        }
    }};
}

macro_rules! matrix_fns {
    ($t:ty, $shape:ident, $run:ident, $meta:ident, $set:ident, $mix:ident, $typed:ident) => {
        fn $run(ops: &[Op<$t>], rows: Vec<Row<$t>>, matrix: bool) -> Done<$t> {
            use vharness::ops::Id::*;
            type T = $t;
            let op = &ops[0];
            let n = rows.len();
            let mut outs: Vec<Out<T>> = (0..n).map(|_| out()).collect();
            let mut err = None;
            let mut buf = SingleBuffer::new();
            let b = &mut buf;
            let vec_arg = op.args.get(0).map(|a| vector(&a.data, a.cplx, a.dom, a.delta, a.off));
            let mat_arg = if matrix {
                let args: Vec<Row<T>> =
                    ops.iter().map(|o| vector(&o.args[0].data, o.args[0].cplx, o.args[0].dom, o.args[0].delta, o.args[0].off)).collect();
                Some(build!($shape, args))
            } else {
                None
            };
            let mut m = build!($shape, rows);
            let z = Complex::new(op.x, op.y);
            macro_rules! void {
                ($r:expr) => {
                    if let Err(e) = $r {
                        err = Some(e);
                    }
                };
            }
            macro_rules! trans {
                ($r:expr) => {
                    match $r {
                        Ok(r) => m = r,
                        Err((e, r)) => {
                            err = Some(e);
                            m = r;
                        }
                    }
                };
            }
            macro_rules! binary {
                ($name:ident) => {
                    if let Some(ref a) = mat_arg {
                        void!(m.$name(a))
                    } else {
                        void!(m.$name(vec_arg.as_ref().unwrap()))
                    }
                };
            }
            match op.id {
                Scale => m.scale(op.x),
                ScaleC => m.scale(z),
                Offset => m.offset(op.x),
                OffsetC => m.offset(z),
                Add => binary!(add),
                Sub => binary!(sub),
                Mul => binary!(mul),
                Div => binary!(div),
                AddSmaller => binary!(add_smaller),
                SubSmaller => binary!(sub_smaller),
                MulSmaller => binary!(mul_smaller),
                DivSmaller => binary!(div_smaller),
                Sqrt => m.sqrt(),
                Square => m.square(),
                Root => m.root(op.x),
                Powf => m.powf(op.x),
                Ln => m.ln(),
                Exp => m.exp(),
                Log => m.log(op.x),
                Expf => m.expf(op.x),
                Sin => m.sin(),
                Cos => m.cos(),
                Tan => m.tan(),
                Asin => m.asin(),
                Acos => m.acos(),
                Atan => m.atan(),
                Sinh => m.sinh(),
                Cosh => m.cosh(),
                Tanh => m.tanh(),
                Asinh => m.asinh(),
                Acosh => m.acosh(),
                Atanh => m.atanh(),
                Abs => m.abs(),
                Wrap => m.wrap(op.x),
                Unwrap => m.unwrap(op.x),
                LnApprox => m.ln_approx(),
                ExpApprox => m.exp_approx(),
                SinApprox => m.sin_approx(),
                CosApprox => m.cos_approx(),
                LogApprox => m.log_approx(op.x),
                ExpfApprox => m.expf_approx(op.x),
                PowfApprox => m.powf_approx(op.x),
                MapInplace => MapInplaceOps::<T>::map_inplace(&mut m, op.x, &|x: T, i, a: T| x * a + T::of(i as f64)),
                MapInplaceC => MapInplaceOps::<Complex<T>>::map_inplace(&mut m, z, &|x: Complex<T>, i, a: Complex<T>| {
                    Complex::new(x.im + a.re, x.re + T::of(i as f64))
                }),
                Conj => m.conj(),
                ComplexExponential => m.multiply_complex_exponential(op.x, op.y),
                Reverse => m.reverse(),
                SwapHalves => m.swap_halves(),
                Diff => m.diff(),
                DiffWithStart => m.diff_with_start(),
                CumSum => m.cum_sum(),
                Decimatei => m.decimatei(op.n as u32, op.m as u32),
                Resize => {
                    void!(m.resize(op.n));
                    for (v, o) in m.rows_mut().iter_mut().zip(ops) {
                        let l = v.len();
                        if l > o.m {
                            for x in v.data_mut(o.m..l) {
                                *x = T::of(0.0);
                            }
                        }
                    }
                }
                Magnitude => m = m.magnitude(),
                MagnitudeSquared => m = m.magnitude_squared(),
                ToReal => m = m.to_real(),
                ToImag => m = m.to_imag(),
                Phase => m = m.phase(),
                MagnitudeB => m = m.magnitude_b(b),
                MagnitudeSquaredB => m = m.magnitude_squared_b(b),
                ToRealB => m = m.to_real_b(b),
                ToImagB => m = m.to_imag_b(b),
                PhaseB => m = m.phase_b(b),
                ToComplex => trans!(m.to_complex()),
                ToComplexB => m = m.to_complex_b(b),
                Sum => {
                    let r = m.sum();
                    scalars!(outs, Ok::<_, ErrorReason>(r), err)
                }
                SumSq => {
                    let r = m.sum_sq();
                    scalars!(outs, Ok::<_, ErrorReason>(r), err)
                }
                SumPrec => {
                    let r = collection!($shape, vec![0f64; n]);
                    let q = PreciseSumOps::sum_prec(&m);
                    scalars!(outs, Ok::<_, ErrorReason>(same_type(r, q)), err)
                }
                SumSqPrec => {
                    let r = collection!($shape, vec![0f64; n]);
                    let q = PreciseSumOps::sum_sq_prec(&m);
                    scalars!(outs, Ok::<_, ErrorReason>(same_type(r, q)), err)
                }
                Dot => {
                    if let Some(ref a) = mat_arg {
                        let r = DotProductOps::<_, T, T, _, _>::dot_product(&m, a);
                        scalars!(outs, r, err)
                    } else {
                        let r = DotProductOps::<_, T, T, _, _>::dot_product(&m, vec_arg.as_ref().unwrap());
                        scalars!(outs, r, err)
                    }
                }
                DotPrec => {
                    if let Some(ref a) = mat_arg {
                        let r = PreciseDotProductOps::<_, T, T, _, _>::dot_product_prec(&m, a);
                        scalars!(outs, r, err)
                    } else {
                        let r = PreciseDotProductOps::<_, T, T, _, _>::dot_product_prec(&m, vec_arg.as_ref().unwrap());
                        scalars!(outs, r, err)
                    }
                }
                Statistics => {
                    let r = StatisticsOps::<T>::statistics(&m);
                    for (o, s) in outs.iter_mut().zip(r.iter()) {
                        one_stats!(o, s.clone());
                    }
                }
                StatisticsPrec => {
                    let r = PreciseStatisticsOps::<f64>::statistics_prec(&m);
                    for (o, s) in outs.iter_mut().zip(r.iter()) {
                        one_stats!(o, s.clone());
                    }
                }
                StatisticsSplit => split!(outs, StatisticsSplitOps::<T>::statistics_split(&m, op.n), err),
                StatisticsSplitPrec => {
                    split!(outs, PreciseStatisticsSplitOps::<f64>::statistics_split_prec(&m, op.n), err)
                }
                MapAggregate => {
                    let r = MapAggregateOps::<T, T>::map_aggregate(&m, op.x, &|x: T, i, a: T| x + a * T::of((i % 7) as f64), &|p: T, q: T| {
                        if p > q {
                            p
                        } else {
                            q
                        }
                    });
                    scalars!(outs, r, err)
                }
                GetReal | GetImag | GetMagnitude | GetMagnitudeSquared | GetPhase | GetRealImag | GetMagPhase => {
                    let dest = |k: usize| -> Vec<Row<T>> {
                        m.rows()
                            .iter()
                            .map(|v| {
                                let n = v.points();
                                let room: Vec<T> = (0..n + 5).map(|i| T::of(333.25 + i as f64)).collect();
                                let mut d = room.to_gen_dsp_vec(false, v.domain());
                                d.resize((op.m / k).min(n + 5)).expect("shrinking works");
                                d
                            })
                            .collect()
                    };
                    let (d1, d2) = (dest(1), dest(2));
                    let mut d1 = build!($shape, d1);
                    let mut d2 = build!($shape, d2);
                    match op.id {
                        GetReal => m.get_real(&mut d1),
                        GetImag => m.get_imag(&mut d1),
                        GetMagnitude => m.get_magnitude(&mut d1),
                        GetMagnitudeSquared => m.get_magnitude_squared(&mut d1),
                        GetPhase => m.get_phase(&mut d1),
                        GetRealImag => m.get_real_imag(&mut d1, &mut d2),
                        _ => m.get_mag_phase(&mut d1, &mut d2),
                    }
                    for (i, o) in outs.iter_mut().enumerate() {
                        let d = &d1.rows()[i];
                        o.others.push((d.data(..).to_vec(), d.is_complex(), d.domain(), d.delta()));
                        if op.id == GetRealImag || op.id == GetMagPhase {
                            let d = &d2.rows()[i];
                            o.others.push((d.data(..).to_vec(), d.is_complex(), d.domain(), d.delta()));
                        }
                    }
                }
                PlainFft => m = m.plain_fft(b),
                Fft => m = m.fft(b),
                WindowedFft => m = op.win.with::<T, _>(|w| m.windowed_fft(b, w)),
                PlainSfft => trans!(m.plain_sfft(b)),
                Sfft => trans!(m.sfft(b)),
                WindowedSfft => trans!(op.win.with::<T, _>(|w| m.windowed_sfft(b, w))),
                PlainIfft => m = m.plain_ifft(b),
                Ifft => m = m.ifft(b),
                WindowedIfft => m = op.win.with::<T, _>(|w| m.windowed_ifft(b, w)),
                PlainSifft => trans!(m.plain_sifft(b)),
                Sifft => trans!(m.sifft(b)),
                WindowedSifft => trans!(op.win.with::<T, _>(|w| m.windowed_sifft(b, w))),
                FftShift => m.fft_shift(),
                IfftShift => m.ifft_shift(),
                Mirror => m.mirror(b),
                ApplyWindow => op.win.with::<T, _>(|w| m.apply_window(w)),
                UnapplyWindow => op.win.with::<T, _>(|w| m.unapply_window(w)),
                FreqResponse => op.resp.with_freq::<T, _>(|f| m.multiply_frequency_response(f, op.x)),
                FreqResponseC => {
                    let f: &dyn ComplexFrequencyResponse<T> = &op.resp;
                    m.multiply_frequency_response(f, op.x)
                }
                PrepareArgument => m = m.prepare_argument(b),
                PrepareArgumentPadded => m = m.prepare_argument_padded(b),
                Correlate => void!(m.correlate(b, mat_arg.as_ref().unwrap())),
                Interpolatef => op.resp.with_time::<T, _>(|f| m.interpolatef(b, f, op.x, op.y, op.n)),
                Interpolatei => void!(op.resp.with_freq::<T, _>(|f| m.interpolatei(b, f, op.n as u32))),
                Interpolate => {
                    if op.has_resp {
                        void!(op.resp.with_freq::<T, _>(|f| m.interpolate(b, Some(f), op.n, op.y)))
                    } else {
                        void!(m.interpolate(b, None, op.n, op.y))
                    }
                }
                Interpft => m.interpft(b, op.n),
                InterpolateLin => m.interpolate_lin(b, op.x, op.y),
                InterpolateHermite => m.interpolate_hermite(b, op.x, op.y),
                ConvolveReal => op.resp.with_time::<T, _>(|f| m.convolve(b, f, op.x, op.n)),
                ConvolveComplex => {
                    let f: &dyn ComplexImpulseResponse<T> = &op.resp;
                    m.convolve(b, f, op.x, op.n);
                }
                ConvolveSignal => void!(m.convolve_signal(b, vec_arg.as_ref().unwrap())),
                _ => unreachable!(),
            }
            // Matrices consist of the rows which they give out.
            assert_eq!(m.col_len(), n);
            let states: Vec<State<T>> = m.rows().iter().map(state).collect();
            let (rows, len) = m.get();
            assert_eq!(len, if n > 0 { states[0].data.len() } else { 0 });
            for (r, s) in rows.iter().zip(&states) {
                assert_eq!(r.data(..).len(), s.data.len());
            }
            Done {
                err,
                rows: states.into_iter().zip(outs).collect(),
            }
        }

        fn $meta(n: usize, g: &mut G) -> R {
            type T = $t;
            let cplx = g.bool();
            let s = if cplx { 2 } else { 1 };
            let dom = *g.pick(&[DataDomain::Time, DataDomain::Frequency]);
            // The storages may have an odd length.
            let len = g.len(0, 60) ;
            let content: Vec<Vec<T>> = (0..n).map(|_| data::draw(g, len, data::FINITE)).collect();
            let storages: Vec<Vec<T>> = content.clone();
            let mut m = collection!($shape, storages).to_gen_dsp_mat(cplx, dom);
            let usable = if cplx && len % 2 == 1 { 0 } else { len };
            ensure!(m.col_len() == n && m.rows().len() == n && m.rows_mut().len() == n, "{} rows instead of {}", m.rows().len(), n);
            macro_rules! look {
                ($what:expr, $len:expr, $delta:expr) => {{
                    let want: usize = if n == 0 { 0 } else { $len };
                    ensure!(m.row_len() == want, "{}: rows have {} elements instead of {}", $what, m.row_len(), want);
                    ensure!(m.row_points() == want / s, "{}: rows have {} points", $what, m.row_points());
                    if n > 0 {
                        ensure!(m.is_complex() == cplx && m.domain() == dom, "{}: complex {} domain {:?}", $what, m.is_complex(), m.domain());
                        ensure!(m.delta().v() == $delta, "{}: delta {}", $what, m.delta());
                    }
                    for r in m.rows() {
                        ensure!(r.len() == want && r.is_complex() == cplx && r.domain() == dom && r.delta().v() == $delta, "{}: a row is different", $what);
                    }
                }};
            }
            look!("a new matrix", usable, 1.0);
            for (r, c) in m.rows().iter().zip(&content) {
                all_same("a row", r.data(..), &c[..usable])?;
            }
            let delta = *g.pick(&[0.5, 3.0, 0.125]);
            m.set_delta(T::of(delta));
            look!("after set_delta", usable, delta);
            let new = g.len(0, 80);
            let res = m.resize(new);
            let refused = cplx && new % 2 == 1 && n > 0;
            ensure!(res.is_err() == refused, "resize from {} to {} gave {:?}", usable, new, res);
            let now = if refused { usable } else { new };
            look!("after resize", now, delta);
            for (r, c) in m.rows().iter().zip(&content) {
                let k = now.min(usable);
                all_same("a row after resize", &r.data(..)[..k], &c[..k])?;
            }
            for (i, r) in m.rows_mut().iter_mut().enumerate() {
                for x in r.data_mut(..) {
                    *x = T::of(i as f64);
                }
            }
            let (rows, l) = m.get();
            ensure!(n == 0 || l == now, "get returned {} elements instead of {}", l, now);
            ensure!(rows.len() == n, "get returned {} rows", rows.len());
            for (i, r) in rows.iter().enumerate() {
                ensure!(r.data(..).iter().all(|x| x.v() == i as f64), "row {} isn't what was written", i);
            }
            ok(n > 1 && len > 1, format!("meta data {} rows", n))
        }

        fn $set(n: usize, g: &mut G) -> R {
            type T = $t;
            let points = g.len(0, 60);
            let polar = g.bool();
            let dom = *g.pick(&[DataDomain::Time, DataDomain::Frequency]);
            let first: Vec<Vec<T>> = (0..n).map(|_| data::draw(g, points, data::TAME)).collect();
            // Now and then an argument the rows refuse.
            let bad = g.below(12);
            let second: Vec<Vec<T>> = (0..n).map(|_| data::draw(g, if bad == 0 { points + 1 } else { points }, data::TAME)).collect();
            let old = g.len(0, 30) * 2;
            let begin: Vec<Vec<T>> = (0..n).map(|_| data::draw(g, old, data::TAME)).collect();
            let vecs = |d: &Vec<Vec<T>>, c: bool| -> Vec<Row<T>> { d.iter().map(|x| vector(x, c, dom, T::of(0.5), 3)).collect() };
            let (a, b, c) = (vecs(&first, bad == 1 && points % 2 == 0), vecs(&second, false), vecs(&begin, true));
            let mut want: Vec<(State<T>, Result<(), ErrorReason>)> = vec![];
            for i in 0..n {
                let mut v = c[i].clone();
                let r = if polar { v.set_mag_phase(&a[i], &b[i]) } else { v.set_real_imag(&a[i], &b[i]) };
                want.push((state(&v), r));
            }
            let (a, b) = (build!($shape, a), build!($shape, b));
            let mut m = build!($shape, c);
            let r = if polar { m.set_mag_phase(&a, &b) } else { m.set_real_imag(&a, &b) };
            let first_err = want.iter().filter_map(|w| w.1.err()).next();
            ensure!(r.err() == first_err, "the matrix reported {:?}, the rows {:?}", r, first_err);
            if first_err.is_none() {
                for (i, (v, w)) in m.rows().iter().zip(&want).enumerate() {
                    let (v, w) = (state(v), &w.0);
                    ensure!(v.cplx == w.cplx && v.dom == w.dom && v.delta.bits() == w.delta.bits(), "row {}: meta data", i);
                    all_same(&format!("row {}", i), &v.data, &w.data)?;
                }
            }
            ok(n > 1 && points > 0, format!("set {} rows {}", n, if first_err.is_some() { "refused" } else { "" }))
        }

        fn $mix(n: usize, g: &mut G) -> R {
            type T = $t;
            let fixed = stringify!($shape) != "MatrixMxN";
            let cplx = g.bool();
            let s = if cplx { 2 } else { 1 };
            let points = g.len(1, if g.thorough { 400 } else { 60 });
            let taps = match g.below(4) {
                0 => g.range(1, points.min(3)),
                1 => points,
                _ => g.range(1, points),
            };
            let kinds = &[data::Kind::Uniform, data::Kind::SmallInts, data::Kind::Sparse, data::Kind::Ramp];
            let delta: T = data::delta(g);
            let rows: Vec<State<T>> = (0..n)
                .map(|_| State { data: data::draw(g, points * s, kinds), cplx, dom: DataDomain::Time, delta })
                .collect();
            let mut h: Vec<Vec<State<T>>> = (0..n)
                .map(|_| {
                    (0..n)
                        .map(|_| State { data: data::draw(g, taps * s, kinds), cplx, dom: DataDomain::Time, delta })
                        .collect()
                })
                .collect();
            let mut begin = rows.clone();
            // One of the arguments is wrong.
            let (i, k) = (g.below(n.max(1) as u64) as usize, g.below(n.max(1) as u64) as usize);
            let bad = if n == 0 { 99 } else { g.below(24) };
            let mut reason: Vec<ErrorReason> = vec![];
            match bad {
                0 => {
                    h[i][k].dom = DataDomain::Frequency;
                    reason = vec![ErrorReason::InputMetaDataMustAgree, ErrorReason::InputMustBeInTimeDomain];
                }
                1 => {
                    h[i][k].cplx = !cplx;
                    if cplx {
                        h[i][k].data.truncate(taps);
                    } else {
                        let d = h[i][k].data.clone();
                        h[i][k].data.extend(d);
                    }
                    reason = vec![ErrorReason::InputMetaDataMustAgree, ErrorReason::InvalidArgumentLength];
                }
                2 => {
                    h[i][k].delta = delta * T::of(2.0);
                    reason = vec![ErrorReason::InputMetaDataMustAgree];
                }
                3 => {
                    for a in h.iter_mut() {
                        for b in a.iter_mut() {
                            b.data = vec![T::of(1.0); (points + 1) * s];
                        }
                    }
                    reason = vec![ErrorReason::InvalidArgumentLength];
                }
                4 if n > 1 => {
                    let l = h[i][k].data.len();
                    h[i][k].data.truncate(l - s);
                    reason = vec![ErrorReason::InvalidArgumentLength];
                }
                5 if !fixed => {
                    if g.bool() {
                        h[i].pop();
                    } else {
                        h.pop();
                    }
                    reason = vec![ErrorReason::InvalidArgumentLength];
                }
                6 => {
                    for r in begin.iter_mut() {
                        r.dom = DataDomain::Frequency;
                    }
                    let all = g.bool();
                    if all {
                        for a in h.iter_mut() {
                            for b in a.iter_mut() {
                                b.dom = DataDomain::Frequency;
                            }
                        }
                        reason = vec![ErrorReason::InputMustBeInTimeDomain];
                    } else {
                        reason = vec![ErrorReason::InputMustBeInTimeDomain, ErrorReason::InputMetaDataMustAgree];
                    }
                }
                7 if n > 1 => {
                    let l = begin[i].data.len();
                    begin[i].data.truncate(l - s);
                    reason = vec![ErrorReason::InvalidArgumentLength];
                }
                _ => (),
            }
            let stale = g.below(4) as usize;
            let vecs: Vec<Row<T>> = begin.iter().map(|r| make(r, stale)).collect();
            let resp: Vec<Vec<Row<T>>> = h.iter().map(|a| a.iter().map(|r| make(r, stale)).collect()).collect();
            let mut buf = SingleBuffer::new();
            if g.bool() {
                // The buffer was used before.
                let mut v = vec![T::of(7.0); points * s * n + 8].to_complex_time_vec();
                v = v.plain_fft(&mut buf).ifft(&mut buf);
                drop(v);
            }
            let mut m = build!($shape, vecs);
            let r = mix_responses!($shape, m, buf, &resp);
            let desc = format!("{} rows of {} points, {} taps, complex: {}", n, points, taps, cplx);
            if !reason.is_empty() {
                match r {
                    Ok(()) => fail!("{}: invalid argument ({}) was accepted", desc, bad),
                    Err(e) => ensure!(reason.contains(&e), "{}: reported {:?} instead of {:?}", desc, e, reason),
                }
                for (v, w) in m.rows().iter().zip(&begin) {
                    all_same("a row after an error", v.data(..), &w.data)?;
                }
                return ok(true, format!("mix refused {}", bad));
            }
            ensure!(r.is_ok(), "{}: {:?}", desc, r);
            for q in 0..n {
                // By its definition: the response is centered at (taps - 1) / 2.
                let mut want = vec![0.0f64; points * s];
                let mut mass = 0.0f64;
                let center = (taps - 1) / 2;
                for k in 0..n {
                    for p in 0..points {
                        for j in 0..taps {
                            let src = ((p + center + points * 2) as isize - j as isize).rem_euclid(points as isize) as usize;
                            if cplx {
                                let (a, b) = (rows[k].data[2 * src].v(), rows[k].data[2 * src + 1].v());
                                let (c, d) = (h[q][k].data[2 * j].v(), h[q][k].data[2 * j + 1].v());
                                want[2 * p] += a * c - b * d;
                                want[2 * p + 1] += a * d + b * c;
                            } else {
                                want[p] += rows[k].data[src].v() * h[q][k].data[j].v();
                            }
                        }
                    }
                    mass += max_abs(&rows[k].data) * h[q][k].data.iter().map(|x| x.v().abs()).sum::<f64>();
                }
                let v = &m.rows()[q];
                ensure!(v.len() == points * s && v.is_complex() == cplx && v.domain() == DataDomain::Time && v.delta().bits() == delta.bits(), "{}: row {}: meta data changed", desc, q);
                for (p, (x, w)) in v.data(..).iter().zip(&want).enumerate() {
                    ensure!((x.v() - w).abs() <= 16.0 * T::EPS * (mass + w.abs()), "{}: row {} element {} is {} instead of {}", desc, q, p, x, w);
                }
            }
            ok(n > 1 && points > 1, format!("mix {} rows {}", n, if cplx { "complex" } else { "real" }))
        }

        fn $typed(n: usize, g: &mut G) -> R {
            type T = $t;
            let len = g.len(0, 40);
            let content: Vec<Vec<T>> = (0..n).map(|_| data::draw(g, len, data::TAME)).collect();
            let mut buf = SingleBuffer::new();
            let class;
            macro_rules! same {
                ($m:expr, $rows:expr) => {{
                    ensure!($m.rows().len() == n, "{} rows instead of {}", $m.rows().len(), n);
                    for (i, (a, b)) in $m.rows().iter().zip($rows.iter()).enumerate() {
                        ensure!(a.is_complex() == b.is_complex() && a.domain() == b.domain() && a.delta().bits() == b.delta().bits(), "row {}: meta data", i);
                        ensure!(a.len() == b.len(), "row {}: {} elements instead of {}", i, a.len(), b.len());
                        let scale = b.data(..).iter().map(|x| x.v().abs()).filter(|x| x.is_finite()).sum::<f64>();
                        for (x, y) in a.data(..).iter().zip(b.data(..)) {
                            ensure!(near(x.v(), y.v(), 8.0 * T::EPS * scale), "row {}: {} instead of {}", i, x, y);
                        }
                    }
                }};
            }
            let stor = content.clone();
            match g.below(6) {
                0 => {
                    class = "real time";
                    let mut m = collection!($shape, stor).to_real_time_mat();
                    let mut rows: Vec<_> = content.iter().map(|c| c.clone().to_real_time_vec()).collect();
                    same!(m, rows);
                    both_ways!(m, rows, cum_sum);
                    both_ways!(m, rows, abs);
                    same!(m, rows);
                    let m = m.fft(&mut buf);
                    let rows: Vec<_> = rows.into_iter().map(|r| r.fft(&mut buf)).collect();
                    same!(m, rows);
                    let m = m.magnitude();
                    let rows: Vec<_> = rows.into_iter().map(|r| r.magnitude()).collect();
                    same!(m, rows);
                }
                1 => {
                    class = "real freq";
                    let mut m = collection!($shape, stor).to_real_freq_mat();
                    let mut rows: Vec<_> = content.iter().map(|c| c.clone().to_real_freq_vec()).collect();
                    same!(m, rows);
                    both_ways!(m, rows, reverse);
                    both_ways!(m, rows, square);
                    both_ways!(m, rows, diff_with_start);
                    same!(m, rows);
                    let r = m.sum();
                    for (x, v) in r.iter().zip(&rows) {
                        ensure!(near(x.v(), v.sum().v(), 8.0 * T::EPS * v.data(..).iter().map(|x| x.v().abs()).sum::<f64>()), "sums");
                    }
                    let m = match m.to_complex() {
                        Ok(m) => m,
                        Err((e, _)) => fail!("to_complex: {:?}", e),
                    };
                    let rows: Vec<_> = rows.into_iter().map(|r| r.to_complex().map_err(|e| e.0).unwrap()).collect();
                    same!(m, rows);
                }
                2 => {
                    class = "complex time";
                    let mut m = collection!($shape, stor).to_complex_time_mat();
                    let mut rows: Vec<_> = content.iter().map(|c| c.clone().to_complex_time_vec()).collect();
                    same!(m, rows);
                    both_ways!(m, rows, conj);
                    both_ways!(m, rows, swap_halves);
                    same!(m, rows);
                    let m = m.to_imag();
                    let rows: Vec<_> = rows.into_iter().map(|r| r.to_imag()).collect();
                    same!(m, rows);
                }
                3 => {
                    class = "complex freq";
                    let mut m = collection!($shape, stor).to_complex_freq_mat();
                    let mut rows: Vec<_> = content.iter().map(|c| c.clone().to_complex_freq_vec()).collect();
                    same!(m, rows);
                    both_ways!(m, rows, fft_shift);
                    both_ways!(m, rows, conj);
                    same!(m, rows);
                    let m = m.plain_ifft(&mut buf);
                    let rows: Vec<_> = rows.into_iter().map(|r| r.plain_ifft(&mut buf)).collect();
                    same!(m, rows);
                    let m = m.phase();
                    let rows: Vec<_> = rows.into_iter().map(|r| r.phase()).collect();
                    same!(m, rows);
                }
                4 => {
                    class = "rededicated";
                    let cplx = g.bool();
                    let dom = *g.pick(&[DataDomain::Time, DataDomain::Frequency]);
                    let m = collection!($shape, stor).to_gen_dsp_mat(cplx, dom);
                    let rows: Vec<_> = content.iter().map(|c| c.clone().to_gen_dsp_vec(cplx, dom)).collect();
                    if g.bool() {
                        let m: $shape<RealTimeVec<Vec<T>, T>, Vec<T>, T> = RededicateForceOps::rededicate_from_force(m);
                        let rows: Vec<RealTimeVec<Vec<T>, T>> =
                            rows.into_iter().map(|r| RealTimeVec::<Vec<T>, T>::rededicate_from_force(r)).collect();
                        same!(m, rows);
                    } else {
                        let m: $shape<ComplexFreqVec<Vec<T>, T>, Vec<T>, T> = RededicateForceOps::rededicate_from_force(m);
                        let rows: Vec<ComplexFreqVec<Vec<T>, T>> =
                            rows.into_iter().map(|r| ComplexFreqVec::<Vec<T>, T>::rededicate_from_force(r)).collect();
                        same!(m, rows);
                    }
                }
                _ => {
                    class = "run-time data";
                    let cplx = g.bool();
                    let dom = *g.pick(&[DataDomain::Time, DataDomain::Frequency]);
                    let m = collection!($shape, stor).to_real_time_mat();
                    let rows: Vec<_> = content.iter().map(|c| c.clone().to_real_time_vec()).collect();
                    let m: $shape<Row<T>, Vec<T>, T> = RededicateForceOps::rededicate_with_runtime_data(m, cplx, dom);
                    let rows: Vec<Row<T>> = rows
                        .into_iter()
                        .map(|r| <Row<T> as RededicateForceOps<_>>::rededicate_with_runtime_data(r, cplx, dom))
                        .collect();
                    same!(m, rows);
                }
            }
            ok(n > 1 && len > 1, format!("typed {} {} rows", class, n))
        }
    };
}

/// Results of precise operations come in the type of their collection.
fn same_type<C>(_: C, c: C) -> C {
    c
}

macro_rules! mat {
    ($t:ident) => {
        mod $t {
            use super::*;
            matrix_fns!($t, MatrixMxN, run_m, meta_m, set_m, mix_m, typed_m);
            matrix_fns!($t, Matrix2xN, run_2, meta_2, set_2, mix_2, typed_2);
            matrix_fns!($t, Matrix3xN, run_3, meta_3, set_3, mix_3, typed_3);
            matrix_fns!($t, Matrix4xN, run_4, meta_4, set_4, mix_4, typed_4);

            impl Mat for $t {
                fn run(shape: usize, ops: &[Op<$t>], rows: Vec<Row<$t>>, matrix: bool) -> Done<$t> {
                    match shape {
                        0 => run_m(ops, rows, matrix),
                        2 => run_2(ops, rows, matrix),
                        3 => run_3(ops, rows, matrix),
                        _ => run_4(ops, rows, matrix),
                    }
                }

                fn meta(shape: usize, g: &mut G) -> R {
                    match shape {
                        0 => {
                            let n = g.range(0, 6);
                            meta_m(n, g)
                        }
                        2 => meta_2(2, g),
                        3 => meta_3(3, g),
                        _ => meta_4(4, g),
                    }
                }

                fn set(shape: usize, g: &mut G) -> R {
                    match shape {
                        0 => {
                            let n = g.range(0, 6);
                            set_m(n, g)
                        }
                        2 => set_2(2, g),
                        3 => set_3(3, g),
                        _ => set_4(4, g),
                    }
                }

                fn mix(shape: usize, g: &mut G) -> R {
                    match shape {
                        0 => {
                            let n = g.range(0, 6);
                            mix_m(n, g)
                        }
                        2 => mix_2(2, g),
                        3 => mix_3(3, g),
                        _ => mix_4(4, g),
                    }
                }

                fn typed(shape: usize, g: &mut G) -> R {
                    match shape {
                        0 => {
                            let n = g.range(1, 6);
                            typed_m(n, g)
                        }
                        2 => typed_2(2, g),
                        3 => typed_3(3, g),
                        _ => typed_4(4, g),
                    }
                }
            }
        }
    };
}

mat!(f32);
mat!(f64);

/// Every operation of matrices compared with the one of vectors on each row.
fn rows<T: Mat>(g: &mut G) -> R {
    let mut id = *g.pick(ALL_IDS);
    while !supported(id) {
        id = *g.pick(ALL_IDS);
    }
    let shape = *g.pick(&[0, 2, 3, 4]);
    let n = if shape == 0 { g.range(0, 6) } else { shape };
    let (c, d) = id.wants();
    let cplx = if g.chance(1, 20) { g.bool() } else { c.unwrap_or_else(|| g.bool()) };
    let dom = if g.chance(1, 20) { None } else { d }.unwrap_or_else(|| *g.pick(&[DataDomain::Time, DataDomain::Frequency]));
    let s = if cplx { 2 } else { 1 };
    let max = if g.thorough { 400 } else { 80 };
    let mut points = g.len(0, max / s);
    if id.symmetric() && !cplx && points % 2 == 0 && g.chance(3, 4) {
        points += 1;
    }
    let delta: T = data::delta(g);
    let op = Op::draw(g, id, cplx, dom, points, delta);
    let matrix = takes_matrix(id) && (!takes_vector(id) || g.bool());
    let mut ops: Vec<Op<T>> = vec![];
    let mut starts: Vec<State<T>> = vec![];
    let ragged = g.chance(1, 10);
    for _ in 0..n.max(1) {
        // Rows of another length than the first one are unusual, but possible.
        let k = if ragged { g.len(0, max / s) } else { points };
        let mut data: Vec<T> = data::draw(g, k * s, data::FINITE);
        suit(&op, &mut data);
        let mut o = op.clone();
        if id == Id::Resize {
            o.m = k * s;
        }
        if matrix {
            let l = o.args[0].data.len();
            o.args[0].data = data::draw(g, l, data::TAME);
        }
        ops.push(o);
        starts.push(State { data, cplx, dom, delta });
    }
    if n == 0 {
        starts.clear();
    }
    let stale = g.below(3) as usize * 4;
    let got = T::run(shape, &ops, starts.iter().map(|s| make(s, stale)).collect(), matrix);
    ensure!(got.rows.len() == n, "{}: {} rows instead of {}", op.describe(), got.rows.len(), n);
    let mut first_err = None;
    let mut errs = vec![];
    let mut wants = vec![];
    for (s, o) in starts.iter().zip(&ops) {
        let want = outcome(o, s, &plain(), room_for(s.data.len()))?;
        if let Some(e) = want.1.err {
            errs.push(e);
            if first_err.is_none() {
                first_err = Some(e);
            }
        }
        wants.push(want);
    }
    match got.err {
        None => ensure!(errs.is_empty(), "{} of {} rows: the rows report {:?}, the matrix no error", op.describe(), n, errs),
        Some(e) => ensure!(errs.contains(&e), "{} of {} rows: the rows report {:?}, the matrix {:?}", op.describe(), n, errs, e),
    }
    for (i, (got, want)) in got.rows.into_iter().zip(wants.into_iter()).enumerate() {
        let (mut got, mut want) = (got, want);
        if !errs.is_empty() {
            // The operation stops at the first row which refuses it, so that the others are either
            // processed or not.
            let before = &starts[i];
            let same = got.0.cplx == before.cplx && got.0.dom == before.dom && all_same("", &got.0.data, &before.data).is_ok();
            if same {
                continue;
            }
            want.1 = out();
            got.1 = out();
        }
        if let Err(e) = agree(&ops[i], &starts[i].data, &got, &want) {
            fail!("{} of {} rows of {} points, {}: row {}: {}", op.describe(), n, points, if matrix { "matrix argument" } else { "" }, i, e);
        }
    }
    ok(n > 1 && points > 0, format!("{:?} {} rows{}{}", id, n, if matrix { " matrix" } else { "" }, if errs.is_empty() { "" } else { " refused" }))
}

fn shape(g: &mut G) -> usize {
    *g.pick(&[0, 2, 3, 4])
}

fn meta<T: Mat>(g: &mut G) -> R {
    let s = shape(g);
    T::meta(s, g)
}

fn set<T: Mat>(g: &mut G) -> R {
    let s = shape(g);
    T::set(s, g)
}

fn mix<T: Mat>(g: &mut G) -> R {
    let s = shape(g);
    T::mix(s, g)
}

fn typed<T: Mat>(g: &mut G) -> R {
    let s = shape(g);
    T::typed(s, g)
}

fn main() {
    let mut s = vec![];
    both!(&mut s, "rows", 60000, rows);
    both!(&mut s, "meta data", 6000, meta);
    both!(&mut s, "setters", 6000, set);
    both!(&mut s, "mixing convolution", 12000, mix);
    both!(&mut s, "typed matrices", 8000, typed);
    vharness::main(
        "C24",
        "shape, number and length of rows, contents, operation and arguments are drawn; non-trivial: several rows with points",
        s,
    );
}

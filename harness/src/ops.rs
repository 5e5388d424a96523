//! A catalogue of the operations of a vector, so that checks can run any of them in different
//! circumstances and compare what comes out.
use crate::g::G;
use crate::mem::{Guarded, Store};
use crate::runner::Fail;
use crate::num::Num;
use crate::resp::Resp;
use crate::win::Win;
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::numbers::{Complex, RealNumber};
use basic_dsp_vector::*;

macro_rules! ids {
    ($($name:ident),* $(,)*) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
        pub enum Id { $($name),* }
        pub const ALL_IDS: &[Id] = &[$(Id::$name),*];
    };
}

ids!(
    // Element-wise
    Scale, ScaleC, Offset, OffsetC, Add, Sub, Mul, Div, AddSmaller, SubSmaller, MulSmaller, DivSmaller,
    Sqrt, Square, Root, Powf, Ln, Exp, Log, Expf, Sin, Cos, Tan, Asin, Acos, Atan, Sinh, Cosh, Tanh,
    Asinh, Acosh, Atanh, Abs, Wrap, Unwrap, LnApprox, ExpApprox, SinApprox, CosApprox, LogApprox,
    ExpfApprox, PowfApprox, MapInplace, MapInplaceC, Conj, ComplexExponential,
    // Reorganizing
    Reverse, SwapHalves, ZeroPad, ZeroPadB, ZeroInterleave, ZeroInterleaveB, Diff, DiffWithStart, CumSum,
    Decimatei, Resize, ResizeB,
    // Conversions
    Magnitude, MagnitudeSquared, ToReal, ToImag, Phase, MagnitudeB, MagnitudeSquaredB, ToRealB, ToImagB, PhaseB,
    ToComplex, ToComplexB,
    // Scalars
    Sum, SumC, SumSq, SumSqC, SumPrec, SumPrecC, SumSqPrec, SumSqPrecC, Dot, DotC, DotPrec, DotPrecC,
    Statistics, StatisticsC, StatisticsPrec, StatisticsPrecC, StatisticsSplit, StatisticsSplitC,
    StatisticsSplitPrec, StatisticsSplitPrecC, MapAggregate, MapAggregateC,
    // Getters
    GetReal, GetImag, GetMagnitude, GetMagnitudeSquared, GetPhase, GetRealImag, GetMagPhase,
    // Transforms
    PlainFft, Fft, WindowedFft, PlainSfft, Sfft, WindowedSfft, PlainIfft, Ifft, WindowedIfft, PlainSifft,
    Sifft, WindowedSifft, FftShift, IfftShift, Mirror, ApplyWindow, UnapplyWindow,
    // Filters
    FreqResponse, FreqResponseC, PrepareArgument, PrepareArgumentPadded, Correlate,
    Interpolatef, Interpolatei, Interpolate, Interpft, InterpolateLin, InterpolateHermite,
    // Only with storages which can be cloned
    ConvolveReal, ConvolveComplex, ConvolveSignal, SplitInto, Merge,
);

/// What the result of an operation is compared with.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Exactness {
    /// Bit for bit.
    Exact,
    /// Each point to within some rounding errors of it.
    Points,
    /// To within the rounding errors of the largest intermediate result.
    Global,
    /// As good as an approximation is.
    Approximate,
}

impl Id {
    pub fn exactness(self) -> Exactness {
        use self::Id::*;
        match self {
            MulSmaller | Mul | Div | DivSmaller | ScaleC | Square | Magnitude | MagnitudeSquared | MagnitudeB
            | MagnitudeSquaredB | GetMagnitude | GetMagnitudeSquared | GetMagPhase
            | Phase | PhaseB | GetPhase | Sqrt => Exactness::Points,
            ComplexExponential | Sum | SumC | SumSq | SumSqC | SumPrec | SumPrecC | SumSqPrec | SumSqPrecC | Dot | DotC | DotPrec
            | DotPrecC | Statistics | StatisticsC | StatisticsPrec | StatisticsPrecC | StatisticsSplit
            | StatisticsSplitC | StatisticsSplitPrec | StatisticsSplitPrecC | MapAggregate | MapAggregateC
            | PlainFft | Fft | WindowedFft | PlainSfft | Sfft | WindowedSfft | PlainIfft | Ifft | WindowedIfft
            | PlainSifft | Sifft | WindowedSifft | ApplyWindow | UnapplyWindow | FreqResponse | FreqResponseC
            | PrepareArgument | PrepareArgumentPadded | Correlate | Interpolatef | Interpolatei | Interpolate
            | Interpft | InterpolateLin | InterpolateHermite | ConvolveReal | ConvolveComplex | ConvolveSignal => {
                Exactness::Global
            }
            LnApprox | ExpApprox | SinApprox | CosApprox | LogApprox | ExpfApprox | PowfApprox => {
                Exactness::Approximate
            }
            _ => Exactness::Exact,
        }
    }

    pub fn needs_clone(self) -> bool {
        use self::Id::*;
        match self {
            ConvolveReal | ConvolveComplex | ConvolveSignal | SplitInto | Merge => true,
            _ => false,
        }
    }

    /// Whether the operation takes a buffer.
    pub fn buffered(self) -> bool {
        use self::Id::*;
        match self {
            ZeroPadB | ZeroInterleaveB | ResizeB | MagnitudeB | MagnitudeSquaredB | ToRealB | ToImagB | PhaseB
            | ToComplexB | PlainFft | Fft | WindowedFft | PlainSfft | Sfft | WindowedSfft | PlainIfft | Ifft
            | WindowedIfft | PlainSifft | Sifft | WindowedSifft | Mirror | PrepareArgument
            | PrepareArgumentPadded | Correlate | Interpolatef | Interpolatei | Interpolate | Interpft
            | InterpolateLin | InterpolateHermite | ConvolveReal | ConvolveComplex | ConvolveSignal => true,
            _ => false,
        }
    }

    /// The argument has to be a vector.
    pub fn binary(self) -> bool {
        use self::Id::*;
        match self {
            Add | Sub | Mul | Div | AddSmaller | SubSmaller | MulSmaller | DivSmaller | Dot | DotC | DotPrec
            | DotPrecC | Correlate | ConvolveSignal => true,
            _ => false,
        }
    }

    /// The number space and domain the operation is meant for: None if any will do.
    pub fn wants(self) -> (Option<bool>, Option<DataDomain>) {
        use self::Id::*;
        let t = Some(DataDomain::Time);
        let f = Some(DataDomain::Frequency);
        match self {
            ScaleC | OffsetC | MapInplaceC | Conj | ComplexExponential | Magnitude | MagnitudeSquared | ToReal
            | ToImag | Phase | MagnitudeB | MagnitudeSquaredB | ToRealB | ToImagB | PhaseB | SumC | SumSqC
            | SumPrecC | SumSqPrecC | DotC | DotPrecC | StatisticsC | StatisticsPrecC | StatisticsSplitC
            | StatisticsSplitPrecC | MapAggregateC | GetReal | GetImag | GetMagnitude | GetMagnitudeSquared
            | GetPhase | GetRealImag | GetMagPhase => (Some(true), None),
            Abs | Wrap | Unwrap | LnApprox | ExpApprox | SinApprox | CosApprox | LogApprox | ExpfApprox
            | PowfApprox | MapInplace | ToComplex | ToComplexB | Sum | SumSq | SumPrec | SumSqPrec | Dot
            | DotPrec | Statistics | StatisticsPrec | StatisticsSplit | StatisticsSplitPrec | MapAggregate
            | InterpolateLin | InterpolateHermite => (Some(false), None),
            PlainFft | Fft | WindowedFft | ApplyWindow | UnapplyWindow | Interpolatef | Interpolatei | Interpolate
            | Interpft | ConvolveReal | ConvolveSignal => (None, t),
            PlainSfft | Sfft | WindowedSfft => (Some(false), t),
            ConvolveComplex | PrepareArgument | PrepareArgumentPadded | Correlate => (Some(true), t),
            PlainIfft | Ifft | WindowedIfft | PlainSifft | Sifft | WindowedSifft | FftShift | IfftShift | Mirror
            | FreqResponseC => (Some(true), f),
            FreqResponse => (None, f),
            _ => (None, None),
        }
    }

    pub fn symmetric(self) -> bool {
        use self::Id::*;
        match self {
            PlainSfft | Sfft | WindowedSfft | PlainSifft | Sifft | WindowedSifft => true,
            _ => false,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Arg<T> {
    pub data: Vec<T>,
    pub cplx: bool,
    pub dom: DataDomain,
    pub delta: T,
    pub off: usize,
}

/// One operation with its arguments.
#[derive(Clone, Debug)]
pub struct Op<T> {
    pub id: Id,
    pub x: T,
    pub y: T,
    pub n: usize,
    pub m: usize,
    pub pad: usize,
    pub win: Win,
    pub resp: Resp,
    pub has_resp: bool,
    pub args: Vec<Arg<T>>,
}

/// What an operation reported.
#[derive(Clone, Debug, PartialEq)]
pub struct Out<T> {
    pub err: Option<ErrorReason>,
    pub scalars: Vec<f64>,
    pub indices: Vec<usize>,
    /// Other vectors: data, complex, domain, delta
    pub others: Vec<(Vec<T>, bool, DataDomain, T)>,
}

/// The state of a vector.
#[derive(Clone, Debug)]
pub struct State<T> {
    pub data: Vec<T>,
    pub cplx: bool,
    pub dom: DataDomain,
    pub delta: T,
}

pub fn state<S: ToSlice<T>, T: Num>(v: &GenDspVec<S, T>) -> State<T> {
    State {
        data: v.data(..).to_vec(),
        cplx: v.is_complex(),
        dom: v.domain(),
        delta: v.delta(),
    }
}

/// A step in a history.
#[derive(Clone, Debug)]
pub enum Step<T> {
    Run(Op<T>),
    /// The storage is used for a new vector.
    Load(State<T>),
}

fn other<S: ToSlice<T>, T: Num>(v: &GenDspVec<S, T>) -> (Vec<T>, bool, DataDomain, T) {
    (v.data(..).to_vec(), v.is_complex(), v.domain(), v.delta())
}

impl<T: Num> Op<T> {
    /// Draws the arguments of an operation for a vector of the given kind.
    pub fn draw(g: &mut G, id: Id, cplx: bool, dom: DataDomain, points: usize, delta: T) -> Op<T> {
        use self::Id::*;
        let s = if cplx { 2 } else { 1 };
        let mut op = Op {
            id,
            x: T::of(1.0),
            y: T::of(0.0),
            n: 1,
            m: 0,
            pad: 0,
            win: Win { kind: 2, par: 0.6 },
            resp: Resp { kind: 0, p: 0.5, q: 0.5 },
            has_resp: true,
            args: vec![],
        };
        match id {
            Scale | ScaleC | Offset | OffsetC => {
                op.x = T::of(g.float(-8.0, 8.0));
                op.y = T::of(g.float(-8.0, 8.0));
            }
            Root | Powf | PowfApprox => op.x = T::of(*g.pick(&[2.0, 3.0, 1.5, 0.5])),
            Log | Expf | LogApprox | ExpfApprox => op.x = T::of(*g.pick(&[2.0, 10.0, 1.5])),
            Wrap | Unwrap => op.x = T::of(*g.pick(&[2.0, 3.5, 6.28])),
            ComplexExponential => {
                op.x = T::of(g.float(-2.0, 2.0));
                op.y = T::of(g.float(-2.0, 2.0));
            }
            ZeroPad | ZeroPadB => {
                op.pad = g.below(3) as usize;
                op.n = match g.below(4) {
                    0 => points + 1 + g.below(10) as usize,
                    1 => points + 1 + g.below(points as u64 * 2 + 2) as usize,
                    2 => points * 2,
                    _ => g.below(points as u64 * 2 + 3) as usize,
                };
            }
            ZeroInterleave | ZeroInterleaveB => op.n = g.range(1, 4),
            Decimatei => {
                op.n = g.range(1, 5);
                op.m = g.below(op.n as u64 + 2) as usize;
            }
            Resize | ResizeB => {
                let n = match g.below(3) {
                    0 => g.below(points as u64 + 1) as usize,
                    1 => points + g.below(9) as usize,
                    _ => g.below(points as u64 * 2 + 2) as usize,
                };
                op.n = n * s + if cplx && g.chance(1, 8) { 1 } else { 0 };
                // The new elements are whatever the storage holds.
                op.m = points * s;
            }
            StatisticsSplit | StatisticsSplitC | StatisticsSplitPrec | StatisticsSplitPrecC => {
                op.n = if g.chance(1, 10) { g.below(20) as usize } else { g.range(1, 5) }
            }
            WindowedFft | WindowedSfft | WindowedIfft | WindowedSifft | ApplyWindow | UnapplyWindow => {
                op.win = Win::draw(g);
            }
            FreqResponse | FreqResponseC => {
                op.resp = Resp::draw(g, id == FreqResponseC).rounded::<T>();
                op.x = T::of(g.float(0.3, 3.0));
            }
            Interpolatef => {
                op.resp = Resp::draw(g, false).rounded::<T>();
                op.x = T::of(if g.bool() { g.range(1, 4) as f64 } else { g.float(0.5, 4.0) });
                op.y = T::of(if g.bool() { 0.0 } else { g.float(-1.0, 1.0) * delta.v().abs() });
                op.n = g.below((points / 2).min(30) as u64 + 1) as usize;
                let f = op.x.v();
                if f == f.round() && (points * s) as f64 * f >= 1998.0 {
                    // The direction of the delay depends on the path then: a finding recorded for C21.
                    op.y = T::of(0.0);
                }
            }
            Interpolatei => {
                op.resp = Resp::draw(g, false).rounded::<T>();
                op.n = g.range(0, 4);
            }
            Interpolate | Interpft => {
                op.resp = Resp::draw(g, false).rounded::<T>();
                op.has_resp = g.bool();
                op.n = 1 + g.below(points as u64 * 2 + 2) as usize;
                op.y = T::of(if g.bool() { 0.0 } else { g.float(-1.0, 1.0) * delta.v().abs() });
            }
            InterpolateLin | InterpolateHermite => {
                op.x = T::of(g.float(1.0, 4.0));
                op.y = T::of(if g.bool() { 0.0 } else { g.float(0.0, 1.0) });
            }
            ConvolveReal | ConvolveComplex => {
                op.resp = Resp::draw(g, id == ConvolveComplex).rounded::<T>();
                op.x = T::of(*g.pick(&[1.0, 0.5, 2.0, 0.8]));
                op.n = g.below((points / 2).min(30) as u64 + 1) as usize;
            }
            SplitInto | Merge => {
                op.n = g.range(1, 4);
                op.m = g.below(8) as usize;
            }
            GetReal | GetImag | GetMagnitude | GetMagnitudeSquared | GetPhase | GetRealImag | GetMagPhase => {
                // The room and the number of stale points of the destination
                op.m = g.below(points as u64 * 2 + 2) as usize;
            }
            MapInplace | MapInplaceC | MapAggregate | MapAggregateC => op.x = T::of(g.float(-2.0, 2.0)),
            _ => (),
        }
        if id.binary() {
            let n = match id {
                AddSmaller | SubSmaller | MulSmaller | DivSmaller => {
                    let d = *g.pick(&[1, 2, 3, 4]);
                    if points % d == 0 && points > 0 {
                        points / d
                    } else {
                        points.max(1)
                    }
                }
                ConvolveSignal => {
                    if g.chance(1, 12) {
                        points + 2
                    } else {
                        1 + g.below(points.max(1) as u64) as usize
                    }
                }
                Correlate => points + g.below(points as u64 + 1) as usize,
                _ => {
                    if g.chance(1, 12) {
                        points + 1
                    } else {
                        points
                    }
                }
            };
            let (mut ac, mut ad) = (cplx, dom);
            if id == Correlate {
                ad = DataDomain::Frequency;
            }
            let mut adelta = delta;
            match g.below(16) {
                13 => ac = !ac,
                14 => {
                    ad = if ad == DataDomain::Time { DataDomain::Frequency } else { DataDomain::Time }
                }
                15 => adelta = adelta * T::of(*g.pick(&[0.5, 2.0, 1.01])),
                _ => (),
            }
            let data = crate::data::draw(g, n * if ac { 2 } else { 1 }, crate::data::TAME);
            op.args.push(Arg {
                data,
                cplx: ac,
                dom: ad,
                delta: adelta,
                off: g.below(16) as usize,
            });
        }
        g.note(|| op.describe());
        op
    }

    pub fn describe(&self) -> String {
        format!(
            "{:?}(x {}, y {}, n {}, m {}, pad {}, {:?}, {:?}{}{})",
            self.id,
            self.x,
            self.y,
            self.n,
            self.m,
            self.pad,
            self.win,
            self.resp,
            if self.has_resp { "" } else { " not used" },
            self.args
                .iter()
                .map(|a| format!(", argument: {} elements, complex: {}, {:?}, delta {}", a.data.len(), a.cplx, a.dom, a.delta))
                .collect::<Vec<_>>()
                .join("")
        )
    }

    /// How large intermediate results may get, which decides about rounding errors.
    pub fn scale(&self, data: &[T]) -> f64 {
        use self::Id::*;
        let s: f64 = data.iter().map(|x| x.v().abs()).filter(|x| x.is_finite()).sum();
        let s2: f64 = data.iter().map(|x| x.v() * x.v()).filter(|x| x.is_finite()).sum();
        let a: f64 = self.args.iter().map(|a| a.data.iter().map(|x| x.v().abs()).sum::<f64>()).sum();
        match self.id {
            SumSq | SumSqC | SumSqPrec | SumSqPrecC => s2,
            Statistics | StatisticsC | StatisticsPrec | StatisticsPrecC | StatisticsSplit | StatisticsSplitC
            | StatisticsSplitPrec | StatisticsSplitPrecC => s + s2.sqrt(),
            Dot | DotC | DotPrec | DotPrecC => s * crate::cmp::max_abs(&self.args[0].data),
            ConvolveSignal | Correlate => s * (a + 1.0),
            UnapplyWindow => s * 1e6,
            _ => s * 64.0,
        }
    }
}

macro_rules! num {
    ($o:expr, $r:expr) => {
        $o.scalars.push(($r).v())
    };
}
macro_rules! cnum {
    ($o:expr, $r:expr) => {{
        let r = $r;
        $o.scalars.push(r.re.v());
        $o.scalars.push(r.im.v());
    }};
}
macro_rules! res {
    ($o:expr, $r:expr, $m:ident) => {
        match $r {
            Ok(r) => $m!($o, r),
            Err(e) => $o.err = Some(e),
        }
    };
}
macro_rules! stats {
    ($o:expr, $r:expr, $m:ident) => {{
        let s = $r;
        $m!($o, s.sum);
        $m!($o, s.average);
        $m!($o, s.rms);
        $m!($o, s.min);
        $m!($o, s.max);
        $o.indices.push(s.count);
        // Of several occurrences any may be reported.
    }};
}
macro_rules! split {
    ($o:expr, $r:expr, $m:ident) => {
        match $r {
            Ok(r) => {
                $o.indices.push(r.len());
                for s in &r[..] {
                    stats!($o, s.clone(), $m);
                }
            }
            Err(e) => $o.err = Some(e),
        }
    };
}
/// Applies an operation. The storage is generic: operations which need to clone it, do nothing.
pub fn apply<S, T, B>(op: &Op<T>, mut v: GenDspVec<S, T>, b: &mut B) -> (GenDspVec<S, T>, Out<T>)
where
    T: Num,
    S: ToSliceMut<T> + ToComplexVector<S, T> + ToDspVector<T>,
    B: for<'a> Buffer<'a, S, T>,
{
    use self::Id::*;
    let mut out = Out {
        err: None,
        scalars: vec![],
        indices: vec![],
        others: vec![],
    };
    let mut guard = op.args.get(0).map(|a| Guarded::new(&a.data, a.off));
    let mut empty: [T; 0] = [];
    let mut arg = match guard {
        Some(ref mut guard) => {
            let a = &op.args[0];
            let mut arg = guard.slice().to_gen_dsp_vec(a.cplx, a.dom);
            arg.set_delta(a.delta);
            arg
        }
        None => (&mut empty[..]).to_gen_dsp_vec(false, DataDomain::Time),
    };
    let z = Complex::new(op.x, op.y);
    let pad = || match op.pad {
        0 => PaddingOption::End,
        1 => PaddingOption::Surround,
        _ => PaddingOption::Center,
    };
    macro_rules! void {
        ($r:expr) => {
            if let Err(e) = $r {
                out.err = Some(e);
            }
        };
    }
    macro_rules! trans {
        ($r:expr) => {
            match $r {
                Ok(r) => v = r,
                Err((e, r)) => {
                    out.err = Some(e);
                    v = r;
                }
            }
        };
    }
    match op.id {
        Scale => v.scale(op.x),
        ScaleC => v.scale(z),
        Offset => v.offset(op.x),
        OffsetC => v.offset(z),
        Add => void!(v.add(&arg)),
        Sub => void!(v.sub(&arg)),
        Mul => void!(v.mul(&arg)),
        Div => void!(v.div(&arg)),
        AddSmaller => void!(v.add_smaller(&arg)),
        SubSmaller => void!(v.sub_smaller(&arg)),
        MulSmaller => void!(v.mul_smaller(&arg)),
        DivSmaller => void!(v.div_smaller(&arg)),
        Sqrt => v.sqrt(),
        Square => v.square(),
        Root => v.root(op.x),
        Powf => v.powf(op.x),
        Ln => v.ln(),
        Exp => v.exp(),
        Log => v.log(op.x),
        Expf => v.expf(op.x),
        Sin => v.sin(),
        Cos => v.cos(),
        Tan => v.tan(),
        Asin => v.asin(),
        Acos => v.acos(),
        Atan => v.atan(),
        Sinh => v.sinh(),
        Cosh => v.cosh(),
        Tanh => v.tanh(),
        Asinh => v.asinh(),
        Acosh => v.acosh(),
        Atanh => v.atanh(),
        Abs => v.abs(),
        Wrap => v.wrap(op.x),
        Unwrap => v.unwrap(op.x),
        LnApprox => v.ln_approx(),
        ExpApprox => v.exp_approx(),
        SinApprox => v.sin_approx(),
        CosApprox => v.cos_approx(),
        LogApprox => v.log_approx(op.x),
        ExpfApprox => v.expf_approx(op.x),
        PowfApprox => v.powf_approx(op.x),
        MapInplace => MapInplaceOps::<T>::map_inplace(&mut v, op.x, &|x: T, i, a: T| x * a + T::of(i as f64)),
        MapInplaceC => MapInplaceOps::<Complex<T>>::map_inplace(&mut v, z, &|x: Complex<T>, i, a: Complex<T>| {
            Complex::new(x.im + a.re, x.re + T::of(i as f64))
        }),
        Conj => v.conj(),
        ComplexExponential => v.multiply_complex_exponential(op.x, op.y),
        Reverse => v.reverse(),
        SwapHalves => v.swap_halves(),
        ZeroPad => void!(v.zero_pad(op.n, pad())),
        ZeroPadB => void!(v.zero_pad_b(b, op.n, pad())),
        ZeroInterleave => void!(v.zero_interleave(op.n as u32)),
        ZeroInterleaveB => v.zero_interleave_b(b, op.n as u32),
        Diff => v.diff(),
        DiffWithStart => v.diff_with_start(),
        CumSum => v.cum_sum(),
        Decimatei => v.decimatei(op.n as u32, op.m as u32),
        Resize | ResizeB => {
            let r = if op.id == Resize { v.resize(op.n) } else { v.resize_b(b, op.n) };
            void!(r);
            // The content of new elements isn't specified.
            let l = v.len();
            if l > op.m {
                for x in v.data_mut(op.m..l) {
                    *x = T::of(0.0);
                }
            }
        }
        Magnitude => v = v.magnitude(),
        MagnitudeSquared => v = v.magnitude_squared(),
        ToReal => v = v.to_real(),
        ToImag => v = v.to_imag(),
        Phase => v = v.phase(),
        MagnitudeB => v = v.magnitude_b(b),
        MagnitudeSquaredB => v = v.magnitude_squared_b(b),
        ToRealB => v = v.to_real_b(b),
        ToImagB => v = v.to_imag_b(b),
        PhaseB => v = v.phase_b(b),
        ToComplex => trans!(v.to_complex()),
        ToComplexB => v = v.to_complex_b(b),
        Sum => num!(out, SumOps::<T>::sum(&v)),
        SumC => cnum!(out, SumOps::<Complex<T>>::sum(&v)),
        SumSq => num!(out, SumOps::<T>::sum_sq(&v)),
        SumSqC => cnum!(out, SumOps::<Complex<T>>::sum_sq(&v)),
        SumPrec | SumPrecC | SumSqPrec | SumSqPrecC | StatisticsPrec | StatisticsPrecC | StatisticsSplitPrec
        | StatisticsSplitPrecC => T::precise(op.id, op.n, &v, &mut out),
        Dot => {
            let r: ScalarResult<T> = DotProductOps::<_, T, T, _, _>::dot_product(&v, &arg);
            res!(out, r, num)
        }
        DotC => {
            let r: ScalarResult<Complex<T>> = DotProductOps::<_, Complex<T>, T, _, _>::dot_product(&v, &arg);
            res!(out, r, cnum)
        }
        DotPrec => {
            let r: ScalarResult<T> = PreciseDotProductOps::<_, T, T, _, _>::dot_product_prec(&v, &arg);
            res!(out, r, num)
        }
        DotPrecC => {
            let r: ScalarResult<Complex<T>> =
                PreciseDotProductOps::<_, Complex<T>, T, _, _>::dot_product_prec(&v, &arg);
            res!(out, r, cnum)
        }
        Statistics => stats!(out, StatisticsOps::<T>::statistics(&v), num),
        StatisticsC => stats!(out, StatisticsOps::<Complex<T>>::statistics(&v), cnum),
        StatisticsSplit => split!(out, StatisticsSplitOps::<T>::statistics_split(&v, op.n), num),
        StatisticsSplitC => split!(out, StatisticsSplitOps::<Complex<T>>::statistics_split(&v, op.n), cnum),
        MapAggregate => {
            let r: ScalarResult<T> =
                MapAggregateOps::<T, T>::map_aggregate(&v, op.x, &|x: T, i, a: T| x + a * T::of((i % 7) as f64), &|p: T, q: T| {
                    if p > q {
                        p
                    } else {
                        q
                    }
                });
            res!(out, r, num)
        }
        MapAggregateC => {
            let r: ScalarResult<T> = MapAggregateOps::<Complex<T>, T>::map_aggregate(
                &v,
                op.x,
                &|x: Complex<T>, i, a: T| x.re - x.im + a * T::of((i % 7) as f64),
                &|p: T, q: T| if p > q { p } else { q },
            );
            res!(out, r, num)
        }
        GetReal | GetImag | GetMagnitude | GetMagnitudeSquared | GetPhase | GetRealImag | GetMagPhase => {
            let n = v.points();
            let room: Vec<T> = (0..n + 5).map(|i| T::of(333.25 + i as f64)).collect();
            let mut g1 = Guarded::new(&room, op.m);
            let mut g2 = Guarded::new(&room, op.m / 2);
            {
                let mut d1 = g1.slice().to_gen_dsp_vec(false, v.domain());
                let mut d2 = g2.slice().to_gen_dsp_vec(false, v.domain());
                d1.resize(op.m.min(n + 5)).expect("shrinking works");
                d2.resize((op.m / 2).min(n + 5)).expect("shrinking works");
                match op.id {
                    GetReal => v.get_real(&mut d1),
                    GetImag => v.get_imag(&mut d1),
                    GetMagnitude => v.get_magnitude(&mut d1),
                    GetMagnitudeSquared => v.get_magnitude_squared(&mut d1),
                    GetPhase => v.get_phase(&mut d1),
                    GetRealImag => v.get_real_imag(&mut d1, &mut d2),
                    _ => v.get_mag_phase(&mut d1, &mut d2),
                }
                out.others.push(other(&d1));
                if op.id == GetRealImag || op.id == GetMagPhase {
                    out.others.push(other(&d2));
                }
            }
            g1.check().and_then(|_| g2.check()).expect("destination");
        }
        PlainFft => v = v.plain_fft(b),
        Fft => v = v.fft(b),
        WindowedFft => v = op.win.with::<T, _>(|w| v.windowed_fft(b, w)),
        PlainSfft => trans!(v.plain_sfft(b)),
        Sfft => trans!(v.sfft(b)),
        WindowedSfft => trans!(op.win.with::<T, _>(|w| v.windowed_sfft(b, w))),
        PlainIfft => v = v.plain_ifft(b),
        Ifft => v = v.ifft(b),
        WindowedIfft => v = op.win.with::<T, _>(|w| v.windowed_ifft(b, w)),
        PlainSifft => trans!(v.plain_sifft(b)),
        Sifft => trans!(v.sifft(b)),
        WindowedSifft => trans!(op.win.with::<T, _>(|w| v.windowed_sifft(b, w))),
        FftShift => v.fft_shift(),
        IfftShift => v.ifft_shift(),
        Mirror => v.mirror(b),
        ApplyWindow => op.win.with::<T, _>(|w| v.apply_window(w)),
        UnapplyWindow => op.win.with::<T, _>(|w| v.unapply_window(w)),
        FreqResponse => op.resp.with_freq::<T, _>(|f| v.multiply_frequency_response(f, op.x)),
        FreqResponseC => {
            let f: &dyn ComplexFrequencyResponse<T> = &op.resp;
            v.multiply_frequency_response(f, op.x)
        }
        PrepareArgument => v = v.prepare_argument(b),
        PrepareArgumentPadded => v = v.prepare_argument_padded(b),
        Correlate => void!(v.correlate(b, &arg)),
        Interpolatef => op.resp.with_time::<T, _>(|f| v.interpolatef(b, f, op.x, op.y, op.n)),
        Interpolatei => void!(op.resp.with_freq::<T, _>(|f| v.interpolatei(b, f, op.n as u32))),
        Interpolate => {
            if op.has_resp {
                void!(op.resp.with_freq::<T, _>(|f| v.interpolate(b, Some(f), op.n, op.y)))
            } else {
                void!(v.interpolate(b, None, op.n, op.y))
            }
        }
        Interpft => v.interpft(b, op.n),
        InterpolateLin => v.interpolate_lin(b, op.x, op.y),
        InterpolateHermite => v.interpolate_hermite(b, op.x, op.y),
        ConvolveReal | ConvolveComplex | ConvolveSignal | SplitInto | Merge => (),
    }
    drop(arg);
    if let Some(guard) = guard {
        assert_eq!(
            guard.get().iter().map(|x| x.bits()).collect::<Vec<_>>(),
            op.args[0].data.iter().map(|x| x.bits()).collect::<Vec<_>>(),
            "the argument changed"
        );
        guard.check().expect("argument");
    }
    (v, out)
}

/// Applies an operation to a vector whose storage can be cloned.
pub fn apply_owned<S, T, B>(op: &Op<T>, mut v: GenDspVec<S, T>, b: &mut B) -> (GenDspVec<S, T>, Out<T>)
where
    T: Num,
    S: ToSliceMut<T> + ToComplexVector<S, T> + ToDspVector<T> + Clone,
    B: for<'a> Buffer<'a, S, T>,
{
    use self::Id::*;
    let mut out = Out {
        err: None,
        scalars: vec![],
        indices: vec![],
        others: vec![],
    };
    match op.id {
        ConvolveReal => op.resp.with_time::<T, _>(|f| v.convolve(b, f, op.x, op.n)),
        ConvolveComplex => {
            let f: &dyn ComplexImpulseResponse<T> = &op.resp;
            v.convolve(b, f, op.x, op.n);
        }
        ConvolveSignal => {
            let a = &op.args[0];
            let storage: crate::mem::Array<T, 4096> = a.data.iter().cloned().collect();
            let mut arg = storage.to_gen_dsp_vec(a.cplx, a.dom);
            arg.set_delta(a.delta);
            out.err = v.convolve_signal(b, &arg).err();
        }
        SplitInto => {
            let mut parts: Vec<GenDspVec<S, T>> = (0..op.n).map(|_| v.clone()).collect();
            let len = v.len();
            for p in parts.iter_mut() {
                // Stale content
                let l = len.min(op.m - op.m % 2);
                p.resize(l).expect("shrinking works");
            }
            {
                let mut refs: Vec<&mut GenDspVec<S, T>> = parts.iter_mut().collect();
                out.err = v.split_into(&mut refs[..]).err();
            }
            if out.err.is_none() {
                for p in &parts {
                    out.others.push(other(p));
                }
            }
        }
        Merge => {
            // The parts are shortened copies: the result needs to fit into a fixed storage.
            let n = v.points() / op.n * if v.is_complex() { 2 } else { 1 };
            let mut parts: Vec<GenDspVec<S, T>> = vec![];
            for i in 0..op.n {
                let mut p = v.clone();
                p.scale(T::of(1.0 + i as f64));
                p.resize(n).expect("shrinking works");
                parts.push(p);
            }
            let refs: Vec<&GenDspVec<S, T>> = parts.iter().collect();
            out.err = v.merge(&refs[..]).err();
        }
        _ => return apply(op, v, b),
    }
    (v, out)
}

/// The catalogue for one number type. It's compiled once for all checks.
pub trait Catalogue: Sized {
    /// The more precise operations: they always come as f64.
    fn precise<S: ToSlice<Self>>(id: Id, n: usize, v: &GenDspVec<S, Self>, out: &mut Out<Self>)
    where
        Self: RealNumber;

    /// Runs a history of operations on a vector and a buffer. `next` yields the next step for
    /// the current state, `seen` gets to know what came out.
    fn history(
        start: &State<Self>,
        st: &Store,
        room: usize,
        next: &mut dyn FnMut(&State<Self>) -> Option<Step<Self>>,
        seen: &mut dyn FnMut(&Op<Self>, &State<Self>, &Out<Self>) -> Result<(), Fail>,
    ) -> Result<(), Fail>;
}

macro_rules! catalogue {
    ($t:ty) => {
        impl Catalogue for $t {
            fn precise<S: ToSlice<$t>>(id: Id, n: usize, v: &GenDspVec<S, $t>, out: &mut Out<$t>) {
                match id {
                    Id::SumPrec => num!(out, PreciseSumOps::<f64>::sum_prec(v)),
                    Id::SumPrecC => cnum!(out, PreciseSumOps::<Complex<f64>>::sum_prec(v)),
                    Id::SumSqPrec => num!(out, PreciseSumOps::<f64>::sum_sq_prec(v)),
                    Id::SumSqPrecC => cnum!(out, PreciseSumOps::<Complex<f64>>::sum_sq_prec(v)),
                    Id::StatisticsPrec => stats!(out, PreciseStatisticsOps::<f64>::statistics_prec(v), num),
                    Id::StatisticsPrecC => stats!(out, PreciseStatisticsOps::<Complex<f64>>::statistics_prec(v), cnum),
                    Id::StatisticsSplitPrec => {
                        split!(out, PreciseStatisticsSplitOps::<f64>::statistics_split_prec(v, n), num)
                    }
                    Id::StatisticsSplitPrecC => {
                        split!(out, PreciseStatisticsSplitOps::<Complex<f64>>::statistics_split_prec(v, n), cnum)
                    }
                    _ => unreachable!(),
                }
            }

            fn history(
                start: &State<$t>,
                st: &Store,
                room: usize,
                next: &mut dyn FnMut(&State<$t>) -> Option<Step<$t>>,
                seen: &mut dyn FnMut(&Op<$t>, &State<$t>, &Out<$t>) -> Result<(), Fail>,
            ) -> Result<(), Fail> {
                macro_rules! run {
                    ($v:expr, $b:expr, $apply:ident) => {{
                        let mut v = $v;
                        v.set_delta(start.delta);
                        while let Some(step) = next(&state(&v)) {
                            match step {
                                Step::Run(op) => {
                                    let (r, out) = $apply(&op, v, &mut $b);
                                    v = r;
                                    seen(&op, &state(&v), &out)?;
                                }
                                Step::Load(s) => {
                                    let (storage, _) = v.getf();
                                    v = storage.to_gen_dsp_vec(s.cplx, s.dom);
                                    if let Err(e) = v.resize(s.data.len()) {
                                        crate::fail!("no room for {} elements in the storage: {:?}", s.data.len(), e);
                                    }
                                    v.data_mut(..).copy_from_slice(&s.data[..]);
                                    v.set_delta(s.delta);
                                    v.set_multicore_settings(st.mc());
                                }
                            }
                        }
                        Ok(())
                    }};
                }
                let d = &start.data;
                if st.kind == 0 {
                    return on_vec!(st, d, start.cplx, start.dom, |v, b| run!(v, b, apply_owned));
                }
                if st.kind == 3 {
                    return on_array!(st, d, start.cplx, start.dom, 8192, |v, b| run!(v, b, apply_owned));
                }
                #[cfg(feature = "std")]
                {
                    if st.kind == 2 {
                        return on_box!(st, d, room, start.cplx, start.dom, |v, b| run!(v, b, apply));
                    }
                }
                on_storage!(st, d, start.cplx, start.dom, room, |v, b| run!(v, b, apply))
            }
        }
    };
}

catalogue!(f32);
catalogue!(f64);


/// Runs one operation.
pub fn outcome<T: Num>(op: &Op<T>, start: &State<T>, st: &Store, room: usize) -> Result<(State<T>, Out<T>), Fail> {
    let mut todo = Some(Step::Run(op.clone()));
    let mut result = None;
    T::history(start, st, room, &mut |_| todo.take(), &mut |_, s, o| {
        result = Some((s.clone(), o.clone()));
        Ok(())
    })?;
    Ok(result.expect("the operation ran"))
}

/// The room an operation may need in a storage of fixed size.
pub fn room_for(len: usize) -> usize {
    10 * len + 64
}

/// The circumstances against which others are compared.
pub fn plain() -> Store {
    let mut st = Store::vec();
    st.buf = 2;
    st.bufmul = 2;
    if st.kind == 1 {
        // Without growable storage.
        st.kind = 3;
    }
    st
}

/// Any of the storages and buffers, with any content behind the valid one.
pub fn draw_store(g: &mut G) -> Store {
    let mut st = Store::draw(g);
    let kinds: &[usize] = if cfg!(feature = "std") { &[0, 1, 2, 3] } else { &[1, 3] };
    if st.kind == 1 {
        st.kind = *g.pick(kinds);
        if st.kind == 0 {
            st.buf = g.below(4) as usize;
        }
    }
    st.bufmul = 2;
    let k = st.clone();
    g.note(|| format!("kind {} buffer {}", k.kind, k.buf));
    st
}

/// Makes the content suitable for an operation which is only defined for some.
pub fn suit<T: Num>(op: &Op<T>, data: &mut Vec<T>) {
    use self::Id::*;
    match op.id {
        LnApprox | LogApprox => {
            for x in data.iter_mut() {
                *x = T::of(x.v().abs() + 1.0);
            }
        }
        ExpApprox | ExpfApprox => {
            for x in data.iter_mut() {
                *x = T::of(x.v() % 8.0);
            }
        }
        PowfApprox => {
            for x in data.iter_mut() {
                *x = T::of(x.v().abs() % 8.0 + 0.01);
            }
        }
        PlainSifft | Sifft | WindowedSifft if data.len() > 1 => data[1] = T::of(0.0),
        _ => (),
    }
}

/// Compares what came out of an operation on the same content in different circumstances.
pub fn agree<T: Num>(
    op: &Op<T>,
    start: &[T],
    got: &(State<T>, Out<T>),
    want: &(State<T>, Out<T>),
) -> Result<(), String> {
    let (gs, go) = got;
    let (ws, wo) = want;
    if go.err != wo.err {
        return Err(format!("reported {:?} instead of {:?}", go.err, wo.err));
    }
    if gs.cplx != ws.cplx || gs.dom != ws.dom || gs.delta.bits() != ws.delta.bits() {
        return Err(format!(
            "is complex: {}, {:?}, delta {} instead of complex: {}, {:?}, delta {}",
            gs.cplx, gs.dom, gs.delta, ws.cplx, ws.dom, ws.delta
        ));
    }
    let ex = op.id.exactness();
    let scale = op.scale(start);
    same_data("the result", ex, op, scale, &gs.data, &ws.data, ws.cplx)?;
    if go.indices != wo.indices {
        return Err(format!("indices or counts {:?} instead of {:?}", go.indices, wo.indices));
    }
    if go.scalars.len() != wo.scalars.len() {
        return Err(format!("{} scalars instead of {}", go.scalars.len(), wo.scalars.len()));
    }
    for (i, (a, b)) in go.scalars.iter().zip(&wo.scalars).enumerate() {
        let tol = T::EPS * (scale + b.abs()) * 8.0;
        let tol = if tol.is_finite() { tol } else { 0.0 };
        if !crate::cmp::near(*a, *b, tol) {
            return Err(format!("scalar {} is {} instead of {}", i, a, b));
        }
    }
    if go.others.len() != wo.others.len() {
        return Err("another number of results".to_string());
    }
    for (a, b) in go.others.iter().zip(&wo.others) {
        if a.1 != b.1 || a.2 != b.2 || a.3.bits() != b.3.bits() {
            return Err(format!("meta data of a result is {:?} instead of {:?}", (a.1, a.2, a.3), (b.1, b.2, b.3)));
        }
        same_data("a result", ex, op, scale, &a.0, &b.0, b.1)?;
    }
    Ok(())
}

fn same_data<T: Num>(
    what: &str,
    ex: Exactness,
    op: &Op<T>,
    scale: f64,
    got: &[T],
    want: &[T],
    cplx: bool,
) -> Result<(), String> {
    if ex == Exactness::Exact || got.len() != want.len() {
        return crate::cmp::all_same(what, got, want);
    }
    for i in 0..got.len() {
        let w = want[i].v();
        let tol = match ex {
            Exactness::Points => {
                let other = if cplx && (i ^ 1) < want.len() { want[i ^ 1].v().abs() } else { 0.0 };
                16.0 * T::EPS * (w.abs() + other)
            }
            Exactness::Approximate => {
                let a = match op.id {
                    Id::SinApprox | Id::CosApprox => 3e-6 + 4.0 * T::EPS * scale,
                    _ => 0.025 * w.abs() + 16.0 * T::EPS,
                };
                a
            }
            _ => 8.0 * T::EPS * (scale + w.abs()),
        };
        let tol = if tol.is_finite() { tol } else { 0.0 };
        if !crate::cmp::near(got[i].v(), w, tol) {
            return Err(format!("{}: element {} of {} is {} instead of {}", what, i, got.len(), got[i], want[i]));
        }
    }
    Ok(())
}

/// What the documentation says about the meta data of a result.
#[derive(Clone, Debug)]
pub struct Spec {
    /// The error which has to be reported.
    pub err: Option<ErrorReason>,
    /// The vector has to be empty with an undefined delta.
    pub invalid: bool,
    /// The content of the vector may not change.
    pub untouched: bool,
    pub cplx: bool,
    pub dom: DataDomain,
    pub len: usize,
    pub delta: f64,
    /// Scalar results have to be undefined.
    pub undefined: bool,
    /// Points of the other vectors which are written to.
    pub others: Vec<usize>,
    /// The documentation leaves open what happens.
    pub open: bool,
}

impl<T: Num> Op<T> {
    /// The meta data after an operation according to the documentation.
    pub fn spec(&self, st: &State<T>) -> Spec {
        use self::Id::*;
        let step = if st.cplx { 2 } else { 1 };
        let len = st.data.len();
        let points = len / step;
        let time = st.dom == DataDomain::Time;
        let mut s = Spec {
            err: None,
            invalid: false,
            untouched: false,
            cplx: st.cplx,
            dom: st.dom,
            len,
            delta: st.delta.v(),
            undefined: false,
            others: vec![],
            open: false,
        };
        macro_rules! invalid {
            () => {{
                s.invalid = true;
                return s;
            }};
            ($e:ident) => {{
                s.invalid = true;
                s.err = Some(ErrorReason::$e);
                return s;
            }};
        }
        macro_rules! refuse {
            ($e:ident) => {{
                s.untouched = true;
                s.err = Some(ErrorReason::$e);
                return s;
            }};
        }
        let differ = |a: &Arg<T>| {
            let r = (st.delta / a.delta).v();
            a.cplx != st.cplx || a.dom != st.dom || r > 1.1 || r < 0.9
        };
        match self.id {
            Scale | Offset | Sqrt | Square | Root | Powf | Ln | Exp | Log | Expf | Sin | Cos | Tan | Asin | Acos
            | Atan | Sinh | Cosh | Tanh | Asinh | Acosh | Atanh | Reverse | SwapHalves | DiffWithStart | CumSum => (),
            ScaleC | OffsetC | MapInplaceC | Conj | ComplexExponential => {
                if !st.cplx {
                    invalid!();
                }
            }
            Abs | Wrap | Unwrap | LnApprox | ExpApprox | SinApprox | CosApprox | LogApprox | ExpfApprox
            | PowfApprox | MapInplace => {
                if st.cplx {
                    invalid!();
                }
            }
            Add | Sub | Mul | Div => {
                if self.args[0].data.len() != len {
                    refuse!(InputMustHaveTheSameSize);
                }
                if differ(&self.args[0]) {
                    refuse!(InputMetaDataMustAgree);
                }
            }
            AddSmaller | SubSmaller | MulSmaller | DivSmaller => {
                let l = self.args[0].data.len();
                if l == 0 || len % l != 0 {
                    refuse!(InvalidArgumentLength);
                }
                if differ(&self.args[0]) {
                    refuse!(InputMetaDataMustAgree);
                }
            }
            ZeroPad | ZeroPadB => {
                if self.n <= points {
                    refuse!(InvalidArgumentLength);
                }
                s.len = self.n * step;
            }
            ZeroInterleave | ZeroInterleaveB => s.len = len * self.n,
            Diff => s.len = points.saturating_sub(1) * step,
            Decimatei => {
                s.len = if points > self.m { (points - self.m + self.n - 1) / self.n * step } else { 0 };
            }
            Resize | ResizeB => {
                if st.cplx && self.n % 2 != 0 {
                    refuse!(InputMustHaveAnEvenLength);
                }
                s.len = self.n;
            }
            Magnitude | MagnitudeSquared | ToReal | ToImag | Phase | MagnitudeB | MagnitudeSquaredB | ToRealB
            | ToImagB | PhaseB => {
                if !st.cplx {
                    invalid!();
                }
                s.cplx = false;
                s.len = points;
            }
            ToComplex => {
                if st.cplx {
                    invalid!(InputMustBeReal);
                }
                s.cplx = true;
                s.len = 2 * points;
            }
            ToComplexB => {
                if st.cplx {
                    invalid!();
                }
                s.cplx = true;
                s.len = 2 * points;
            }
            Sum | SumSq | SumPrec | SumSqPrec | Statistics | StatisticsPrec => {
                s.untouched = true;
                s.undefined = st.cplx && len > 0;
            }
            SumC | SumSqC | SumPrecC | SumSqPrecC | StatisticsC | StatisticsPrecC => {
                s.untouched = true;
                s.undefined = !st.cplx && len > 0;
            }
            StatisticsSplit | StatisticsSplitPrec | StatisticsSplitC | StatisticsSplitPrecC => {
                let c = self.id == StatisticsSplitC || self.id == StatisticsSplitPrecC;
                if c && !st.cplx {
                    refuse!(InputMustBeComplex);
                }
                if !c && st.cplx {
                    refuse!(InputMustBeReal);
                }
                s.open = len == 0 && self.n > 16;
                if self.n > 16 {
                    refuse!(InvalidArgumentLength);
                }
                s.untouched = true;
            }
            Dot | DotPrec | DotC | DotPrecC => {
                let c = self.id == DotC || self.id == DotPrecC;
                if c && !st.cplx {
                    refuse!(InputMustBeComplex);
                }
                if !c && st.cplx {
                    refuse!(InputMustBeReal);
                }
                if self.args[0].cplx != st.cplx || self.args[0].dom != st.dom {
                    refuse!(InputMetaDataMustAgree);
                }
                if self.args[0].data.len() != len {
                    refuse!(InputMustHaveTheSameSize);
                }
                s.untouched = true;
            }
            MapAggregate => {
                if st.cplx {
                    refuse!(InputMustBeReal);
                }
                if len == 0 {
                    refuse!(InputMustNotBeEmpty);
                }
                s.untouched = true;
            }
            MapAggregateC => {
                if !st.cplx {
                    refuse!(InputMustBeComplex);
                }
                if len == 0 {
                    refuse!(InputMustNotBeEmpty);
                }
                s.untouched = true;
            }
            GetReal | GetImag | GetMagnitude | GetMagnitudeSquared | GetPhase => {
                s.untouched = true;
                s.others = vec![if st.cplx { points } else { 0 }];
            }
            GetRealImag | GetMagPhase => {
                s.untouched = true;
                let n = if st.cplx { points } else { 0 };
                s.others = vec![n, n];
            }
            PlainFft | Fft | WindowedFft | PrepareArgument | PrepareArgumentPadded => {
                if !time {
                    invalid!();
                }
                let n = if self.id == PrepareArgumentPadded && points > 0 { 2 * points - 1 } else { points };
                s.open = points == 0 || !st.cplx && (self.id == PrepareArgument || self.id == PrepareArgumentPadded);
                s.cplx = true;
                s.dom = DataDomain::Frequency;
                s.len = 2 * n;
                s.delta *= n as f64;
            }
            PlainSfft | Sfft | WindowedSfft => {
                if st.cplx {
                    invalid!(InputMustBeReal);
                }
                if !time {
                    invalid!(InputMustBeInTimeDomain);
                }
                if points % 2 == 0 {
                    invalid!(InputMustHaveAnOddLength);
                }
                s.cplx = true;
                s.dom = DataDomain::Frequency;
                s.len = 2 * (points / 2 + 1);
                s.delta *= points as f64;
            }
            PlainIfft | Ifft | WindowedIfft => {
                if time {
                    invalid!();
                }
                s.open = points == 0;
                s.cplx = true;
                s.dom = DataDomain::Time;
                s.len = 2 * points;
                s.delta *= points as f64;
            }
            PlainSifft | Sifft | WindowedSifft => {
                if time || !st.cplx {
                    invalid!(InputMustBeInFrequencyDomain);
                }
                let dc = if points > 0 { st.data[1].v() } else { 0.0 };
                let limit = if self.id == PlainSifft || points == 0 { 1e-10 } else { 1e-10 * (2 * points - 1) as f64 };
                if dc.abs() > 2.0 * limit {
                    invalid!(InputMustBeConjSymmetric);
                }
                s.open = points == 0 || dc.abs() > 0.5 * limit;
                s.cplx = false;
                s.dom = DataDomain::Time;
                s.len = if points == 0 { 0 } else { 2 * points - 1 };
                s.delta *= s.len as f64;
            }
            FftShift | IfftShift => {
                if time || !st.cplx {
                    invalid!();
                }
            }
            Mirror => {
                if time || !st.cplx {
                    invalid!();
                }
                s.len = if points == 0 { 0 } else { 2 * (2 * points - 1) };
            }
            ApplyWindow | UnapplyWindow => {
                if !time {
                    invalid!();
                }
            }
            FreqResponse => {
                if time {
                    invalid!();
                }
            }
            FreqResponseC => {
                if time || !st.cplx {
                    invalid!();
                }
            }
            Correlate => {
                let a = &self.args[0];
                if !st.cplx {
                    invalid!(InputMustBeComplex);
                }
                if !time {
                    invalid!(InputMustBeInTimeDomain);
                }
                if !a.cplx || a.dom != DataDomain::Frequency {
                    invalid!(InputMetaDataMustAgree);
                }
                if a.data.len() < len {
                    refuse!(InvalidArgumentLength);
                }
                s.len = a.data.len();
            }
            Interpolatef => {
                let n = (T::of(len as f64) * self.x).round().v() as usize;
                s.len = n + n % 2;
            }
            Interpolatei => {
                if self.n <= 1 {
                    s.untouched = true;
                    return s;
                }
                if !st.cplx && !self.resp.declared_symmetric() {
                    refuse!(ArgumentFunctionMustBeSymmetric);
                }
                s.len = len * self.n;
            }
            Interpolate => {
                if self.has_resp && !st.cplx && !self.resp.declared_symmetric() {
                    refuse!(ArgumentFunctionMustBeSymmetric);
                }
                s.len = self.n * step;
                s.delta /= self.n as f64 / points as f64;
                s.open = points == 0;
            }
            Interpft => {
                s.len = self.n * step;
                s.delta /= self.n as f64 / points as f64;
                s.open = points == 0;
            }
            InterpolateLin | InterpolateHermite => {
                if st.cplx {
                    invalid!();
                }
                s.len = if len == 0 { 0 } else { (T::of((len - 1) as f64) * self.x).round().v() as usize + 1 };
            }
            ConvolveReal => {
                if !time {
                    invalid!();
                }
            }
            ConvolveComplex => {
                if !time || !st.cplx {
                    invalid!();
                }
            }
            ConvolveSignal => {
                let a = &self.args[0];
                let step = if a.cplx { 2 } else { 1 };
                if differ(a) {
                    refuse!(InputMetaDataMustAgree);
                }
                if !time {
                    refuse!(InputMustBeInTimeDomain);
                }
                if a.data.len() / step > points {
                    refuse!(InvalidArgumentLength);
                }
            }
            SplitInto => {
                s.untouched = true;
                if points % self.n != 0 {
                    refuse!(InvalidArgumentLength);
                }
                s.others = vec![points / self.n; self.n];
            }
            Merge => s.len = points / self.n * self.n * step,
        }
        s
    }
}

/// Whether the result of an operation has the meta data which the documentation demands.
pub fn conforms<T: Num>(op: &Op<T>, before: &State<T>, after: &State<T>, out: &Out<T>) -> Result<(), String> {
    let s = op.spec(before);
    let invalid = after.data.is_empty() && after.delta.v().is_nan();
    if s.open {
        return Ok(());
    }
    if out.err != s.err {
        return Err(format!("reported {:?} instead of {:?}", out.err, s.err));
    }
    if s.invalid {
        if !invalid {
            return Err(format!(
                "isn't allowed but there are {} elements and a delta of {}",
                after.data.len(),
                after.delta
            ));
        }
        return Ok(());
    }
    let d = after.delta.v();
    let same = d == s.delta || (d.is_nan() && s.delta.is_nan());
    if after.cplx != s.cplx
        || after.dom != s.dom
        || after.data.len() != s.len
        || !(same || crate::cmp::near(d, s.delta, 8.0 * T::EPS * s.delta.abs()))
    {
        return Err(format!(
            "gave complex: {}, {:?}, {} elements, delta {} instead of complex: {}, {:?}, {} elements, delta {}",
            after.cplx,
            after.dom,
            after.data.len(),
            after.delta,
            s.cplx,
            s.dom,
            s.len,
            s.delta
        ));
    }
    if s.untouched {
        if after.delta.bits() != before.delta.bits() {
            return Err("changed the delta".to_string());
        }
        for i in 0..before.data.len() {
            if before.data[i].bits() != after.data[i].bits() {
                return Err(format!("changed element {} from {} to {}", i, before.data[i], after.data[i]));
            }
        }
    }
    // Statistics without values have a sum and a count of zero.
    let nothing = |x: &f64| x.is_nan() || (!out.indices.is_empty() && *x == 0.0);
    if s.undefined && !(out.scalars.iter().all(nothing) && out.indices.iter().all(|n| *n == 0)) {
        return Err(format!("isn't allowed but resulted in {:?}", out.scalars));
    }
    let points: Vec<usize> = out.others.iter().map(|o| o.0.len() / if o.1 { 2 } else { 1 }).collect();
    if out.err.is_none() && points != s.others {
        return Err(format!("wrote {:?} points to other vectors instead of {:?}", points, s.others));
    }
    if out.err.is_none() {
        for o in &out.others {
            let (c, n) = if op.id == Id::SplitInto { (before.cplx, true) } else { (false, before.cplx) };
            if n && (o.1 != c || o.2 != before.dom || o.3.bits() != before.delta.bits()) {
                return Err(format!(
                    "gave a destination which is complex: {}, {:?}, delta {}",
                    o.1, o.2, o.3
                ));
            }
        }
    }
    Ok(())
}

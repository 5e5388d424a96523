//! C25: the C interface does what the Rust operations of the same names do. The functions are called
//! through their exported symbols with plain pointers, as C programs call them.
use std::os::raw::c_void;
use vharness::dsp::conv_types::*;
use vharness::dsp::window_functions::*;
use vharness::dsp::*;
use vharness::ops::*;
use vharness::*;

use basic_dsp_interop as _;

type V = *mut c_void;

#[repr(C)]
pub struct VecRes {
    code: i32,
    vector: V,
}

#[repr(C)]
pub struct Scalar<X> {
    code: i32,
    result: X,
}

type Ptr = *const c_void;

/// The documented result codes.
fn code_of(e: ErrorReason) -> i32 {
    match e {
        ErrorReason::InputMustHaveTheSameSize => 1,
        ErrorReason::InputMetaDataMustAgree => 2,
        ErrorReason::InputMustBeComplex => 3,
        ErrorReason::InputMustBeReal => 4,
        ErrorReason::InputMustBeInTimeDomain => 5,
        ErrorReason::InputMustBeInFrequencyDomain => 6,
        ErrorReason::InvalidArgumentLength => 7,
        ErrorReason::InputMustBeConjSymmetric => 8,
        ErrorReason::InputMustHaveAnOddLength => 9,
        ErrorReason::ArgumentFunctionMustBeSymmetric => 10,
        ErrorReason::InvalidNumberOfArgumentsForCombinedOp => 11,
        ErrorReason::InputMustNotBeEmpty => 12,
        ErrorReason::InputMustHaveAnEvenLength => 13,
        ErrorReason::TypeCanNotResize => 14,
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Plain,
    Cores(usize),
    Detailed(usize, [usize; 4]),
}

/// The functions which aren't operations of the catalogue.
trait Capi: Num {
    fn create(how: How, cplx: i32, dom: i32, init: Self, len: usize, delta: Self) -> V;
    fn delete(v: V);
    fn state(v: V) -> Result<State<Self>, String>;
    fn set(v: V, i: usize, x: Self);
    fn set_len(v: V, len: usize);
    fn overwrite(v: V, data: &[Self]) -> (i32, V);
    fn copy(v: V) -> V;
    /// Runs an operation of the catalogue: `arg` is the second vector.
    fn run(op: &Op<Self>, v: V, arg: V, g: &mut G) -> Result<(i32, V, Out<Self>), String>;
    /// Everything else, compared in place.
    fn others(g: &mut G) -> R;
}

/// Has the C interface an operation?
fn supported(id: Id) -> bool {
    use vharness::ops::Id::*;
    match id {
        ZeroPad | ZeroInterleave | ResizeB | Magnitude | MagnitudeSquared | ToReal | ToImag | Phase | ToComplex
        | MapInplace | MapInplaceC | MapAggregate | MapAggregateC | SplitInto | Merge => false,
        _ => true,
    }
}

extern "C" fn conv32(d: Ptr, x: f32) -> f32 {
    RealImpulseResponse::<f32>::calc(unsafe { &*(d as *const resp::Resp) }, x)
}
extern "C" fn conv64(d: Ptr, x: f64) -> f64 {
    RealImpulseResponse::<f64>::calc(unsafe { &*(d as *const resp::Resp) }, x)
}
extern "C" fn cconv32(d: Ptr, x: f32) -> Complex<f32> {
    ComplexImpulseResponse::<f32>::calc(unsafe { &*(d as *const resp::Resp) }, x)
}
extern "C" fn cconv64(d: Ptr, x: f64) -> Complex<f64> {
    ComplexImpulseResponse::<f64>::calc(unsafe { &*(d as *const resp::Resp) }, x)
}
fn window<T: Num>(d: Ptr, i: usize, n: usize) -> T {
    let w = unsafe { &*(d as *const Win) };
    w.with::<T, _>(|w| w.window(i, n))
}
extern "C" fn win32(d: Ptr, i: usize, n: usize) -> f32 {
    window::<f32>(d, i, n)
}
extern "C" fn win64(d: Ptr, i: usize, n: usize) -> f64 {
    window::<f64>(d, i, n)
}

macro_rules! foreign {
    ($s:literal, $t:ty, $( $n:ident ( $($a:ident : $at:ty),* ) -> $r:ty; )*) => {
        extern "C" {
            $(
                #[link_name = concat!(stringify!($n), $s)]
                fn $n($($a: $at),*) -> $r;
            )*
        }
    };
}

macro_rules! api {
    ($m:ident, $t:ty, $s:literal, $conv:ident, $cconv:ident, $win:ident) => {
        mod $m {
            use super::*;
            type T = $t;
            type Z = Complex<$t>;
            type Sta = Statistics<$t>;
            type StaC = Statistics<Complex<$t>>;
            type StaP = Statistics<f64>;
            type StaPC = Statistics<Complex<f64>>;
            type WinFn = extern "C" fn(Ptr, usize, usize) -> T;
            type RealFn = extern "C" fn(Ptr, T) -> T;
            type CplxFn = extern "C" fn(Ptr, T) -> Z;

            foreign!($s, $t,
                delete_vector(v: V) -> ();
                new(c: i32, d: i32, x: T, n: usize, delta: T) -> V;
                new_with_performance_options(c: i32, d: i32, x: T, n: usize, delta: T, cores: usize) -> V;
                new_with_detailed_performance_options(c: i32, d: i32, x: T, n: usize, delta: T, cores: usize,
                    a: usize, b: usize, e: usize, f: usize) -> V;
                get_value(v: V, i: usize) -> T;
                set_value(v: V, i: usize, x: T) -> ();
                is_complex(v: V) -> i32;
                get_domain(v: V) -> i32;
                get_len(v: V) -> usize;
                set_len(v: V, n: usize) -> ();
                get_points(v: V) -> usize;
                get_delta(v: V) -> T;
                data(v: V) -> *const T;
                complex_data(v: V) -> *const Z;
                get_allocated_len(v: V) -> usize;
                clone(v: V) -> V;
                overwrite_data(v: V, d: *const T, n: usize) -> VecRes;

                add(v: V, o: V) -> VecRes; sub(v: V, o: V) -> VecRes; mul(v: V, o: V) -> VecRes; div(v: V, o: V) -> VecRes;
                add_vector(v: V, o: V) -> VecRes; sub_vector(v: V, o: V) -> VecRes;
                mul_vector(v: V, o: V) -> VecRes; div_vector(v: V, o: V) -> VecRes;
                add_smaller_vector(v: V, o: V) -> VecRes; sub_smaller_vector(v: V, o: V) -> VecRes;
                mul_smaller_vector(v: V, o: V) -> VecRes; div_smaller_vector(v: V, o: V) -> VecRes;
                real_dot_product(v: V, o: V) -> Scalar<T>; complex_dot_product(v: V, o: V) -> Scalar<Z>;
                real_dot_product_prec(v: V, o: V) -> Scalar<T>; complex_dot_product_prec(v: V, o: V) -> Scalar<Z>;
                real_statistics(v: V) -> Sta; complex_statistics(v: V) -> StaC;
                real_statistics_prec(v: V) -> StaP; complex_statistics_prec(v: V) -> StaPC;
                real_sum(v: V) -> T; real_sum_sq(v: V) -> T; complex_sum(v: V) -> Z; complex_sum_sq(v: V) -> Z;
                real_sum_prec(v: V) -> f64; real_sum_sq_prec(v: V) -> f64;
                complex_sum_prec(v: V) -> Complex<f64>; complex_sum_sq_prec(v: V) -> Complex<f64>;
                real_statistics_split(v: V, d: *mut Sta, n: usize) -> i32;
                complex_statistics_split(v: V, d: *mut StaC, n: usize) -> i32;
                real_statistics_split_prec(v: V, d: *mut StaP, n: usize) -> i32;
                complex_statistics_split_prec(v: V, d: *mut StaPC, n: usize) -> i32;

                zero_pad(v: V, n: usize, o: i32) -> VecRes;
                zero_interleave(v: V, f: i32) -> VecRes;
                diff(v: V) -> VecRes; diff_with_start(v: V) -> VecRes; cum_sum(v: V) -> VecRes;
                real_offset(v: V, x: T) -> VecRes; real_scale(v: V, x: T) -> VecRes;
                abs(v: V) -> VecRes; sqrt(v: V) -> VecRes; square(v: V) -> VecRes;
                root(v: V, x: T) -> VecRes; powf(v: V, x: T) -> VecRes; ln(v: V) -> VecRes; exp(v: V) -> VecRes;
                log(v: V, x: T) -> VecRes; expf(v: V, x: T) -> VecRes; to_complex(v: V) -> VecRes;
                sin(v: V) -> VecRes; cos(v: V) -> VecRes; tan(v: V) -> VecRes;
                asin(v: V) -> VecRes; acos(v: V) -> VecRes; atan(v: V) -> VecRes;
                sinh(v: V) -> VecRes; cosh(v: V) -> VecRes; tanh(v: V) -> VecRes;
                asinh(v: V) -> VecRes; acosh(v: V) -> VecRes; atanh(v: V) -> VecRes;
                ln_approx(v: V) -> VecRes; exp_approx(v: V) -> VecRes; sin_approx(v: V) -> VecRes; cos_approx(v: V) -> VecRes;
                log_approx(v: V, x: T) -> VecRes; expf_approx(v: V, x: T) -> VecRes; powf_approx(v: V, x: T) -> VecRes;
                wrap(v: V, x: T) -> VecRes; unwrap(v: V, x: T) -> VecRes; swap_halves(v: V) -> VecRes;
                complex_offset(v: V, x: T, y: T) -> VecRes; complex_scale(v: V, x: T, y: T) -> VecRes;
                complex_divide(v: V, x: T, y: T) -> VecRes;
                magnitude(v: V) -> VecRes; magnitude_squared(v: V) -> VecRes; conj(v: V) -> VecRes;
                to_real(v: V) -> VecRes; to_imag(v: V) -> VecRes; phase(v: V) -> VecRes;
                get_magnitude(v: V, d: V) -> i32; get_magnitude_squared(v: V, d: V) -> i32;
                get_real(v: V, d: V) -> i32; get_imag(v: V, d: V) -> i32; get_phase(v: V, d: V) -> i32;
                get_real_imag(v: V, d: V, e: V) -> i32; get_mag_phase(v: V, d: V, e: V) -> i32;
                set_real_imag(v: V, d: V, e: V) -> VecRes; set_mag_phase(v: V, d: V, e: V) -> VecRes;
                map_inplace_real(v: V, f: extern "C" fn(T, usize) -> T) -> VecRes;
                map_inplace_complex(v: V, f: extern "C" fn(Z, usize) -> Z) -> VecRes;
                map_aggregate_real(v: V, f: extern "C" fn(T, usize) -> Ptr, a: extern "C" fn(Ptr, Ptr) -> Ptr) -> Scalar<Ptr>;
                map_aggregate_complex(v: V, f: extern "C" fn(Z, usize) -> Ptr, a: extern "C" fn(Ptr, Ptr) -> Ptr) -> Scalar<Ptr>;
                split_into(v: V, t: *mut V, n: usize) -> i32;
                merge(v: V, t: *const V, n: usize) -> VecRes;

                plain_fft(v: V) -> VecRes; plain_sfft(v: V) -> VecRes; plain_ifft(v: V) -> VecRes; plain_sifft(v: V) -> VecRes;
                fft(v: V) -> VecRes; sfft(v: V) -> VecRes; ifft(v: V) -> VecRes; sifft(v: V) -> VecRes;
                mirror(v: V) -> VecRes; fft_shift(v: V) -> VecRes; ifft_shift(v: V) -> VecRes;
                apply_window(v: V, w: i32) -> VecRes; unapply_window(v: V, w: i32) -> VecRes;
                windowed_fft(v: V, w: i32) -> VecRes; windowed_sfft(v: V, w: i32) -> VecRes;
                windowed_ifft(v: V, w: i32) -> VecRes; windowed_sifft(v: V, w: i32) -> VecRes;
                apply_custom_window(v: V, w: WinFn, d: Ptr, s: bool) -> VecRes;
                unapply_custom_window(v: V, w: WinFn, d: Ptr, s: bool) -> VecRes;
                windowed_custom_fft(v: V, w: WinFn, d: Ptr, s: bool) -> VecRes;
                windowed_custom_sfft(v: V, w: WinFn, d: Ptr, s: bool) -> VecRes;
                windowed_custom_ifft(v: V, w: WinFn, d: Ptr, s: bool) -> VecRes;
                windowed_custom_sifft(v: V, w: WinFn, d: Ptr, s: bool) -> VecRes;
                multiply_complex_exponential(v: V, x: T, y: T) -> VecRes;
                reverse(v: V) -> VecRes; decimatei(v: V, f: u32, d: u32) -> VecRes;
                prepare_argument(v: V) -> VecRes; prepare_argument_padded(v: V) -> VecRes;
                correlate(v: V, o: V) -> VecRes; convolve_signal(v: V, o: V) -> VecRes;
                convolve_real(v: V, f: RealFn, d: Ptr, s: bool, r: T, n: usize) -> VecRes;
                convolve_complex(v: V, f: CplxFn, d: Ptr, s: bool, r: T, n: usize) -> VecRes;
                convolve(v: V, f: i32, rolloff: T, r: T, n: usize) -> VecRes;
                multiply_frequency_response_real(v: V, f: RealFn, d: Ptr, s: bool, r: T) -> VecRes;
                multiply_frequency_response_complex(v: V, f: CplxFn, d: Ptr, s: bool, r: T) -> VecRes;
                multiply_frequency_response(v: V, f: i32, rolloff: T, r: T) -> VecRes;
                interpolatef_custom(v: V, f: RealFn, d: Ptr, s: bool, x: T, delay: T, n: usize) -> VecRes;
                interpolatef(v: V, f: i32, rolloff: T, x: T, delay: T, n: usize) -> VecRes;
                interpolate_custom(v: V, f: RealFn, d: Ptr, s: bool, n: usize, delay: T) -> VecRes;
                interpolate(v: V, f: i32, rolloff: T, n: usize, delay: T) -> VecRes;
                interpft(v: V, n: usize) -> VecRes;
                interpolatei_custom(v: V, f: RealFn, d: Ptr, s: bool, n: i32) -> VecRes;
                interpolatei(v: V, f: i32, rolloff: T, n: i32) -> VecRes;
                interpolate_lin(v: V, x: T, y: T) -> VecRes;
                interpolate_hermite(v: V, x: T, y: T) -> VecRes;
            );

            extern "C" fn real_map(x: T, i: usize) -> T {
                x * 0.5 + i as T
            }
            extern "C" fn complex_map(z: Z, i: usize) -> Z {
                Complex::new(z.im + i as T, z.re)
            }
            fn number(x: T, i: usize) -> usize {
                (x.abs() * 16.0).min(1e6) as usize * 31 + i
            }
            extern "C" fn real_number(x: T, i: usize) -> Ptr {
                number(x, i) as Ptr
            }
            extern "C" fn complex_number(z: Z, i: usize) -> Ptr {
                number(z.re - z.im, i) as Ptr
            }
            extern "C" fn join(a: Ptr, b: Ptr) -> Ptr {
                (a as usize + b as usize) as Ptr
            }

            macro_rules! stats {
                ($out:expr, $st:expr, $num:ident) => {{
                    let st = $st;
                    $num!($out, st.sum);
                    $num!($out, st.average);
                    $num!($out, st.rms);
                    $num!($out, st.min);
                    $num!($out, st.max);
                    $out.indices.push(st.count);
                }};
            }
            macro_rules! num {
                ($out:expr, $r:expr) => {
                    $out.scalars.push(($r).v())
                };
            }
            macro_rules! cnum {
                ($out:expr, $r:expr) => {{
                    let r = $r;
                    $out.scalars.push(r.re.v());
                    $out.scalars.push(r.im.v());
                }};
            }

            fn rust(st: &State<T>) -> GenDspVec<Vec<T>, T> {
                let mut v = st.data.clone().to_gen_dsp_vec(st.cplx, st.dom);
                v.set_delta(st.delta);
                v
            }

            impl Capi for $t {
                fn create(how: How, c: i32, d: i32, init: T, len: usize, delta: T) -> V {
                    unsafe {
                        match how {
                            How::Plain => new(c, d, init, len, delta),
                            How::Cores(n) => new_with_performance_options(c, d, init, len, delta, n),
                            How::Detailed(n, l) => {
                                new_with_detailed_performance_options(c, d, init, len, delta, n, l[0], l[1], l[2], l[3])
                            }
                        }
                    }
                }

                fn delete(v: V) {
                    unsafe { delete_vector(v) }
                }

                fn state(v: V) -> Result<State<T>, String> {
                    unsafe {
                        let n = get_len(v);
                        let content = if n == 0 { vec![] } else { std::slice::from_raw_parts(data(v), n).to_vec() };
                        for i in 0..n {
                            let x = get_value(v, i);
                            if x.to_bits() != content[i].to_bits() {
                                return Err(format!("get_value({}) is {} where the data has {}", i, x, content[i]));
                            }
                        }
                        let cplx = match is_complex(v) {
                            0 => false,
                            1 => true,
                            x => return Err(format!("is_complex is {}", x)),
                        };
                        let dom = match get_domain(v) {
                            0 => DataDomain::Time,
                            1 => DataDomain::Frequency,
                            x => return Err(format!("get_domain is {}", x)),
                        };
                        let p = get_points(v);
                        if p != if cplx { n / 2 } else { n } {
                            return Err(format!("{} points but a length of {}", p, n));
                        }
                        if cplx && n > 0 && complex_data(v) as usize != data(v) as usize {
                            return Err("complex_data and data are different".to_string());
                        }
                        if get_allocated_len(v) < n {
                            return Err(format!("allocated {} but the length is {}", get_allocated_len(v), n));
                        }
                        Ok(State {
                            data: content,
                            cplx,
                            dom,
                            delta: get_delta(v),
                        })
                    }
                }

                fn set(v: V, i: usize, x: T) {
                    unsafe { set_value(v, i, x) }
                }

                fn set_len(v: V, len: usize) {
                    unsafe { set_len(v, len) }
                }

                fn overwrite(v: V, d: &[T]) -> (i32, V) {
                    let r = unsafe { overwrite_data(v, d.as_ptr(), d.len()) };
                    (r.code, r.vector)
                }

                fn copy(v: V) -> V {
                    unsafe { clone(v) }
                }

                fn run(op: &Op<T>, v: V, arg: V, g: &mut G) -> Result<(i32, V, Out<T>), String> {
                    use vharness::ops::Id::*;
                    let mut out = Out {
                        err: None,
                        scalars: vec![],
                        indices: vec![],
                        others: vec![],
                    };
                    let mut code = 0;
                    let r = &op.resp as *const resp::Resp as Ptr;
                    let symmetric = op.resp.kind == 0;
                    let w = &op.win as *const Win as Ptr;
                    let wsym = op.win.with::<T, _>(|w| w.is_symmetric());
                    // Built-in functions have numbers, but may be passed as others can be.
                    let builtin = match op.win.kind {
                        0 => Some(*g.pick(&[3, 4, 17])),
                        1 => Some(0),
                        2 => Some(1),
                        3 => Some(2),
                        _ => None,
                    };
                    let function = match op.resp.kind {
                        3 => Some(0),
                        4 => Some(1),
                        _ => None,
                    };
                    let roll = op.resp.p as T;
                    let alias = op.args.len() > 0 && g.bool();
                    macro_rules! windowed {
                        ($b:ident, $c:ident) => {
                            match builtin {
                                Some(n) => $b(v, n),
                                None => $c(v, $win, w, wsym),
                            }
                        };
                    }
                    macro_rules! aliased {
                        ($a:ident, $b:ident) => {
                            if alias {
                                $a(v, arg)
                            } else {
                                $b(v, arg)
                            }
                        };
                    }
                    macro_rules! scalar {
                        ($r:expr, $num:ident) => {{
                            let r = $r;
                            code = r.code;
                            if code == 0 {
                                $num!(out, r.result);
                            }
                        }};
                    }
                    macro_rules! split {
                        ($f:ident, $st:ty, $num:ident, $z:expr) => {{
                            let z = $z;
                            let empty = vharness::dsp::Statistics {
                                sum: z,
                                count: 4711,
                                average: z,
                                rms: z,
                                min: z,
                                min_index: 4711,
                                max: z,
                                max_index: 4711,
                            };
                            let mut parts: Vec<$st> = vec![empty; op.n + 1];
                            code = $f(v, parts.as_mut_ptr(), op.n);
                            // Vectors without any points have no statistics.
                            let used = parts.iter().take_while(|p| p.count != 4711).count();
                            if (code != 0 && used > 0) || parts[used..].iter().any(|p| p.count != 4711) {
                                return Err("statistics were written which shouldn't".to_string());
                            }
                            if code == 0 {
                                out.indices.push(used);
                                for p in &parts[..used] {
                                    stats!(out, *p, $num);
                                }
                            }
                        }};
                    }
                    let vec = |r: VecRes| {
                        if r.vector.is_null() {
                            Err("no vector returned".to_string())
                        } else {
                            Ok((r.code, r.vector))
                        }
                    };
                    let res = unsafe {
                        match op.id {
                            Scale => real_scale(v, op.x),
                            ScaleC => complex_scale(v, op.x, op.y),
                            Offset => real_offset(v, op.x),
                            OffsetC => complex_offset(v, op.x, op.y),
                            Add => aliased!(add, add_vector),
                            Sub => aliased!(sub, sub_vector),
                            Mul => aliased!(mul, mul_vector),
                            Div => aliased!(div, div_vector),
                            AddSmaller => add_smaller_vector(v, arg),
                            SubSmaller => sub_smaller_vector(v, arg),
                            MulSmaller => mul_smaller_vector(v, arg),
                            DivSmaller => div_smaller_vector(v, arg),
                            Sqrt => sqrt(v),
                            Square => square(v),
                            Root => root(v, op.x),
                            Powf => powf(v, op.x),
                            Ln => ln(v),
                            Exp => exp(v),
                            Log => log(v, op.x),
                            Expf => expf(v, op.x),
                            Sin => sin(v),
                            Cos => cos(v),
                            Tan => tan(v),
                            Asin => asin(v),
                            Acos => acos(v),
                            Atan => atan(v),
                            Sinh => sinh(v),
                            Cosh => cosh(v),
                            Tanh => tanh(v),
                            Asinh => asinh(v),
                            Acosh => acosh(v),
                            Atanh => atanh(v),
                            Abs => abs(v),
                            Wrap => wrap(v, op.x),
                            Unwrap => unwrap(v, op.x),
                            LnApprox => ln_approx(v),
                            ExpApprox => exp_approx(v),
                            SinApprox => sin_approx(v),
                            CosApprox => cos_approx(v),
                            LogApprox => log_approx(v, op.x),
                            ExpfApprox => expf_approx(v, op.x),
                            PowfApprox => powf_approx(v, op.x),
                            Conj => conj(v),
                            ComplexExponential => multiply_complex_exponential(v, op.x, op.y),
                            Reverse => reverse(v),
                            SwapHalves => swap_halves(v),
                            ZeroPadB => zero_pad(v, op.n, if op.pad < 2 { op.pad as i32 } else { 2 + (op.n % 3) as i32 }),
                            ZeroInterleaveB => zero_interleave(v, op.n as i32),
                            Diff => diff(v),
                            DiffWithStart => diff_with_start(v),
                            CumSum => cum_sum(v),
                            Decimatei => decimatei(v, op.n as u32, op.m as u32),
                            MagnitudeB => magnitude(v),
                            MagnitudeSquaredB => magnitude_squared(v),
                            ToRealB => to_real(v),
                            ToImagB => to_imag(v),
                            PhaseB => phase(v),
                            ToComplexB => to_complex(v),
                            PlainFft => plain_fft(v),
                            Fft => fft(v),
                            WindowedFft => windowed!(windowed_fft, windowed_custom_fft),
                            PlainSfft => plain_sfft(v),
                            Sfft => sfft(v),
                            WindowedSfft => windowed!(windowed_sfft, windowed_custom_sfft),
                            PlainIfft => plain_ifft(v),
                            Ifft => ifft(v),
                            WindowedIfft => windowed!(windowed_ifft, windowed_custom_ifft),
                            PlainSifft => plain_sifft(v),
                            Sifft => sifft(v),
                            WindowedSifft => windowed!(windowed_sifft, windowed_custom_sifft),
                            FftShift => fft_shift(v),
                            IfftShift => ifft_shift(v),
                            Mirror => mirror(v),
                            ApplyWindow => windowed!(apply_window, apply_custom_window),
                            UnapplyWindow => windowed!(unapply_window, unapply_custom_window),
                            FreqResponse => match function {
                                Some(f) => multiply_frequency_response(v, f, roll, op.x),
                                None => multiply_frequency_response_real(v, $conv, r, symmetric, op.x),
                            },
                            FreqResponseC => multiply_frequency_response_complex(v, $cconv, r, symmetric, op.x),
                            PrepareArgument => prepare_argument(v),
                            PrepareArgumentPadded => prepare_argument_padded(v),
                            Correlate => correlate(v, arg),
                            Interpolatef => match function {
                                Some(f) => interpolatef(v, f, roll, op.x, op.y, op.n),
                                None => interpolatef_custom(v, $conv, r, symmetric, op.x, op.y, op.n),
                            },
                            Interpolatei => match function {
                                Some(f) => interpolatei(v, f, roll, op.n as i32),
                                None => interpolatei_custom(v, $conv, r, symmetric, op.n as i32),
                            },
                            Interpolate => match function {
                                Some(f) => interpolate(v, f, roll, op.n, op.y),
                                None => interpolate_custom(v, $conv, r, symmetric, op.n, op.y),
                            },
                            Interpft => interpft(v, op.n),
                            InterpolateLin => interpolate_lin(v, op.x, op.y),
                            InterpolateHermite => interpolate_hermite(v, op.x, op.y),
                            ConvolveReal => match function {
                                Some(f) => convolve(v, f, roll, op.x, op.n),
                                None => convolve_real(v, $conv, r, symmetric, op.x, op.n),
                            },
                            ConvolveComplex => convolve_complex(v, $cconv, r, symmetric, op.x, op.n),
                            ConvolveSignal => convolve_signal(v, arg),
                            _ => {
                                match op.id {
                                    Sum => num!(out, real_sum(v)),
                                    SumC => cnum!(out, complex_sum(v)),
                                    SumSq => num!(out, real_sum_sq(v)),
                                    SumSqC => cnum!(out, complex_sum_sq(v)),
                                    SumPrec => num!(out, real_sum_prec(v)),
                                    SumPrecC => cnum!(out, complex_sum_prec(v)),
                                    SumSqPrec => num!(out, real_sum_sq_prec(v)),
                                    SumSqPrecC => cnum!(out, complex_sum_sq_prec(v)),
                                    Dot => scalar!(real_dot_product(v, arg), num),
                                    DotC => scalar!(complex_dot_product(v, arg), cnum),
                                    DotPrec => scalar!(real_dot_product_prec(v, arg), num),
                                    DotPrecC => scalar!(complex_dot_product_prec(v, arg), cnum),
                                    Statistics => stats!(out, real_statistics(v), num),
                                    StatisticsC => stats!(out, complex_statistics(v), cnum),
                                    StatisticsPrec => stats!(out, real_statistics_prec(v), num),
                                    StatisticsPrecC => stats!(out, complex_statistics_prec(v), cnum),
                                    StatisticsSplit => split!(real_statistics_split, Sta, num, 0.0),
                                    StatisticsSplitC => {
                                        split!(complex_statistics_split, StaC, cnum, Complex::new(0.0, 0.0))
                                    }
                                    StatisticsSplitPrec => split!(real_statistics_split_prec, StaP, num, 0.0),
                                    StatisticsSplitPrecC => {
                                        split!(complex_statistics_split_prec, StaPC, cnum, Complex::new(0.0, 0.0))
                                    }
                                    Resize => {
                                        set_len(v, op.n);
                                        // The new elements are whatever the storage holds.
                                        for i in op.m..get_len(v) {
                                            set_value(v, i, 0.0);
                                        }
                                    }
                                    GetReal | GetImag | GetMagnitude | GetMagnitudeSquared | GetPhase | GetRealImag
                                    | GetMagPhase => {
                                        let n = get_points(v);
                                        let room = |k: usize| {
                                            let l = (op.m / k).min(n + 5);
                                            new(0, get_domain(v), 333.0, l, 1.0)
                                        };
                                        let (d1, d2) = (room(1), room(2));
                                        code = match op.id {
                                            GetReal => get_real(v, d1),
                                            GetImag => get_imag(v, d1),
                                            GetMagnitude => get_magnitude(v, d1),
                                            GetMagnitudeSquared => get_magnitude_squared(v, d1),
                                            GetPhase => get_phase(v, d1),
                                            GetRealImag => get_real_imag(v, d1, d2),
                                            _ => get_mag_phase(v, d1, d2),
                                        };
                                        let s = Self::state(d1)?;
                                        out.others.push((s.data, s.cplx, s.dom, s.delta));
                                        if op.id == GetRealImag || op.id == GetMagPhase {
                                            let s = Self::state(d2)?;
                                            out.others.push((s.data, s.cplx, s.dom, s.delta));
                                        }
                                        delete_vector(d1);
                                        delete_vector(d2);
                                    }
                                    _ => return Err("not covered".to_string()),
                                }
                                VecRes { code, vector: v }
                            }
                        }
                    };
                    let (code, v) = vec(res)?;
                    Ok((code, v, out))
                }

                fn others(g: &mut G) -> R {
                    let mut start = draw_state::<T>(g, 60);
                    let v = load(&start, How::Plain);
                    let mut want = rust(&start);
                    let s = if start.cplx { 2 } else { 1 };
                    let points = start.data.len() / s;
                    let code;
                    let mut expected = 0;
                    let mut result = v;
                    let mut exact = true;
                    let what;
                    macro_rules! vector {
                        ($r:expr) => {{
                            let r = unsafe { $r };
                            code = r.code;
                            result = r.vector;
                        }};
                    }
                    macro_rules! reported {
                        ($r:expr) => {
                            if let Err(e) = $r {
                                expected = code_of(e);
                            }
                        };
                    }
                    macro_rules! scalar {
                        ($r:expr, $want:expr) => {{
                            let r = unsafe { $r };
                            code = r.code;
                            match $want {
                                Ok(w) => {
                                    let w: usize = w;
                                    ensure!(code != 0 || r.result as usize == w, "{}: {} instead of {}", what, r.result as usize, w);
                                }
                                Err(e) => expected = code_of(e),
                            }
                        }};
                    }
                    match g.below(9) {
                        0 => {
                            what = "map_inplace_real";
                            vector!(map_inplace_real(v, real_map));
                            MapInplaceOps::<T>::map_inplace(&mut want, (), &|x, i, _| real_map(x, i));
                        }
                        1 => {
                            what = "map_inplace_complex";
                            vector!(map_inplace_complex(v, complex_map));
                            MapInplaceOps::<Z>::map_inplace(&mut want, (), &|x, i, _| complex_map(x, i));
                        }
                        2 => {
                            what = "map_aggregate_real";
                            let r = MapAggregateOps::<T, usize>::map_aggregate(&want, (), &|x: T, i, _| number(x, i), &|a, b| a + b);
                            scalar!(map_aggregate_real(v, real_number, join), r);
                        }
                        3 => {
                            what = "map_aggregate_complex";
                            let r = MapAggregateOps::<Z, usize>::map_aggregate(&want, (), &|z: Z, i, _| number(z.re - z.im, i), &|a, b| a + b);
                            scalar!(map_aggregate_complex(v, complex_number, join), r);
                        }
                        4 => {
                            what = "complex_divide";
                            let z: Z = Complex::new(T::of(g.float(-4.0, 4.0)), T::of(g.float(0.1, 4.0)));
                            exact = false;
                            vector!(complex_divide(v, z.re, z.im));
                            want.scale(Complex::new(1.0, 0.0) / z);
                        }
                        k @ 5 | k @ 6 => {
                            what = if k == 5 { "set_real_imag" } else { "set_mag_phase" };
                            let n = if g.chance(3, 4) { points } else { g.below(20) as usize };
                            let l = if g.chance(7, 8) { n } else { g.below(20) as usize };
                            let mut a = State {
                                data: data::draw::<T>(g, n, data::TAME),
                                cplx: false,
                                dom: start.dom,
                                delta: start.delta,
                            };
                            let mut b = State {
                                data: data::draw::<T>(g, l, data::TAME),
                                ..a.clone()
                            };
                            match g.below(10) {
                                7 => a.delta = a.delta * 2.0,
                                8 => b.dom = if b.dom == DataDomain::Time { DataDomain::Frequency } else { DataDomain::Time },
                                9 if b.data.len() % 2 == 0 => b.cplx = true,
                                _ => (),
                            }
                            let (va, vb) = (load(&a, How::Plain), load(&b, How::Plain));
                            if k == 5 {
                                vector!(set_real_imag(v, va, vb));
                                reported!(want.set_real_imag(&rust(&a), &rust(&b)));
                            } else {
                                exact = false;
                                vector!(set_mag_phase(v, va, vb));
                                reported!(want.set_mag_phase(&rust(&a), &rust(&b)));
                            }
                            same_state("the first argument", &Self::state(va)?, &a)?;
                            same_state("the second argument", &Self::state(vb)?, &b)?;
                            Self::delete(va);
                            Self::delete(vb);
                        }
                        7 => {
                            what = "split_into";
                            let n = g.range(1, 4);
                            if g.chance(3, 4) && points > 0 {
                                // A number of points which can be split
                                let l = (points + n - 1) / n * n * s;
                                start.data.resize(l, 1.5);
                                Self::delete(v);
                                result = load(&start, How::Plain);
                                want = rust(&start);
                            }
                            let mut parts: Vec<State<T>> = vec![];
                            for _ in 0..n {
                                let mut p = draw_state::<T>(g, 8);
                                if g.chance(7, 8) {
                                    p.dom = start.dom;
                                    p.cplx = start.cplx;
                                    if p.cplx {
                                        p.data.truncate(p.data.len() / 2 * 2);
                                    }
                                }
                                parts.push(p);
                            }
                            let mut vs: Vec<V> = parts.iter().map(|p| load(p, How::Plain)).collect();
                            let mut rs: Vec<_> = parts.iter().map(rust).collect();
                            code = unsafe { split_into(result, vs.as_mut_ptr(), n) };
                            {
                                let mut refs: Vec<&mut GenDspVec<Vec<T>, T>> = rs.iter_mut().collect();
                                reported!(want.split_into(&mut refs[..]));
                            }
                            for (i, (p, r)) in vs.iter().zip(&rs).enumerate() {
                                same_state(&format!("part {}", i), &Self::state(*p)?, &vharness::ops::state(r))?;
                                Self::delete(*p);
                            }
                        }
                        _ => {
                            what = "merge";
                            let n = g.range(1, 4);
                            let mut first = draw_state::<T>(g, 12);
                            // Vectors of another number space can't be merged.
                            first.cplx = start.cplx;
                            if g.chance(7, 8) {
                                first.dom = start.dom;
                            }
                            if first.cplx {
                                first.data.truncate(first.data.len() / 2 * 2);
                            }
                            let mut parts: Vec<State<T>> = vec![];
                            for _ in 0..n {
                                let l = if g.chance(15, 16) { first.data.len() } else { 2 };
                                let mut p = first.clone();
                                p.data = data::draw(g, l, data::TAME);
                                parts.push(p);
                            }
                            let vs: Vec<V> = parts.iter().map(|p| load(p, How::Plain)).collect();
                            let rs: Vec<_> = parts.iter().map(rust).collect();
                            vector!(merge(v, vs.as_ptr(), n));
                            let refs: Vec<&GenDspVec<Vec<T>, T>> = rs.iter().collect();
                            reported!(want.merge(&refs[..]));
                            for (i, (v, p)) in vs.iter().zip(&parts).enumerate() {
                                same_state(&format!("part {}", i), &Self::state(*v)?, p)?;
                                Self::delete(*v);
                            }
                        }
                    }
                    if expected == 0 && want.is_erroneous() {
                        expected = -1;
                    }
                    ensure!(code == expected, "{}: reported {} instead of {}", what, code, expected);
                    let got = Self::state(result)?;
                    let want = vharness::ops::state(&want);
                    if exact {
                        same_state(what, &got, &want)?;
                    } else {
                        ensure!(
                            got.cplx == want.cplx && got.dom == want.dom && got.delta.bits() == want.delta.bits()
                                && got.data.len() == want.data.len(),
                            "{}: complex {}, {:?}, delta {}, length {} instead of complex {}, {:?}, delta {}, length {}",
                            what, got.cplx, got.dom, got.delta, got.data.len(), want.cplx, want.dom, want.delta, want.data.len()
                        );
                        let scale = max_abs(&want.data);
                        for i in 0..got.data.len() {
                            ensure!(
                                near(got.data[i].v(), want.data[i].v(), 16.0 * T::EPS * (scale + want.data[i].v().abs())),
                                "{}: element {} is {} instead of {}", what, i, got.data[i], want.data[i]
                            );
                        }
                    }
                    Self::delete(result);
                    ok(points > 0, format!("{}{}", what, if expected == 0 { "" } else { " refused" }))
                }
            }
        }
    };
}

api!(c32, f32, "32", conv32, cconv32, win32);
api!(c64, f64, "64", conv64, cconv64, win64);

fn draw_state<T: Num>(g: &mut G, max: usize) -> State<T> {
    let cplx = g.bool();
    let s = if cplx { 2 } else { 1 };
    let n = g.len(0, max / s) * s;
    State {
        data: data::draw(g, n, data::FINITE),
        cplx,
        dom: *g.pick(&[DataDomain::Time, DataDomain::Frequency]),
        delta: data::delta(g),
    }
}

fn same_state<T: Num>(what: &str, got: &State<T>, want: &State<T>) -> Result<(), String> {
    if got.cplx != want.cplx || got.dom != want.dom || got.delta.bits() != want.delta.bits() {
        return Err(format!(
            "{}: complex {}, {:?}, delta {} instead of complex {}, {:?}, delta {}",
            what, got.cplx, got.dom, got.delta, want.cplx, want.dom, want.delta
        ));
    }
    all_same(what, &got.data, &want.data)
}

fn dom_code(d: DataDomain) -> i32 {
    match d {
        DataDomain::Time => 0,
        DataDomain::Frequency => 1,
    }
}

/// A vector of the C interface with the given content.
fn load<T: Capi>(s: &State<T>, how: How) -> V {
    let v = T::create(how, s.cplx as i32, dom_code(s.dom), T::of(0.0), s.data.len(), s.delta);
    for (i, x) in s.data.iter().enumerate() {
        T::set(v, i, *x);
    }
    v
}

fn draw_how(g: &mut G) -> How {
    match g.below(4) {
        0 | 1 => How::Plain,
        2 => How::Cores(g.range(1, 8)),
        _ => {
            let mut l = [0; 4];
            for x in l.iter_mut() {
                *x = g.below(40) as usize;
            }
            How::Detailed(g.range(1, 8), l)
        }
    }
}

fn draw_op<T: Num>(g: &mut G, s: &State<T>, like: bool) -> Op<T> {
    let mut id = *g.pick(ALL_IDS);
    let fits = |id: Id| {
        let (c, d) = id.wants();
        supported(id) && (!like || c.map_or(true, |c| c == s.cplx) && d.map_or(true, |d| d == s.dom))
    };
    while !fits(id) {
        id = *g.pick(ALL_IDS);
    }
    let points = s.data.len() / if s.cplx { 2 } else { 1 };
    let mut op = Op::draw(g, id, s.cplx, s.dom, points, s.delta);
    op.has_resp = true;
    op
}

/// Runs an operation and compares it with the Rust one. Returns the vector afterwards.
fn step<T: Capi>(g: &mut G, v: V, op: &Op<T>, exact: bool) -> Result<(V, State<T>, i32), Fail> {
    let before = T::state(v)?;
    let arg = op.args.get(0).map(|a| State {
        data: a.data.clone(),
        cplx: a.cplx,
        dom: a.dom,
        delta: a.delta,
    });
    let a = arg.as_ref().map_or(std::ptr::null_mut(), |a| load(a, How::Plain));
    let (code, v, out) = match T::run(op, v, a, g) {
        Ok(r) => r,
        Err(e) => fail!("{}: {}", op.describe(), e),
    };
    if let Some(ref arg) = arg {
        if let Err(e) = same_state("the argument", &T::state(a)?, arg) {
            fail!("{}: {}", op.describe(), e);
        }
        T::delete(a);
    }
    let mut want = outcome(op, &before, &plain(), room_for(before.data.len()))?;
    let mut expected = match want.1.err {
        Some(e) => code_of(e),
        None => 0,
    };
    let after = T::state(v)?;
    if op.id == Id::Resize {
        // Can't report errors.
        want.1.err = None;
        expected = 0;
    } else if expected == 0 && op.id.changes() && want.0.data.is_empty() && want.0.delta.v().is_nan() {
        expected = -1;
    }
    ensure!(code == expected, "{}: reported {} instead of {}", op.describe(), code, expected);
    let err = want.1.err;
    let got = (after, Out { err, ..out });
    if exact {
        if let Err(e) = agree(op, &before.data, &got, &want) {
            fail!("{}: {}", op.describe(), e);
        }
    }
    Ok((v, got.0, code))
}

trait Changes {
    fn changes(self) -> bool;
}

impl Changes for Id {
    /// Getters and scalars leave the vector as it is: those which can report something do so for it.
    fn changes(self) -> bool {
        use vharness::ops::Id::*;
        match self {
            Sum | SumC | SumSq | SumSqC | SumPrec | SumPrecC | SumSqPrec | SumSqPrecC | Statistics | StatisticsC
            | StatisticsPrec | StatisticsPrecC | StatisticsSplit | StatisticsSplitC | StatisticsSplitPrec
            | StatisticsSplitPrecC | GetReal | GetImag | GetMagnitude | GetMagnitudeSquared | GetPhase | GetRealImag
            | GetMagPhase => false,
            _ => true,
        }
    }
}

fn operations<T: Capi>(g: &mut G) -> R {
    let mut id = *g.pick(ALL_IDS);
    while !supported(id) {
        id = *g.pick(ALL_IDS);
    }
    let (c, d) = id.wants();
    let cplx = if g.chance(1, 12) { g.bool() } else { c.unwrap_or_else(|| g.bool()) };
    let dom = if g.chance(1, 12) { None } else { d }.unwrap_or_else(|| *g.pick(&[DataDomain::Time, DataDomain::Frequency]));
    let s = if cplx { 2 } else { 1 };
    let max = if g.thorough { 600 } else { 120 };
    let mut points = g.len(0, max / s);
    if id.symmetric() && !cplx && points % 2 == 0 && g.chance(3, 4) {
        points += 1;
    }
    let delta: T = data::delta(g);
    let mut op = Op::draw(g, id, cplx, dom, points, delta);
    op.has_resp = true;
    let mut content: Vec<T> = data::draw(g, points * s, data::FINITE);
    suit(&op, &mut content);
    let how = draw_how(g);
    let start = State {
        data: content,
        cplx,
        dom,
        delta,
    };
    let v = load(&start, how);
    same_state("the new vector", &T::state(v)?, &start)?;
    let (v, _, code) = step(g, v, &op, true)?;
    T::delete(v);
    ok(points > 0, format!("{:?}{}", id, if code == 0 { "" } else { " refused" }))
}

/// Vectors live next to each other, are copied, overwritten and deleted.
fn history<T: Capi>(g: &mut G) -> R {
    let steps = g.range(1, if g.thorough { 24 } else { 10 });
    let mut alive: Vec<(V, State<T>)> = vec![];
    let mut ran = 0;
    let mut copied = 0;
    for _ in 0..2 {
        let s = draw_state::<T>(g, 40);
        let how = draw_how(g);
        alive.push((load(&s, how), s));
    }
    for _ in 0..steps {
        let k = g.below(alive.len() as u64) as usize;
        let what;
        match g.below(12) {
            0 if alive.len() < 5 => {
                what = "new".to_string();
                let s = draw_state::<T>(g, 40);
                let how = draw_how(g);
                alive.push((load(&s, how), s));
            }
            1 if alive.len() > 1 => {
                what = "delete_vector".to_string();
                T::delete(alive[k].0);
                alive.remove(k);
            }
            2 | 3 if alive.len() < 5 => {
                what = "clone".to_string();
                copied += 1;
                let s = alive[k].1.clone();
                let c = T::copy(alive[k].0);
                ensure!(c != alive[k].0, "clone returned the same vector");
                alive.push((c, s));
            }
            4 | 5 => {
                what = "overwrite_data".to_string();
                let len = alive[k].1.data.len();
                let n = match g.below(4) {
                    0 => len,
                    1 => len + g.range(1, 5),
                    _ => g.below(len as u64 + 1) as usize,
                };
                let d: Vec<T> = data::draw(g, n, data::FINITE);
                let (code, v) = T::overwrite(alive[k].0, &d);
                alive[k].0 = v;
                if n <= len {
                    alive[k].1.data[..n].copy_from_slice(&d);
                }
                let want = if n <= len { 0 } else { 7 };
                ensure!(code == want, "overwriting {} of {} elements reported {} instead of {}", n, len, code, want);
            }
            6 if alive[k].1.data.len() > 0 => {
                what = "set_value".to_string();
                let i = g.below(alive[k].1.data.len() as u64) as usize;
                let x = T::of(g.float(-9.0, 9.0));
                T::set(alive[k].0, i, x);
                alive[k].1.data[i] = x;
            }
            _ => {
                let s = alive[k].1.clone();
                if s.delta.v().is_nan() || s.data.len() > 4000 {
                    // Start over.
                    what = "new".to_string();
                    let s = draw_state::<T>(g, 40);
                    T::delete(alive[k].0);
                    alive[k] = (load(&s, How::Plain), s);
                } else {
                    let like = g.chance(9, 10);
                    let op = draw_op(g, &s, like);
                    what = op.describe();
                    let mut ready = s.data.clone();
                    suit(&op, &mut ready);
                    for (i, x) in ready.iter().enumerate() {
                        T::set(alive[k].0, i, *x);
                    }
                    // Values which left all bounds aren't worth a comparison.
                    let tame = ready.iter().all(|x| x.v().abs() < 1e9);
                    let (v, after, _) = step(g, alive[k].0, &op, tame)?;
                    alive[k] = (v, after);
                    ran += 1;
                }
            }
        }
        for (i, (v, s)) in alive.iter().enumerate() {
            if let Err(e) = same_state(&format!("vector {}", i), &T::state(*v)?, s) {
                fail!("after {} of vector {}: {}", what, k, e);
            }
        }
    }
    for (v, _) in alive {
        T::delete(v);
    }
    ok(ran > 1, format!("{} operations, {} copies", ran, copied))
}

/// Everything which was allocated for the vectors is released with them.
fn lifetime<T: Capi>(g: &mut G) -> R {
    let mut starts = vec![];
    for _ in 0..g.range(1, 3) {
        let s = draw_state::<T>(g, 40);
        let op = draw_op(g, &s, true);
        starts.push((s, op));
    }
    let seed = g.raw();
    let mut cost = vec![];
    for _ in 0..3 {
        let mut inner = G::random(seed, false);
        let before = alloc::live();
        for (s, op) in &starts {
            let v = load(s, How::Plain);
            let arg = op.args.get(0).map(|a| {
                load(
                    &State {
                        data: a.data.clone(),
                        cplx: a.cplx,
                        dom: a.dom,
                        delta: a.delta,
                    },
                    How::Plain,
                )
            });
            let r = T::run(op, v, arg.unwrap_or(std::ptr::null_mut()), &mut inner);
            let v = match r {
                Ok(ref r) => r.1,
                Err(ref e) => fail!("{}: {}", op.describe(), e),
            };
            drop(r);
            let c = T::copy(v);
            T::delete(c);
            T::delete(v);
            if let Some(a) = arg {
                T::delete(a);
            }
        }
        drop(inner);
        cost.push(alloc::live() - before);
    }
    // Something may be kept for later, but not every time.
    ensure!(
        cost[1] <= 0 || cost[2] <= 0,
        "{:?}: {:?} bytes were never released",
        starts.iter().map(|s| s.1.describe()).collect::<Vec<_>>(),
        cost
    );
    ok(starts.iter().any(|s| s.0.data.len() > 1), format!("{:?}", starts[0].1.id))
}

fn creation<T: Capi>(g: &mut G) -> R {
    let how = draw_how(g);
    let c = *g.pick(&[0, 1, 1, 2, -1]);
    let d = *g.pick(&[0, 1, 1, 2, -1]);
    let len = g.len(0, 200);
    let x = T::of(g.float(-5.0, 5.0));
    let delta: T = data::delta(g);
    let v = T::create(how, c, d, x, len, delta);
    let cplx = c != 0;
    let n = if cplx && len % 2 != 0 { 0 } else { len };
    let want = State {
        data: vec![x; n],
        cplx,
        dom: if d == 0 { DataDomain::Time } else { DataDomain::Frequency },
        delta,
    };
    let got = T::state(v)?;
    if cplx && len % 2 != 0 {
        // As in Rust: the length is invalid.
        ensure!(got.data.is_empty(), "a complex vector of {} elements", got.data.len());
    } else {
        same_state("the new vector", &got, &want)?;
    }
    T::delete(v);
    ok(len > 1, format!("{:?} complex {} domain {}", how, c, d).split('(').next().unwrap().to_string())
}

fn others<T: Capi>(g: &mut G) -> R {
    T::others(g)
}

fn main() {
    let mut s = vec![];
    both!(&mut s, "operations", 60000, operations);
    both!(&mut s, "other functions", 20000, others);
    both!(&mut s, "histories", 30000, history);
    both!(&mut s, "lifetime", 8000, lifetime);
    both!(&mut s, "creation", 2000, creation);
    vharness::main(
        "C25",
        "functions, vectors, codes and arguments are drawn and passed through the C symbols; non-trivial: vectors with points, \
         histories with more than one operation",
        s,
    );
}

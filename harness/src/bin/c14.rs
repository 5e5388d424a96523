//! C14: meta data is tracked correctly and invalid operations are refused.
use vharness::dsp::*;
use vharness::ops::*;
use vharness::*;

const DOMAINS: &[DataDomain] = &[DataDomain::Time, DataDomain::Frequency];

/// Any operation on a vector of any number space and domain.
fn runtime<T: Num>(g: &mut G) -> R {
    let id = *g.pick(ALL_IDS);
    let mut st = draw_store(g);
    if id.needs_clone() && (st.kind == 1 || st.kind == 2) {
        st.kind = if cfg!(feature = "std") && g.bool() { 0 } else { 3 };
    }
    let (c, d) = id.wants();
    // Half of the cases are what the operation is meant for.
    let fits = g.bool();
    let cplx = if fits && c.is_some() { c.unwrap() } else { g.bool() };
    let dom = if fits && d.is_some() { d.unwrap() } else { *g.pick(DOMAINS) };
    let s = if cplx { 2 } else { 1 };
    let mut points = g.len(0, 120);
    if fits && id.symmetric() && !cplx && points % 2 == 0 {
        points += 1;
    }
    let mut data: Vec<T> = data::draw(g, points * s, data::TAME);
    let delta: T = data::delta(g);
    let op = Op::draw(g, id, cplx, dom, points, delta);
    if fits || g.bool() {
        suit(&op, &mut data);
    }
    let start = State { data, cplx, dom, delta };
    let room = room_for(start.data.len());
    let (after, out) = outcome(&op, &start, &st, room)?;
    if let Err(e) = conforms(&op, &start, &after, &out) {
        fail!(
            "{} of a {} {:?} vector of {} points ({}) {}",
            op.describe(),
            if cplx { "complex" } else { "real" },
            dom,
            points,
            st.describe(),
            e
        );
    }
    let spec = op.spec(&start);
    let how = if spec.invalid {
        "becomes invalid"
    } else if spec.err.is_some() {
        "refused"
    } else if spec.undefined {
        "undefined"
    } else {
        "allowed"
    };
    ok(points > 0, format!("{:?} {}", id, how))
}

/// What was refused stays refused: an erroneous vector stays one.
fn stays_erroneous<T: Num>(g: &mut G) -> R {
    let id = *g.pick(ALL_IDS);
    let mut st = draw_store(g);
    if id.needs_clone() && (st.kind == 1 || st.kind == 2) {
        st.kind = if cfg!(feature = "std") && g.bool() { 0 } else { 3 };
    }
    let (cplx, dom) = (g.bool(), *g.pick(DOMAINS));
    let points = g.len(1, 40);
    let data: Vec<T> = data::draw(g, points * if cplx { 2 } else { 1 }, data::TAME);
    let start = State {
        data,
        cplx,
        dom,
        delta: T::of(1.0),
    };
    // Real vectors don't do the first, complex ones not the second.
    let first = Op::draw(g, if cplx { Id::Abs } else { Id::Conj }, cplx, dom, points, start.delta);
    let mut second = Op::draw(g, id, cplx, dom, 0, start.delta);
    second.n = second.n.max(1);
    let grows = match id {
        Id::ZeroPad | Id::ZeroPadB | Id::Resize | Id::ResizeB | Id::Interpolate | Id::Interpft => true,
        _ => false,
    };
    if grows || id.binary() {
        return ok(false, "gives a vector with content");
    }
    let mut steps = vec![Step::Run(second.clone()), Step::Run(first)];
    let mut last = None;
    T::history(&start, &st, room_for(points * 2), &mut |_| steps.pop(), &mut |_, s, _| {
        last = Some(s.clone());
        Ok(())
    })?;
    let last = last.unwrap();
    ensure!(
        last.data.is_empty() && last.delta.v().is_nan(),
        "after {} an erroneous vector had {} elements and a delta of {}",
        second.describe(),
        last.data.len(),
        last.delta
    );
    ok(true, format!("{:?}", id))
}

/// The content and meta data of a vector of any type.
#[allow(dead_code)]
fn meta_of<S, T, N, D>(v: &DspVec<S, T, N, D>) -> (Vec<u64>, bool, DataDomain, u64, usize)
where
    S: ToSlice<T>,
    T: Num,
    N: NumberSpace,
    D: Domain,
{
    (
        v.data(..).iter().map(|x| x.bits()).collect(),
        v.is_complex(),
        v.domain(),
        v.delta().bits(),
        v.points(),
    )
}

#[allow(dead_code)]
fn same(
    what: &str,
    typed: (Vec<u64>, bool, DataDomain, u64, usize),
    gen: (Vec<u64>, bool, DataDomain, u64, usize),
) -> Result<(), String> {
    if typed != gen {
        return Err(format!(
            "{}: typed is complex: {}, {:?}, {} points, delta {:x}, but run-time typed complex: {}, {:?}, {} points, delta {:x}{}",
            what,
            typed.1,
            typed.2,
            typed.4,
            typed.3,
            gen.1,
            gen.2,
            gen.4,
            gen.3,
            if typed.0 != gen.0 { ", and the content differs" } else { "" }
        ));
    }
    Ok(())
}

#[cfg(feature = "std")]
mod typed {
    use super::*;
    use vharness::dsp::conv_types::*;

    /// Runs the same statement on both vectors and compares.
    macro_rules! compare {
        ($name:expr, $t:expr, $u:expr, |$v:ident, $b:ident| $body:expr) => {{
            let a = {
                let mut $v = $t;
                let mut $b = SingleBuffer::<T>::new();
                let _ = &mut $b;
                $body
            };
            let b = {
                let mut $v = $u;
                let mut $b = SingleBuffer::<T>::new();
                let _ = &mut $b;
                $body
            };
            same($name, meta_of(&a), meta_of(&b))?;
            ok(a.len() > 0, $name)
        }};
    }

    macro_rules! choose {
        ($g:expr, $t:expr, $u:expr, { $($name:literal: |$v:ident, $b:ident| $body:expr,)* }) => {{
            const NAMES: &[&str] = &[$($name),*];
            let name = *$g.pick(NAMES);
            $g.note(|| name.to_string());
            match name {
                $($name => {
                    #[allow(unused_mut)]
                    let r: R = compare!($name, $t, $u, |$v, $b| $body);
                    r
                })*
                _ => unreachable!(),
            }
        }};
    }

    /// Operations of every vector.
    macro_rules! general {
        ($g:expr, $t:expr, $u:expr, $a:expr, $x:expr, { $($rest:tt)* }) => {
            choose!($g, $t, $u, {
                "scale": |v, b| { v.scale($x); v },
                "offset": |v, b| { v.offset($x); v },
                "sqrt": |v, b| { v.sqrt(); v },
                "square": |v, b| { v.square(); v },
                "ln": |v, b| { v.ln(); v },
                "powf": |v, b| { v.powf($x); v },
                "tanh": |v, b| { v.tanh(); v },
                "reverse": |v, b| { v.reverse(); v },
                "swap_halves": |v, b| { v.swap_halves(); v },
                "diff": |v, b| { v.diff(); v },
                "diff_with_start": |v, b| { v.diff_with_start(); v },
                "cum_sum": |v, b| { v.cum_sum(); v },
                "zero_pad": |v, b| { let n = v.points() + 3; v.zero_pad(n, PaddingOption::Surround).unwrap(); v },
                "zero_pad_b": |v, b| { let n = v.points() + 4; v.zero_pad_b(&mut b, n, PaddingOption::Center).unwrap(); v },
                "zero_pad too short": |v, b| { let n = v.points(); assert!(v.zero_pad(n, PaddingOption::End) == Err(ErrorReason::InvalidArgumentLength)); v },
                "zero_interleave": |v, b| { v.zero_interleave(2).unwrap(); v },
                "zero_interleave_b": |v, b| { v.zero_interleave_b(&mut b, 3); v },
                "decimatei": |v, b| { v.decimatei(2, 1); v },
                "interpft": |v, b| { let n = v.points() * 2 + 1; v.interpft(&mut b, n); v },
                "interpolatei": |v, b| { v.interpolatei(&mut b, &SincFunction::new(), 2).unwrap(); v },
                "interpolatef": |v, b| { v.interpolatef(&mut b, &SincFunction::new(), $x, $x, 5); v },
                "resize": |v, b| { let n = v.len() / 2 / 2 * 2; v.resize(n).unwrap(); v },
                "resize_b": |v, b| { let n = v.len() / 2 / 2 * 2; v.resize_b(&mut b, n).unwrap(); v },
                "clone": |v, b| { let w = v.clone(); drop(v); w },
                "set_delta": |v, b| { v.set_delta($x); v },
                "split_into": |v, b| { let mut w = v.clone(); v.split_into(&mut [&mut w]).unwrap(); w },
                "merge": |v, b| { let w = v.clone(); v.merge(&[&w, &w]).unwrap(); v },
                "add": |v, b| { let w = v.clone(); v.offset($x); v.add(&w).unwrap(); v },
                "sub": |v, b| { let w = v.clone(); v.scale($x); v.sub(&w).unwrap(); v },
                "mul": |v, b| { let w = v.clone(); v.offset($x); v.mul(&w).unwrap(); v },
                "div": |v, b| { let w = v.clone(); v.offset($x); v.div(&w).unwrap(); v },
                "add_smaller": |v, b| { let mut w = v.clone(); w.offset($x); let n = w.len() / w.points(); w.resize(n).unwrap(); v.add_smaller(&w).unwrap(); v },
                "sub_smaller": |v, b| { let mut w = v.clone(); w.offset($x); let n = w.len() / w.points(); w.resize(n).unwrap(); v.sub_smaller(&w).unwrap(); v },
                "mul_smaller": |v, b| { let mut w = v.clone(); w.offset($x); let n = w.len() / w.points(); w.resize(n).unwrap(); v.mul_smaller(&w).unwrap(); v },
                "div_smaller": |v, b| { let mut w = v.clone(); w.offset($x); let n = w.len() / w.points(); w.resize(n).unwrap(); v.div_smaller(&w).unwrap(); v },
                "add of another spacing": |v, b| { let mut w = v.clone(); let d = w.delta() * (T::of(1.0) + $x); w.set_delta(d); assert!(v.add(&w) == Err(ErrorReason::InputMetaDataMustAgree)); v },
                "root": |v, b| { v.root($x); v },
                "exp": |v, b| { v.exp(); v },
                "log": |v, b| { v.log($x); v },
                "expf": |v, b| { v.expf($x); v },
                "sin": |v, b| { v.sin(); v },
                "cos": |v, b| { v.cos(); v },
                "tan": |v, b| { v.tan(); v },
                "asin": |v, b| { v.asin(); v },
                "acos": |v, b| { v.acos(); v },
                "atan": |v, b| { v.atan(); v },
                "sinh": |v, b| { v.sinh(); v },
                "cosh": |v, b| { v.cosh(); v },
                "asinh": |v, b| { v.asinh(); v },
                "acosh": |v, b| { v.acosh(); v },
                "atanh": |v, b| { v.atanh(); v },
                "interpolate": |v, b| { let n = v.points() + 2; v.interpolate(&mut b, None, n, $x).unwrap(); v },
                $($rest)*
            })
        };
    }

    fn start<T: Num>(g: &mut G, s: usize) -> (Vec<T>, T, T) {
        let points = g.len(1, 60);
        let data = data::draw(g, points * s, data::TAME);
        let delta: T = data::delta(g);
        let x = T::of(*g.pick(&[2.0, 1.5, 3.0]));
        (data, delta, x)
    }

    fn real_time<T: Num>(g: &mut G) -> R {
        let (d, delta, x) = start::<T>(g, 1);
        let mut t = d.clone().to_real_time_vec();
        let mut u = d.to_gen_dsp_vec(false, DataDomain::Time);
        t.set_delta(delta);
        u.set_delta(delta);
        general!(g, t, u, t, x, {
            "abs": |v, b| { v.abs(); v },
            "wrap": |v, b| { v.wrap(x); v },
            "unwrap": |v, b| { v.unwrap(x); v },
            "sin_approx": |v, b| { v.sin_approx(); v },
            "cos_approx": |v, b| { v.cos_approx(); v },
            "ln_approx": |v, b| { v.abs(); v.offset(x); v.ln_approx(); v },
            "exp_approx": |v, b| { v.exp_approx(); v },
            "log_approx": |v, b| { v.abs(); v.offset(x); v.log_approx(x); v },
            "expf_approx": |v, b| { v.expf_approx(x); v },
            "powf_approx": |v, b| { v.abs(); v.offset(x); v.powf_approx(x); v },
            "map_inplace": |v, b| { v.map_inplace(x, &|y: T, i, x: T| y * x + T::of(i as f64)); v },
            "to_complex": |v, b| { v.to_complex().unwrap() },
            "to_complex_b": |v, b| { v.to_complex_b(&mut b) },
            "plain_fft": |v, b| { v.plain_fft(&mut b) },
            "fft": |v, b| { v.fft(&mut b) },
            "windowed_fft": |v, b| { v.windowed_fft(&mut b, &window_functions::HammingWindow::default()) },
            "plain_sfft": |v, b| { let n = (v.len() - 1) / 2 * 2 + 1; v.resize(n).unwrap(); v.plain_sfft(&mut b).unwrap() },
            "sfft": |v, b| { let n = (v.len() - 1) / 2 * 2 + 1; v.resize(n).unwrap(); v.sfft(&mut b).unwrap() },
            "windowed_sfft": |v, b| { let n = (v.len() - 1) / 2 * 2 + 1; v.resize(n).unwrap(); v.windowed_sfft(&mut b, &window_functions::TriangularWindow).unwrap() },
            "sfft refused": |v, b| { let n = v.len() + v.len() % 2; v.resize(n).unwrap(); match v.sfft(&mut b) { Err((ErrorReason::InputMustHaveAnOddLength, v)) => v, _ => fail!("sfft of an even length wasn't refused") } },
            "apply_window": |v, b| { v.apply_window(&window_functions::HammingWindow::default()); v },
            "unapply_window": |v, b| { v.unapply_window(&window_functions::HammingWindow::default()); v },
            "interpolate_lin": |v, b| { v.interpolate_lin(&mut b, x, T::of(0.0)); v },
            "interpolate_hermite": |v, b| { v.interpolate_hermite(&mut b, x, T::of(0.0)); v },
            "convolve": |v, b| { let f = SincFunction::new(); v.convolve(&mut b, &f as &dyn RealImpulseResponse<T>, x, 4); v },
        })
    }

    fn real_freq<T: Num>(g: &mut G) -> R {
        let (d, delta, x) = start::<T>(g, 1);
        let mut t = d.clone().to_real_freq_vec();
        let mut u = d.to_gen_dsp_vec(false, DataDomain::Frequency);
        t.set_delta(delta);
        u.set_delta(delta);
        general!(g, t, u, t, x, {
            "abs": |v, b| { v.abs(); v },
            "wrap": |v, b| { v.wrap(x); v },
            "unwrap": |v, b| { v.unwrap(x); v },
            "exp_approx": |v, b| { v.exp_approx(); v },
            "to_complex": |v, b| { v.to_complex().unwrap() },
            "to_complex_b": |v, b| { v.to_complex_b(&mut b) },
            "multiply_frequency_response": |v, b| { let f = RaisedCosineFunction::new(T::of(0.3)); v.multiply_frequency_response(&f as &dyn RealFrequencyResponse<T>, x); v },
            "interpolate_lin": |v, b| { v.interpolate_lin(&mut b, x, T::of(0.0)); v },
        })
    }

    macro_rules! complex_general {
        ($g:expr, $t:expr, $u:expr, $a:expr, $x:expr, { $($rest:tt)* }) => {
            general!($g, $t, $u, $a, $x, {
                "conj": |v, b| { v.conj(); v },
                "scale by complex": |v, b| { v.scale(Complex::new($x, $x)); v },
                "offset by complex": |v, b| { v.offset(Complex::new($x, $x)); v },
                "multiply_complex_exponential": |v, b| { v.multiply_complex_exponential($x, $x); v },
                "magnitude": |v, b| { v.magnitude() },
                "magnitude_squared": |v, b| { v.magnitude_squared() },
                "to_real": |v, b| { v.to_real() },
                "to_imag": |v, b| { v.to_imag() },
                "phase": |v, b| { v.phase() },
                "magnitude_b": |v, b| { v.magnitude_b(&mut b) },
                "magnitude_squared_b": |v, b| { v.magnitude_squared_b(&mut b) },
                "to_real_b": |v, b| { v.to_real_b(&mut b) },
                "to_imag_b": |v, b| { v.to_imag_b(&mut b) },
                "phase_b": |v, b| { v.phase_b(&mut b) },
                "resize to odd": |v, b| { let n = v.len() - 1; assert!(v.resize(n) == Err(ErrorReason::InputMustHaveAnEvenLength)); v },
                $($rest)*
            })
        };
    }

    fn complex_time<T: Num>(g: &mut G) -> R {
        let (d, delta, x) = start::<T>(g, 2);
        let mut t = d.clone().to_complex_time_vec();
        let mut u = d.to_gen_dsp_vec(true, DataDomain::Time);
        t.set_delta(delta);
        u.set_delta(delta);
        complex_general!(g, t, u, t, x, {
            "plain_fft": |v, b| { v.plain_fft(&mut b) },
            "fft": |v, b| { v.fft(&mut b) },
            "windowed_fft": |v, b| { v.windowed_fft(&mut b, &window_functions::HammingWindow::default()) },
            "apply_window": |v, b| { v.apply_window(&window_functions::BlackmanHarrisWindow); v },
            "prepare_argument": |v, b| { v.prepare_argument(&mut b) },
            "prepare_argument_padded": |v, b| { v.prepare_argument_padded(&mut b) },
            "correlate": |v, b| { let a = v.clone().prepare_argument_padded(&mut b); v.correlate(&mut b, &a).unwrap(); v },
            "convolve_signal": |v, b| { let mut a = v.clone(); a.scale(x); v.convolve_signal(&mut b, &a).unwrap(); v },
        })
    }

    fn complex_freq<T: Num>(g: &mut G) -> R {
        let (mut d, delta, x) = start::<T>(g, 2);
        d[1] = T::of(0.0);
        let mut t = d.clone().to_complex_freq_vec();
        let mut u = d.to_gen_dsp_vec(true, DataDomain::Frequency);
        t.set_delta(delta);
        u.set_delta(delta);
        complex_general!(g, t, u, t, x, {
            "plain_ifft": |v, b| { v.plain_ifft(&mut b) },
            "ifft": |v, b| { v.ifft(&mut b) },
            "windowed_ifft": |v, b| { v.windowed_ifft(&mut b, &window_functions::HammingWindow::default()) },
            "plain_sifft": |v, b| { v.plain_sifft(&mut b).unwrap() },
            "sifft": |v, b| { v.sifft(&mut b).unwrap() },
            "windowed_sifft": |v, b| { v.windowed_sifft(&mut b, &window_functions::HammingWindow::default()).unwrap() },
            "sifft refused": |v, b| { v.offset(Complex::new(T::of(0.0), x)); match v.plain_sifft(&mut b) { Err((ErrorReason::InputMustBeConjSymmetric, v)) => v, _ => fail!("sifft with a complex value at 0 Hz wasn't refused") } },
            "mirror": |v, b| { v.mirror(&mut b); v },
            "fft_shift": |v, b| { v.fft_shift(); v },
            "ifft_shift": |v, b| { v.ifft_shift(); v },
            "multiply_frequency_response": |v, b| { let f = RaisedCosineFunction::new(T::of(0.3)); v.multiply_frequency_response(&f as &dyn RealFrequencyResponse<T>, x); v },
        })
    }

    /// Setting the parts.
    fn setters<T: Num>(g: &mut G) -> R {
        let (cplx, c1, c2) = (g.chance(3, 4), g.chance(1, 5), g.chance(1, 5));
        let dom = *g.pick(DOMAINS);
        let points = g.len(0, 40);
        let n1 = 2 * g.len(0, 30);
        let n2 = if g.bool() { n1 } else { 2 * g.len(0, 30) };
        let polar = g.bool();
        let delta: T = data::delta(g);
        let data: Vec<T> = data::draw(g, points * if cplx { 2 } else { 1 }, data::TAME);
        let (d1, d2): (Vec<T>, Vec<T>) = (data::draw(g, n1, data::TAME), data::draw(g, n2, data::TAME));
        let mut v = data.to_gen_dsp_vec(cplx, dom);
        v.set_delta(delta);
        let a = d1.to_gen_dsp_vec(c1, dom);
        let b = d2.to_gen_dsp_vec(c2, dom);
        let before = meta_of(&v);
        let r = if polar { v.set_mag_phase(&a, &b) } else { v.set_real_imag(&a, &b) };
        if !cplx || c1 || c2 {
            ensure!(r == Err(ErrorReason::InputMustBeComplex), "reported {:?} for wrong number spaces", r);
            ensure!(v.is_erroneous(), "isn't allowed but there are {} elements", v.len());
            return ok(true, "wrong number space");
        }
        if n1 != n2 {
            ensure!(r == Err(ErrorReason::InvalidArgumentLength), "reported {:?} for {} and {} points", r, n1, n2);
            ensure!(meta_of(&v) == before, "changed the vector");
            return ok(true, "different sizes");
        }
        ensure!(r.is_ok(), "reported {:?}", r);
        ensure!(
            v.points() == n1 && v.is_complex() && v.domain() == dom && v.delta() == delta,
            "{} points of a {:?} vector with delta {}",
            v.points(),
            v.domain(),
            v.delta()
        );
        ok(n1 > 0, "allowed")
    }

    pub fn register(subs: &mut Vec<Sub>) {
        both!(subs, "real_time", 20000, real_time);
        both!(subs, "real_freq", 20000, real_freq);
        both!(subs, "complex_time", 20000, complex_time);
        both!(subs, "complex_freq", 20000, complex_freq);
        both!(subs, "setters", 5000, setters);
    }
}

fn main() {
    let mut subs = vec![];
    let s = &mut subs;
    both!(s, "runtime", 100000, runtime);
    both!(s, "stays_erroneous", 20000, stays_erroneous);
    #[cfg(feature = "std")]
    typed::register(s);

    vharness::main(
        "C14",
        "operation, arguments, number space, domain, contents and storage are drawn; non-trivial: the vector has points",
        subs,
    );
}

//! C11: results do not depend on the multi-core settings.
use vharness::dsp::*;
use vharness::ops::*;
use vharness::*;

fn draw_cores(g: &mut G, len: usize) -> (usize, [usize; 2]) {
    let cores = match g.below(4) {
        0 => g.range(2, 4),
        1 => g.range(2, 16),
        2 => g.range(2, 64),
        _ => g.range(65, 130),
    };
    let dual = match g.below(4) {
        0 | 1 => 0,
        2 => g.below(len as u64 + 2) as usize,
        _ => len,
    };
    let multi = match g.below(4) {
        0 => 0,
        1 => usize::max_value(),
        2 => dual + g.below(len as u64 + 2) as usize,
        _ => len,
    };
    (cores, [dual, multi])
}

fn case<T: Num>(g: &mut G, id: Id, max: usize) -> R {
    let mut st = draw_store(g);
    st.cores = 1;
    let (c, d) = id.wants();
    let cplx = c.unwrap_or_else(|| g.bool());
    let dom = d.unwrap_or_else(|| *g.pick(&[DataDomain::Time, DataDomain::Frequency]));
    let s = if cplx { 2 } else { 1 };
    let mut points = g.len(0, max / s);
    if id.symmetric() && !cplx && points % 2 == 0 {
        points += 1;
    }
    let mut data: Vec<T> = data::draw(g, points * s, data::FINITE);
    let delta: T = data::delta(g);
    let op = Op::draw(g, id, cplx, dom, points, delta);
    suit(&op, &mut data);
    let start = State { data, cplx, dom, delta };
    let room = room_for(points * s);
    let (cores, thr) = draw_cores(g, points * s);
    g.note(|| format!("{} cores, thresholds {:?}", cores, thr));
    if st.kind == 3 && points * s * 10 > 8000 {
        st.kind = 1;
        if id.needs_clone() {
            return ok(false, "too long for an array".to_string());
        }
    }
    if id.needs_clone() && (st.kind == 1 || st.kind == 2) {
        st.kind = 3;
    }
    let single = outcome(&op, &start, &st, room)?;
    st.cores = cores;
    st.thr = thr;
    let many = outcome(&op, &start, &st, room)?;
    if let Err(e) = agree(&op, &start.data, &many, &single) {
        fail!("{} of {} points with {} cores {:?} and a single one: {}", op.describe(), points, cores, thr, e);
    }
    ok(points > 1, format!("{:?} {}", id, if points < 2 { "tiny" } else if points < 64 { "short" } else { "long" }))
}

fn any<T: Num>(g: &mut G) -> R {
    let id = *g.pick(ALL_IDS);
    let m = if g.thorough { 3000 } else { 500 };
    case::<T>(g, id, m)
}

/// The operations which are worth spawning threads, with more data.
fn threaded<T: Num>(g: &mut G) -> R {
    let id = *g.pick(&[
        Id::Sqrt, Id::Square, Id::Root, Id::Powf, Id::Ln, Id::Exp, Id::Log, Id::Expf, Id::Sin, Id::Cos, Id::Tan, Id::Asin,
        Id::Acos, Id::Atan, Id::Sinh, Id::Cosh, Id::Tanh, Id::Asinh, Id::Acosh, Id::Atanh, Id::LnApprox, Id::ExpApprox,
        Id::SinApprox, Id::CosApprox, Id::LogApprox, Id::ExpfApprox, Id::PowfApprox, Id::ApplyWindow, Id::UnapplyWindow,
        Id::WindowedFft, Id::WindowedIfft, Id::WindowedSfft, Id::WindowedSifft, Id::FreqResponse, Id::FreqResponseC,
        Id::ConvolveSignal, Id::Interpolatef, Id::Interpolatei, Id::Interpolate, Id::MapInplace, Id::MapAggregate,
    ]);
    case::<T>(g, id, if g.thorough { 6000 } else { 1500 })
}

/// Interpolation and convolution of vectors long enough for their vectorized variants.
fn long<T: Num>(g: &mut G) -> R {
    let id = *g.pick(&[Id::Interpolatef, Id::ConvolveSignal, Id::FreqResponse]);
    let mut st = plain();
    st.off = g.below(8) as usize;
    if cfg!(not(feature = "std")) && id != Id::ConvolveSignal {
        st.kind = 1;
    }
    let cplx = g.bool();
    let s = if cplx { 2 } else { 1 };
    let dom = id.wants().1.unwrap();
    let points = g.range(600, if st.kind == 3 { 3000 / s } else { 5000 });
    let data: Vec<T> = data::draw(g, points * s, data::FINITE);
    let mut op = Op::draw(g, id, cplx, dom, points, T::one());
    match id {
        Id::Interpolatef => {
            op.x = T::of(g.range(2, 4) as f64);
            op.n = g.range(1, 40);
        }
        Id::ConvolveSignal => {
            let n = g.range(1, 40);
            let s = if op.args[0].cplx { 2 } else { 1 };
            op.args[0].data.truncate(n * s);
        }
        _ => (),
    }
    let start = State { data, cplx, dom, delta: T::one() };
    let room = room_for(points * s);
    let (cores, thr) = draw_cores(g, points * s);
    g.note(|| format!("{} cores, thresholds {:?}", cores, thr));
    let single = outcome(&op, &start, &st, room)?;
    st.cores = cores;
    st.thr = thr;
    let many = outcome(&op, &start, &st, room)?;
    if let Err(e) = agree(&op, &start.data, &many, &single) {
        fail!("{} of {} points with {} cores {:?} and a single one: {}", op.describe(), points, cores, thr, e);
    }
    ok(true, format!("long {:?}", id))
}

/// The settings which the library chooses itself, with as much data as it takes to spawn threads.
fn automatic<T: Num>(g: &mut G) -> R {
    let id = *g.pick(&[Id::Sin, Id::Sqrt, Id::CosApprox, Id::ApplyWindow, Id::FreqResponse, Id::Ln, Id::SumSq, Id::Mul]);
    let cplx = id != Id::CosApprox && id != Id::SumSq && g.bool();
    let dom = id.wants().1.unwrap_or(DataDomain::Time);
    let points = g.range(30_000, 130_000);
    let s = if cplx { 2 } else { 1 };
    let data: Vec<T> = data::draw(g, points * s, data::FINITE);
    let op = Op::draw(g, id, cplx, dom, points, T::one());
    let settings = match g.below(3) {
        0 => MultiCoreSettings::parallel(),
        1 => MultiCoreSettings::new(g.range(2, 9)),
        _ => MultiCoreSettings::default(),
    };
    let mut results = vec![];
    for i in 0..2 {
        let mut content = data.clone();
        let mut empty: Vec<T> = vec![T::zero(); 4];
        let mut v = (&mut content[..]).to_gen_dsp_vec(cplx, dom);
        v.set_multicore_settings(if i == 0 { MultiCoreSettings::single_threaded() } else { settings });
        let mut b = FixedLenBuffer::new(&mut empty[..]);
        let (v, out) = apply(&op, v, &mut b);
        results.push((state(&v), out));
    }
    if let Err(e) = agree(&op, &data, &results[1], &results[0]) {
        fail!("{} of {} points with {:?} and a single thread: {}", op.describe(), points, settings, e);
    }
    ok(true, format!("{:?} many points", id))
}

fn main() {
    let mut s = vec![];
    both!(&mut s, "any operation", 3000, any);
    both!(&mut s, "threaded operations", 3000, threaded);
    both!(&mut s, "long vectors", 60, long);
    both!(&mut s, "settings chosen by the library", 12, automatic);
    vharness::main(
        "C11",
        "operation, arguments, contents, storage, core limit and thresholds are drawn; non-trivial: more than one point",
        s,
    );
}

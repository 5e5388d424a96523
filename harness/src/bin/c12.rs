//! C12: results do not depend on the type of the storage, its alignment or stale memory.
use vharness::dsp::*;
use vharness::ops::*;
use vharness::*;

fn class(id: Id, st: &Store, points: usize) -> String {
    let kind = ["Vec", "slice", "Box", "ArrayVec"][st.kind];
    format!("{:?} {} {}", id, kind, if points == 0 { "empty" } else if points < 16 { "short" } else { "long" })
}

/// The same operation on the same points stored differently.
fn stored<T: Num>(g: &mut G) -> R {
    let id = *g.pick(ALL_IDS);
    let mut st = draw_store(g);
    st.cores = 1;
    if id.needs_clone() && (st.kind == 1 || st.kind == 2) {
        st.kind = 3;
    }
    let (c, d) = id.wants();
    // Now and then an operation which isn't allowed.
    let cplx = if g.chance(1, 20) { g.bool() } else { c.unwrap_or_else(|| g.bool()) };
    let dom = if g.chance(1, 20) { None } else { d }.unwrap_or_else(|| *g.pick(&[DataDomain::Time, DataDomain::Frequency]));
    let s = if cplx { 2 } else { 1 };
    let max = match (g.thorough, st.kind) {
        (_, 3) => 700,
        (false, _) => 500,
        (true, _) => 3000,
    };
    let mut points = g.len(0, max / s);
    if id.symmetric() && !cplx && points % 2 == 0 && g.chance(3, 4) {
        points += 1;
    }
    let mut data: Vec<T> = data::draw(g, points * s, data::FINITE);
    let delta: T = data::delta(g);
    let op = Op::draw(g, id, cplx, dom, points, delta);
    suit(&op, &mut data);
    let start = State { data, cplx, dom, delta };
    let room = room_for(points * s);
    let want = outcome(&op, &start, &plain(), room)?;
    let got = outcome(&op, &start, &st, room)?;
    if let Err(e) = agree(&op, &start.data, &got, &want) {
        fail!("{} of {} points: with {} {}", op.describe(), points, st.describe(), e);
    }
    ok(points > 0, class(id, &st, points))
}

/// What is behind the valid points makes no difference: neither its values nor how much there is.
fn stale<T: Num>(g: &mut G) -> R {
    let id = *g.pick(ALL_IDS);
    let mut st = draw_store(g);
    st.cores = 1;
    if id.needs_clone() && (st.kind == 1 || st.kind == 2) {
        st.kind = 3;
    }
    st.stale = 0;
    let (c, d) = id.wants();
    let cplx = c.unwrap_or_else(|| g.bool());
    let dom = d.unwrap_or_else(|| *g.pick(&[DataDomain::Time, DataDomain::Frequency]));
    let s = if cplx { 2 } else { 1 };
    let mut points = g.len(0, 150 / s);
    if id.symmetric() && !cplx && points % 2 == 0 {
        points += 1;
    }
    let mut data: Vec<T> = data::draw(g, points * s, data::FINITE);
    let delta: T = data::delta(g);
    let op = Op::draw(g, id, cplx, dom, points, delta);
    suit(&op, &mut data);
    let start = State { data, cplx, dom, delta };
    let room = room_for(points * s);
    let longer = points * s + 1 + g.below(200) as usize;
    let longer = longer + longer % 2;
    let junk: Vec<T> = data::draw(g, longer, &[data::Kind::Wide, data::Kind::Special, data::Kind::Ramp]);
    let want = outcome(&op, &start, &st, room)?;
    // The storage held a longer vector before.
    let before = State { data: junk, cplx: g.bool(), dom, delta: T::one() };
    let mut steps = vec![Step::Run(op.clone()), Step::Load(start.clone())];
    let mut got = None;
    T::history(&before, &st, room, &mut |_| steps.pop(), &mut |_, s, o| {
        got = Some((s.clone(), o.clone()));
        Ok(())
    })?;
    if let Err(e) = agree(&op, &start.data, &got.unwrap(), &want) {
        fail!("{} of {} points in the storage of {} elements in {}: {}", op.describe(), points, longer, st.describe(), e);
    }
    ok(points > 0, class(id, &st, points))
}

/// Read-only storage gives the same scalars, also as an argument.
fn read_only<T: Num>(g: &mut G) -> R {
    let cplx = g.bool();
    let s = if cplx { 2 } else { 1 };
    let points = g.len(0, 300 / s);
    let dom = *g.pick(&[DataDomain::Time, DataDomain::Frequency]);
    let data: Vec<T> = data::draw(g, points * s, data::FINITE);
    let other: Vec<T> = data::draw(g, points * s, data::FINITE);
    let mut ga = Guarded::new(&data, g.below(16) as usize);
    let gb = Guarded::new(&other, g.below(16) as usize);
    let mut gc = Guarded::new(&other, g.below(16) as usize);
    let mut results: Vec<Vec<u64>> = vec![];
    macro_rules! calc {
        ($a:expr, $b:expr) => {{
            let (a, b) = ($a, $b);
            let mut r: Vec<u64> = vec![a.len() as u64, a.points() as u64, a.is_complex() as u64];
            if cplx {
                let x: Complex<T> = SumOps::<Complex<T>>::sum(&a);
                let y: Complex<T> = SumOps::<Complex<T>>::sum_sq(&a);
                let z: ScalarResult<Complex<T>> = DotProductOps::<_, Complex<T>, T, _, _>::dot_product(&a, &b);
                let z = z.map_err(|e| format!("{:?}", e))?;
                let st = StatisticsOps::<Complex<T>>::statistics(&a);
                for v in &[x, y, z, st.average, st.rms, st.min, st.max] {
                    r.push(v.re.bits());
                    r.push(v.im.bits());
                }
                r.push(st.count as u64);
            } else {
                let x: T = SumOps::<T>::sum(&a);
                let y: T = SumOps::<T>::sum_sq(&a);
                let z: ScalarResult<T> = DotProductOps::<_, T, T, _, _>::dot_product(&a, &b);
                let z = z.map_err(|e| format!("{:?}", e))?;
                let st = StatisticsOps::<T>::statistics(&a);
                for v in &[x, y, z, st.average, st.rms, st.min, st.max] {
                    r.push(v.bits());
                }
                r.push(st.count as u64);
            }
            results.push(r);
        }};
    }
    {
        let b = gb.get();
        calc!(data[..].to_gen_dsp_vec(cplx, dom), b.to_gen_dsp_vec(cplx, dom));
        calc!(ga.get().to_gen_dsp_vec(cplx, dom), other[..].to_gen_dsp_vec(cplx, dom));
        calc!(ga.slice().to_gen_dsp_vec(cplx, dom), gc.slice().to_gen_dsp_vec(cplx, dom));
    }
    for r in &results[1..] {
        ensure!(r.len() == results[0].len(), "another number of results");
        for (i, (a, b)) in r.iter().zip(&results[0]).enumerate() {
            let (x, y) = if T::F32 {
                (f32::from_bits(*a as u32) as f64, f32::from_bits(*b as u32) as f64)
            } else {
                (f64::from_bits(*a), f64::from_bits(*b))
            };
            // Only the order of summation depends on the alignment.
            let sum: f64 = data.iter().map(|x| x.v().abs()).sum::<f64>() + 1.0;
            let tol = 8.0 * T::EPS * (sum * sum * (1.0 + max_abs(&other)));
            ensure!(a == b || (x - y).abs() <= tol, "result {} is {} instead of {}", i, x, y);
        }
    }
    ga.check().and_then(|_| gc.check()).map_err(Fail::from)?;
    ok(points > 0, format!("read-only {}", if points < 16 { "short" } else { "long" }))
}

/// Operations on storages which are too small report an error and leave a vector of its old size or
/// work, but never reach beyond the storage.
fn small<T: Num>(g: &mut G) -> R {
    let id = *g.pick(&[Id::ZeroPad, Id::ZeroInterleave, Id::ToComplex, Id::Resize, Id::ZeroPadB, Id::ResizeB]);
    let buffered = id == Id::ZeroPadB || id == Id::ResizeB;
    let cplx = id != Id::ToComplex && g.bool();
    let s = if cplx { 2 } else { 1 };
    let points = g.len(0, 100 / s);
    let data: Vec<T> = data::draw(g, points * s, data::FINITE);
    let off = g.below(16) as usize;
    let room = g.below(points as u64 * 2 + 4) as usize;
    let op = Op::draw(g, id, cplx, DataDomain::Time, points, T::one());
    let mut content = data.clone();
    content.extend(junk::<T>(room));
    let mut guard = Guarded::new(&content, off);
    let start = State { data: data.clone(), cplx, dom: DataDomain::Time, delta: T::one() };
    let want = outcome(&op, &start, &plain(), room_for(points * s))?;
    let needed = want.0.data.len();
    // Buffers of fixed memory panic, as documented, if they are too small.
    let spare = if buffered { needed.max(points * s) + g.below(20) as usize } else { 0 };
    let mut memory = Guarded::new(&junk::<T>(spare), g.below(16) as usize);
    let cap = content.len();
    let fits = needed <= cap;
    let (got, alloc);
    {
        let mut v = guard.slice().to_gen_dsp_vec(cplx, DataDomain::Time);
        v.resize(data.len()).expect("shrinking works");
        let mut b = FixedLenBuffer::new(memory.slice());
        let (v, out) = apply(&op, v, &mut b);
        alloc = v.alloc_len();
        got = (state(&v), out);
    }
    guard.check().and_then(|_| memory.check()).map_err(Fail::from)?;
    if fits {
        if let Err(e) = agree(&op, &data, &got, &want) {
            fail!("{} of {} points with room for {} more elements: {}", op.describe(), points, room, e);
        }
    } else {
        ensure!(got.0.data.len() <= alloc, "{} of {} points with room for {} more elements: {} elements are valid, but the storage has only {}", op.describe(), points, room, got.0.data.len(), alloc);
        // zero_interleave has no way to report an error.
        ensure!(id == Id::ZeroInterleave || got.1.err.is_some(), "{} of {} points with room for {} more elements reported no error", op.describe(), points, room);
        let bad = got.0.data.is_empty() && got.0.delta.v().is_nan();
        if buffered {
            // The content may be lost, but nothing else.
            ensure!(got.0.data.len() == data.len(), "{} of {} points without the room for it left {} elements", op.describe(), points, got.0.data.len());
        } else {
            ensure!(bad || all_same("unchanged", &got.0.data, &data).is_ok(), "{} of {} points without the room for it neither left the vector alone nor marked it: {} elements", op.describe(), points, got.0.data.len());
        }
    }
    ok(points > 0, format!("{:?} {}", id, if fits { "fits" } else { "too small" }))
}

fn main() {
    let mut s = vec![];
    both!(&mut s, "storages", 9000, stored);
    both!(&mut s, "stale content", 6000, stale);
    both!(&mut s, "read-only storage", 2000, read_only);
    both!(&mut s, "small storage", 2000, small);
    vharness::main(
        "C12",
        "operation, arguments, contents, storage, alignment, capacity, stale content and buffer are drawn; non-trivial: at least one point",
        s,
    );
}

//! C13: results do not depend on the kind or history of the buffer.
use vharness::dsp::*;
use vharness::ops::*;
use vharness::*;

fn buffered() -> Vec<Id> {
    ALL_IDS.iter().cloned().filter(|i| i.buffered()).collect()
}

fn start<T: Num>(g: &mut G, id: Id, max: usize) -> (State<T>, Op<T>) {
    let (c, d) = id.wants();
    let cplx = c.unwrap_or_else(|| g.bool());
    let dom = d.unwrap_or_else(|| *g.pick(&[DataDomain::Time, DataDomain::Frequency]));
    let s = if cplx { 2 } else { 1 };
    let mut points = g.len(0, max / s);
    if id.symmetric() && !cplx && points % 2 == 0 {
        points += 1;
    }
    let mut data: Vec<T> = data::draw(g, points * s, data::FINITE);
    let delta: T = data::delta(g);
    let op = Op::draw(g, id, cplx, dom, points, delta);
    suit(&op, &mut data);
    (State { data, cplx, dom, delta }, op)
}

fn class(id: Id, st: &Store, points: usize) -> String {
    let buf = match st.kind {
        0 => ["used SingleBuffer", "NoBuffer", "new SingleBuffer", "own buffer"][st.buf],
        1 => "FixedLenBuffer",
        _ => "own buffer",
    };
    format!("{:?} {} {}", id, buf, if points < 16 { "short" } else { "long" })
}

fn storage(g: &mut G, id: Id) -> Store {
    let mut st = draw_store(g);
    st.cores = 1;
    if id.needs_clone() && (st.kind == 1 || st.kind == 2) {
        st.kind = if cfg!(feature = "std") && g.bool() { 0 } else { 3 };
    }
    st.bufmul = g.range(2, 3);
    st
}

/// The same operation with different buffers on the same kind of storage.
fn kinds<T: Num>(g: &mut G) -> R {
    let id = *g.pick(&buffered());
    let st = storage(g, id);
    let (start, op) = start::<T>(g, id, if g.thorough && st.kind != 3 { 2000 } else { 500 });
    let room = room_for(start.data.len());
    let want = outcome(&op, &start, &plain(), room)?;
    let got = outcome(&op, &start, &st, room)?;
    if let Err(e) = agree(&op, &start.data, &got, &want) {
        fail!("{} of {} elements with {} buffer {}: {}", op.describe(), start.data.len(), st.describe(), st.buf, e);
    }
    ok(start.data.len() > 1, class(id, &st, start.data.len()))
}

/// Other operations used the buffer before.
fn history<T: Num>(g: &mut G) -> R {
    let all = buffered();
    let id = *g.pick(&all);
    let st = storage(g, id);
    let max = if st.kind == 3 { 150 } else { 300 };
    let (begin, op) = start::<T>(g, id, max);
    let room = room_for(max * 3);
    let want = outcome(&op, &begin, &plain(), room)?;
    let n = g.range(1, 4);
    let mut steps = vec![Step::Run(op.clone()), Step::Load(begin.clone())];
    let mut before = begin.clone();
    for _ in 0..n {
        let mut id = *g.pick(&all);
        while id.needs_clone() && (st.kind == 1 || st.kind == 2) {
            id = Id::PlainFft;
        }
        let (s, o) = start::<T>(g, id, max);
        steps.push(Step::Run(o));
        steps.push(Step::Load(s.clone()));
        before = s;
    }
    let _ = steps.pop();
    let mut got = None;
    T::history(&before, &st, room, &mut |_| steps.pop(), &mut |_, s, o| {
        got = Some((s.clone(), o.clone()));
        Ok(())
    })?;
    if let Err(e) = agree(&op, &begin.data, &got.unwrap(), &want) {
        fail!("{} of {} elements with {} buffer {} after {} other operations: {}", op.describe(), begin.data.len(), st.describe(), st.buf, n, e);
    }
    ok(begin.data.len() > 1, format!("history {}", class(id, &st, begin.data.len())))
}

/// A buffered operation and its counterpart without a buffer.
fn counterparts<T: Num>(g: &mut G) -> R {
    const PAIRS: &[(Id, Id)] = &[
        (Id::ZeroPadB, Id::ZeroPad),
        (Id::ZeroInterleaveB, Id::ZeroInterleave),
        (Id::ResizeB, Id::Resize),
        (Id::MagnitudeB, Id::Magnitude),
        (Id::MagnitudeSquaredB, Id::MagnitudeSquared),
        (Id::ToRealB, Id::ToReal),
        (Id::ToImagB, Id::ToImag),
        (Id::PhaseB, Id::Phase),
        (Id::ToComplexB, Id::ToComplex),
    ];
    let (id, plain_id) = *g.pick(PAIRS);
    let st = storage(g, id);
    let (start, op) = start::<T>(g, id, 500);
    let room = room_for(start.data.len());
    let mut counterpart = op.clone();
    counterpart.id = plain_id;
    let want = outcome(&counterpart, &start, &st, room)?;
    let got = outcome(&op, &start, &st, room)?;
    if let Err(e) = agree(&op, &start.data, &got, &want) {
        fail!("{} of {} elements with {}: compared to its counterpart {}", op.describe(), start.data.len(), st.describe(), e);
    }
    ok(start.data.len() > 1, format!("counterpart {}", class(id, &st, start.data.len())))
}

/// Storages which grow up to a limit, with nothing to spare yet, and fixed memory as buffer.
fn grows<T: Num>(g: &mut G) -> R {
    let id = *g.pick(&buffered());
    let (start, op) = start::<T>(g, id, 300);
    let room = room_for(start.data.len());
    let want = outcome(&op, &start, &plain(), room)?;
    let mut memory: Array<T, 8192> = Array::new();
    for x in junk::<T>((3 * room).min(8192)) {
        memory.push(x);
    }
    {
        let mut array: Array<T, 8192> = Array::new();
        for x in &start.data {
            array.push(*x);
        }
        let mut v = array.to_gen_dsp_vec(start.cplx, start.dom);
        v.set_delta(start.delta);
        let mut fixed = FixedLenBuffer::new(memory);
        let (v, out) = apply_owned(&op, v, &mut fixed);
        ensure!(v.alloc_len() >= v.len(), "{} of {} elements: {} elements are valid, but the storage has only {}", op.describe(), start.data.len(), v.len(), v.alloc_len());
        if let Err(e) = agree(&op, &start.data, &(state(&v), out), &want) {
            fail!("{} of {} elements in a storage which grows with fixed memory: {}", op.describe(), start.data.len(), e);
        }
    }
    ok(start.data.len() > 1, format!("grows {:?}", id))
}

/// A fixed buffer which is exactly as large as the documentation and `alloc_len` of a growing buffer
/// after the operation say it has to be.
#[cfg(feature = "std")]
fn sufficient<T: Num>(g: &mut G) -> R {
    let id = *g.pick(&buffered());
    if id.needs_clone() {
        return ok(false, "needs clone".to_string());
    }
    let (start, op) = start::<T>(g, id, 300);
    let want = outcome(&op, &start, &plain(), 0)?;
    let mut buffer = SingleBuffer::new();
    let mut v = start.data.clone().to_gen_dsp_vec(start.cplx, start.dom);
    v.set_delta(start.delta);
    let (v, out) = apply(&op, v, &mut buffer);
    if let Err(e) = agree(&op, &start.data, &(state(&v), out), &want) {
        fail!("{} of {} elements: {}", op.describe(), start.data.len(), e);
    }
    let size = Buffer::<Vec<T>, T>::alloc_len(&buffer).max(want.0.data.len());
    // A second time with the memory the buffer has now and with the same amount of fixed memory.
    let room = room_for(start.data.len());
    let mut content = start.data.clone();
    content.extend(junk::<T>(room));
    let mut memory = Guarded::new(&junk::<T>(size + 2 * room), g.below(16) as usize);
    let mut guard = Guarded::new(&content, g.below(16) as usize);
    {
        let mut v = guard.slice().to_gen_dsp_vec(start.cplx, start.dom);
        v.resize(start.data.len()).expect("shrinking works");
        v.set_delta(start.delta);
        let mut fixed = FixedLenBuffer::new(memory.slice());
        let (v, out) = apply(&op, v, &mut fixed);
        if let Err(e) = agree(&op, &start.data, &(state(&v), out), &want) {
            fail!("{} of {} elements with fixed memory: {}", op.describe(), start.data.len(), e);
        }
    }
    memory.check().and_then(|_| guard.check()).map_err(Fail::from)?;
    let mut v = start.data.clone().to_gen_dsp_vec(start.cplx, start.dom);
    v.set_delta(start.delta);
    let (v, out) = apply(&op, v, &mut buffer);
    if let Err(e) = agree(&op, &start.data, &(state(&v), out), &want) {
        fail!("{} of {} elements for the second time: {}", op.describe(), start.data.len(), e);
    }
    ok(start.data.len() > 1, format!("again {:?}", id))
}

fn main() {
    let mut s = vec![];
    both!(&mut s, "kinds of buffers", 6000, kinds);
    both!(&mut s, "buffers with a history", 4000, history);
    both!(&mut s, "counterparts", 6000, counterparts);
    both!(&mut s, "storages which grow", 3000, grows);
    #[cfg(feature = "std")]
    both!(&mut s, "the same buffer again", 3000, sufficient);
    vharness::main(
        "C13",
        "operation, arguments, contents, storage, buffer and what the buffer was used for before are drawn; non-trivial: more than one element",
        s,
    );
}

//! C26: any history of operations keeps a vector consistent and predictable.
use std::cell::RefCell;
use vharness::dsp::*;
use vharness::ops::*;
use vharness::*;

const DOMAINS: &[DataDomain] = &[DataDomain::Time, DataDomain::Frequency];

fn draw_state<T: Num>(g: &mut G, max: usize) -> State<T> {
    let cplx = g.bool();
    let dom = *g.pick(DOMAINS);
    let points = g.len(0, if cplx { max / 2 } else { max });
    let data = data::draw(g, points * if cplx { 2 } else { 1 }, data::TAME);
    let delta: T = data::delta(g);
    State { data, cplx, dom, delta }
}

/// Whether another operation on this vector is worth a comparison.
fn tame<T: Num>(s: &State<T>, max: usize) -> bool {
    let d = s.delta.v().abs();
    // Squares of tiny values vanish, depending on how the hardware does it.
    let value = |x: f64| x == 0.0 || (x.abs() > 1e-9 && x.abs() < 1e6);
    s.data.len() <= max && s.data.iter().all(|x| value(x.v())) && (d.is_nan() || (d > 1e-12 && d < 1e12))
}

/// An operation for a vector in the given state; mostly one which it's meant for.
fn draw_op<T: Num>(g: &mut G, s: &State<T>, max: usize, allowed: &dyn Fn(Id) -> bool) -> Op<T> {
    let points = s.data.len() / if s.cplx { 2 } else { 1 };
    let fits = g.chance(9, 10);
    for _ in 0..30 {
        let id = *g.pick(ALL_IDS);
        let (c, d) = id.wants();
        let wrong = c.map_or(false, |c| c != s.cplx)
            || d.map_or(false, |d| d != s.dom)
            || (id.symmetric() && !s.cplx && points % 2 == 0);
        if !allowed(id) || (fits && wrong) {
            continue;
        }
        let op = Op::draw(g, id, s.cplx, s.dom, points, s.delta);
        if op.spec(s).len <= max {
            return op;
        }
    }
    Op::draw(g, Id::Reverse, s.cplx, s.dom, points, s.delta)
}

/// Checks one step against a vector which was made for it alone and against the documentation.
fn judge<T: Num>(op: &Op<T>, before: &State<T>, after: &State<T>, out: &Out<T>, room: usize) -> Result<(), String> {
    let s = if after.cplx { 2 } else { 1 };
    if after.data.len() % s != 0 {
        return Err(format!("a complex vector has {} elements", after.data.len()));
    }
    let want = outcome(op, before, &plain(), room).map_err(|e| e.msg)?;
    let got = (after.clone(), out.clone());
    agree(op, &before.data, &got, &want)?;
    if !before.delta.v().is_nan() {
        conforms(op, before, after, out)?;
    }
    Ok(())
}

struct Run<'a, T> {
    g: &'a mut G,
    left: usize,
    max: usize,
    pending: Option<Op<T>>,
    before: Option<State<T>>,
    log: Vec<String>,
    kinds: usize,
    failed: usize,
}

/// One vector in any storage, with one buffer.
fn chain<T: Num>(g: &mut G) -> R {
    let st = draw_store(g);
    let max = 200;
    let steps = g.range(2, if g.thorough { 30 } else { 12 });
    let mut start = draw_state::<T>(g, 80);
    start.delta = T::of(1.0);
    let room = room_for(max * 2);
    let clones = st.kind == 0 || st.kind == 3;
    let allowed = move |id: Id| clones || !id.needs_clone();
    let desc = st.describe();
    let run = RefCell::new(Run::<T> {
        g,
        left: steps,
        max,
        pending: None,
        before: None,
        log: vec![],
        kinds: 0,
        failed: 0,
    });
    T::history(
        &start,
        &st,
        room,
        &mut |s| {
            let mut r = run.borrow_mut();
            let r = &mut *r;
            if let Some(op) = r.pending.take() {
                r.before = Some(s.clone());
                return Some(Step::Run(op));
            }
            if r.left == 0 {
                return None;
            }
            r.left -= 1;
            let bad = s.delta.v().is_nan();
            if !tame(s, r.max) || (bad && r.g.chance(1, 2)) || r.g.chance(1, 12) {
                let n = draw_state::<T>(r.g, 80);
                r.log.push(format!("a new vector of {} elements", n.data.len()));
                return Some(Step::Load(n));
            }
            let op = draw_op(r.g, s, r.max, &allowed);
            r.log.push(op.describe());
            let mut ready = s.clone();
            suit(&op, &mut ready.data);
            if all_same("", &ready.data, &s.data).is_err() {
                r.pending = Some(op);
                return Some(Step::Load(ready));
            }
            r.before = Some(s.clone());
            Some(Step::Run(op))
        },
        &mut |op, after, out| {
            let mut r = run.borrow_mut();
            let before = r.before.take().expect("the state before the step");
            r.kinds += 1;
            if out.err.is_some() || after.delta.v().is_nan() {
                r.failed += 1;
            }
            if let Err(e) = judge(op, &before, after, out, room) {
                fail!("{} after {} in {}: {}", op.describe(), r.log[..r.log.len() - 1].join("; "), desc, e);
            }
            Ok(())
        },
    )?;
    let r = run.into_inner();
    ok(r.kinds > 1, format!("kind {}, {}", st.kind, if r.failed > 0 { "some fail" } else { "all succeed" }))
}

/// Several vectors which share a buffer, whose storages are reused and which are arguments of each other.
#[cfg(feature = "std")]
fn crowd<T: Num>(g: &mut G) -> R {
    let max = 200;
    let steps = g.range(2, if g.thorough { 40 } else { 16 });
    let mut buf = SingleBuffer::new();
    let mut alive: Vec<GenDspVec<Vec<T>, T>> = vec![];
    let make = |s: &State<T>| {
        let mut v = s.data.clone().to_gen_dsp_vec(s.cplx, s.dom);
        v.set_delta(s.delta);
        v
    };
    let mut model: Vec<State<T>> = vec![];
    for _ in 0..g.range(1, 3) {
        let s = draw_state::<T>(g, 60);
        alive.push(make(&s));
        model.push(s);
    }
    let mut log: Vec<String> = vec![];
    let mut ran = 0;
    for _ in 0..steps {
        let k = g.below(alive.len() as u64) as usize;
        let what = g.below(14);
        match what {
            0 if alive.len() < 4 => {
                log.push(format!("clone {}", k));
                let c = alive[k].clone();
                alive.push(c);
                let m = model[k].clone();
                model.push(m);
            }
            1 if alive.len() > 1 => {
                log.push(format!("drop {}", k));
                alive.remove(k);
                model.remove(k);
            }
            2 => {
                // The storage, including what is left of old content, becomes another vector.
                let (cplx, dom) = (g.bool(), *g.pick(DOMAINS));
                log.push(format!("storage of {} becomes complex: {}, {:?}", k, cplx, dom));
                let v = alive.remove(k);
                let len = v.len();
                let (mut storage, n) = v.getf();
                ensure!(n == len, "{}: getf returned {} valid elements of {}", log.join("; "), n, len);
                ensure!(storage.len() >= n, "{}: the storage has {} elements, but {} are valid", log.join("; "), storage.len(), n);
                let mut m = model.remove(k);
                ensure_same(&log, "the storage", &storage[..n], &m.data)?;
                if storage.len() > max {
                    storage.truncate(max);
                }
                m.cplx = cplx;
                m.dom = dom;
                m.delta = T::of(1.0);
                m.data = storage.clone();
                if cplx && m.data.len() % 2 != 0 {
                    // Storages with an odd length aren't complex.
                    m.data = vec![];
                }
                let v = storage.to_gen_dsp_vec(cplx, dom);
                alive.insert(k, v);
                if m.data.is_empty() {
                    m.delta = alive[k].delta();
                }
                model.insert(k, m);
            }
            3 => {
                let i = g.below(model[k].data.len() as u64 + 1) as usize;
                if i < model[k].data.len() {
                    log.push(format!("write to {} of {}", i, k));
                    let x = T::of(g.float(-9.0, 9.0));
                    *alive[k].data_mut(i) = x;
                    model[k].data[i] = x;
                }
            }
            4 => {
                log.push(format!("delta of {}", k));
                let d = T::of(*g.pick(&[1.0, 0.5, 2.0]));
                alive[k].set_delta(d);
                model[k].delta = d;
            }
            5 => {
                log.push(format!("the number of cores of {}", k));
                let n = g.range(1, 4);
                alive[k].set_multicore_settings(MultiCoreSettings {
                    core_limit: n,
                    med_dual_core_threshold: 30,
                    med_multi_core_threshold: 60,
                    large_dual_core_threshold: 30,
                    large_multi_core_threshold: 60,
                });
            }
            6 => {
                log.push("a new buffer".to_string());
                buf = SingleBuffer::with_capacity(g.below(300) as usize);
            }
            _ => {
                let s = model[k].clone();
                let bad = s.delta.v().is_nan();
                if !tame(&s, max) || (bad && g.bool()) {
                    let s = draw_state::<T>(g, 60);
                    log.push(format!("{} is a new vector of {} elements", k, s.data.len()));
                    alive[k] = make(&s);
                    model[k] = s;
                    continue;
                }
                let mut op = draw_op(g, &s, max, &|_| true);
                // Another vector as argument.
                if op.id.binary() && g.bool() {
                    let o = g.below(alive.len() as u64) as usize;
                    let a = &model[o];
                    let good = !a.delta.v().is_nan() && tame(a, max);
                    if good && !(op.id == Id::Correlate && a.data.len() > max) {
                        op.args[0].data = a.data.clone();
                        op.args[0].cplx = a.cplx;
                        op.args[0].dom = a.dom;
                        op.args[0].delta = a.delta;
                        log.push(format!("argument {}", o));
                    }
                }
                log.push(format!("{} of {}", op.describe(), k));
                let mut ready = s.clone();
                suit(&op, &mut ready.data);
                let mut v = alive.remove(k);
                if ready.data.len() > 0 {
                    v.data_mut(..).copy_from_slice(&ready.data);
                }
                let (v, out) = apply_owned(&op, v, &mut buf);
                let after = state(&v);
                alive.insert(k, v);
                if let Err(e) = judge(&op, &ready, &after, &out, room_for(max * 2)) {
                    fail!("{}: {}", log.join("; "), e);
                }
                model[k] = after;
                ran += 1;
            }
        }
        for (i, (v, m)) in alive.iter().zip(&model).enumerate() {
            let s = state(v);
            ensure!(
                s.cplx == m.cplx && s.dom == m.dom && (s.delta.bits() == m.delta.bits() || (s.delta.v().is_nan() && m.delta.v().is_nan())),
                "{}: vector {} is complex: {}, {:?}, delta {} instead of complex: {}, {:?}, delta {}",
                log.join("; "), i, s.cplx, s.dom, s.delta, m.cplx, m.dom, m.delta
            );
            ensure_same(&log, &format!("vector {}", i), &s.data, &m.data)?;
            ensure!(v.points() * if m.cplx { 2 } else { 1 } == v.len(), "{}: vector {} of {} elements has {} points", log.join("; "), i, v.len(), v.points());
            ensure!(v.alloc_len() >= v.len(), "{}: vector {} of {} elements in a storage of {}", log.join("; "), i, v.len(), v.alloc_len());
        }
    }
    ok(ran > 1, format!("{} operations, {} vectors", if ran > 6 { "many" } else if ran > 1 { "some" } else { "few" }, alive.len()))
}

#[cfg(feature = "std")]
fn ensure_same<T: Num>(log: &[String], what: &str, got: &[T], want: &[T]) -> Result<(), Fail> {
    if let Err(e) = all_same(what, got, want) {
        fail!("{}: {}", log.join("; "), e);
    }
    Ok(())
}

fn main() {
    let mut s = vec![];
    both!(&mut s, "one vector", 50000, chain);
    #[cfg(feature = "std")]
    {
        both!(&mut s, "several vectors", 40000, crowd);
    }
    vharness::main(
        "C26",
        "histories of operations, new content, clones, arguments, reused storages and buffers are drawn; non-trivial: \
         more than one operation ran",
        s,
    );
}

//! C04: reordering, padding, interleaving, splitting and merging are exact permutations.
use vharness::dsp::*;
use vharness::*;

fn class(len: usize, is_complex: bool, what: &str) -> String {
    let points = if is_complex { len / 2 } else { len };
    format!(
        "{} {} {}",
        what,
        if is_complex { "complex" } else { "real" },
        if points == 0 { "empty" } else if points % 2 == 0 { "even" } else { "odd" }
    )
}

fn drawn<T: Num>(g: &mut G, min: usize) -> (Store, bool, Vec<T>) {
    let st = Store::draw(g);
    let is_complex = g.bool();
    let m = if g.thorough { 3000 } else { 400 };
    let points = g.len(min, m);
    let data: Vec<T> = data::draw(g, points * if is_complex { 2 } else { 1 }, data::ALL);
    (st, is_complex, data)
}

/// The points of a vector, each one or two elements.
fn points<T: Num>(data: &[T], is_complex: bool) -> Vec<Vec<T>> {
    data.chunks(if is_complex { 2 } else { 1 }).map(|c| c.to_vec()).collect()
}

fn flat<T: Num>(points: &[Vec<T>]) -> Vec<T> {
    points.concat()
}

fn reorder<T: Num>(g: &mut G) -> R {
    let (st, is_complex, data) = drawn::<T>(g, 0);
    let op = g.below(4);
    let freq = g.bool();
    let dom = if freq { DataDomain::Frequency } else { DataDomain::Time };
    let p = points(&data, is_complex);
    let n = p.len();
    g.note(|| format!("op {} of {} points", op, n));
    let out = on_storage!(&st, &data, is_complex, dom, 0, |v, b| {
        match op {
            0 => v.reverse(),
            1 => v.swap_halves(),
            2 => {
                v.reverse();
                v.reverse();
            }
            _ => {
                v.swap_halves();
                if n % 2 == 1 {
                    // The halves of an odd number of points differ in size.
                    v.reverse();
                    v.swap_halves();
                    v.reverse();
                } else {
                    v.swap_halves();
                }
            }
        }
        v.data(..).to_vec()
    });
    let want = match op {
        0 => flat(&p.iter().rev().cloned().collect::<Vec<_>>()),
        1 => {
            // Point zero moves to the centre n / 2.
            let mut w = p.clone();
            for i in 0..n {
                w[(i + n / 2) % n] = p[i].clone();
            }
            flat(&w)
        }
        _ => data.clone(),
    };
    all_same("result", &out, &want)?;
    ok(n > 1, class(data.len(), is_complex, ["reverse", "swap halves", "reverse twice", "swap halves twice"][op as usize]))
}

fn padded<T: Num>(p: &[Vec<T>], target: usize, option: PaddingOption, is_complex: bool) -> Vec<T> {
    let n = p.len();
    let zero = vec![T::zero(); if is_complex { 2 } else { 1 }];
    let mut w = vec![zero; target];
    let diff = target - n;
    for i in 0..n {
        let k = match option {
            PaddingOption::End => i,
            PaddingOption::Surround => i + (diff + 1) / 2,
            PaddingOption::Center => if i < (n + 1) / 2 { i } else { i + diff },
        };
        w[k] = p[i].clone();
    }
    flat(&w)
}

fn pad<T: Num>(g: &mut G) -> R {
    let (st, is_complex, data) = drawn::<T>(g, 0);
    let p = points(&data, is_complex);
    let n = p.len();
    let option = *g.pick(&[PaddingOption::End, PaddingOption::Surround, PaddingOption::Center]);
    let target = match g.below(8) {
        0 => n,
        1 => n - n.min(g.below(5) as usize),
        2 => n + 1,
        3 => 2 * n,
        _ => n + g.len(1, 200),
    };
    let buffered = g.bool();
    let step = if is_complex { 2 } else { 1 };
    g.note(|| format!("{:?} {} -> {} points, buffered: {}", option, n, target, buffered));
    let delta: T = data::delta(g);
    let room = if target > n { (target - n) * step + g.below(5) as usize } else { 0 };
    let (r, out, delta2, room_left) = on_storage!(&st, &data, is_complex, DataDomain::Time, room, |v, b| {
        v.set_delta(delta);
        let r = if buffered { v.zero_pad_b(&mut b, target, option) } else { v.zero_pad(target, option) };
        (r, v.data(..).to_vec(), v.delta(), v.points())
    });
    ensure!(delta2 == delta, "delta changed to {}", delta2);
    ensure!(room_left * step == out.len(), "points {} but {} elements", room_left, out.len());
    if target > n {
        if let Err(e) = r {
            fail!("padding {} to {} points failed with {:?}", n, target, e);
        }
        all_same("result", &out, &padded(&p, target, option, is_complex))?;
    } else {
        if target < n {
            ensure!(r.is_err(), "padding {} points to {} is no error", n, target);
        }
        all_same("vector which isn't padded", &out, &data)?;
    }
    ok(target > n && n > 0, class(data.len(), is_complex, &format!("{:?} {}", option, if target <= n { "no room" } else if (target - n) % 2 == 0 { "by even" } else { "by odd" })))
}

fn interleave<T: Num>(g: &mut G) -> R {
    let (st, is_complex, data) = drawn::<T>(g, 0);
    let p = points(&data, is_complex);
    let n = p.len();
    let factor = g.below(9) as usize;
    let buffered = g.bool();
    let step = if is_complex { 2 } else { 1 };
    g.note(|| format!("{} points by {}, buffered: {}", n, factor, buffered));
    let room = n * step * factor.max(1) - n * step;
    let (r, out) = on_storage!(&st, &data, is_complex, DataDomain::Time, room, |v, b| {
        let r = if buffered {
            v.zero_interleave_b(&mut b, factor as u32);
            Ok(())
        } else {
            v.zero_interleave(factor as u32)
        };
        (r, v.data(..).to_vec())
    });
    if let Err(e) = r {
        fail!("interleaving {} points by {} failed with {:?}", n, factor, e);
    }
    let mut want = vec![];
    for x in &p {
        want.extend_from_slice(x);
        for _ in 0..step * (factor.max(1) - 1) {
            want.push(T::zero());
        }
    }
    all_same("result", &out, &want)?;
    ok(factor > 1 && n > 0, class(data.len(), is_complex, &format!("interleave {}", if factor < 2 { "none" } else if factor == 2 { "2" } else { ">2" })))
}

fn split_merge<T: Num>(g: &mut G) -> R {
    let st = Store::draw(g);
    let is_complex = g.bool();
    let step = if is_complex { 2 } else { 1 };
    let parts = g.range(0, 9);
    let per = g.len(0, if g.thorough { 500 } else { 100 });
    let extra = if parts > 1 && g.chance(1, 4) { g.range(1, parts - 1) } else { 0 };
    let n = parts * per + extra;
    let data: Vec<T> = data::draw(g, n * step, data::ALL);
    let p = points(&data, is_complex);
    // The targets hold something else before.
    let old: Vec<usize> = (0..parts).map(|_| g.below(6) as usize * step).collect();
    g.note(|| format!("{} points into {} parts", n, parts));
    let divides = parts > 0 && extra == 0;
    let dom = DataDomain::Time;
    let want: Vec<Vec<T>> = (0..parts)
        .map(|k| flat(&p.iter().enumerate().filter(|(i, _)| i % parts == k).map(|(_, x)| x.clone()).collect::<Vec<_>>()))
        .collect();
    let (r1, split, r2, merged);
    macro_rules! body {
        ($source:expr, $targets:expr, $merged:expr) => {{
            {
                let mut refs: Vec<_> = $targets.iter_mut().collect();
                r1 = $source.split_into(&mut refs[..]);
            }
            split = $targets.iter().map(|t| t.data(..).to_vec()).collect::<Vec<Vec<T>>>();
            let refs: Vec<_> = $targets.iter().collect();
            r2 = if r1.is_ok() { $merged.merge(&refs[..]) } else { Ok(()) };
            merged = $merged.data(..).to_vec();
        }};
    }
    let mut guards: Vec<Guarded<T>> = old.iter().map(|_| Guarded::new(&vec![T::of(-3.25); (per + 5) * step], g.below(16) as usize)).collect();
    let mut source = Guarded::new(&st.storage(&data), st.off);
    let mut into = Guarded::new(&vec![T::of(-4.25); n * step + st.off2 / 2 * 2], st.off2);
    if st.kind == 1 {
        let mut v = source.slice().to_gen_dsp_vec(is_complex, dom);
        v.resize(data.len()).unwrap();
        let mut targets = vec![];
        for (gd, o) in guards.iter_mut().zip(&old) {
            let mut t = gd.slice().to_gen_dsp_vec(is_complex, dom);
            t.resize((*o).min((per + 5) * step)).unwrap();
            targets.push(t);
        }
        let mut m = into.slice().to_gen_dsp_vec(is_complex, dom);
        body!(v, targets, m);
    } else {
        #[cfg(feature = "std")]
        {
            let mut v = st.storage(&data).to_gen_dsp_vec(is_complex, dom);
            v.resize(data.len()).unwrap();
            let mut targets: Vec<_> = old.iter().map(|o| vec![T::of(-3.25); *o].to_gen_dsp_vec(is_complex, dom)).collect();
            let mut m = vec![T::of(-4.25); st.off2 / 2 * 2].to_gen_dsp_vec(is_complex, dom);
            body!(v, targets, m);
        }
        #[cfg(not(feature = "std"))]
        unreachable!();
    }
    for gd in guards.iter().chain(Some(&source)).chain(Some(&into)) {
        gd.check()?;
    }
    if divides {
        if let Err(e) = r1 {
            fail!("splitting {} points into {} failed with {:?}", n, parts, e);
        }
        for k in 0..parts {
            all_same(&format!("part {}", k), &split[k], &want[k])?;
        }
        if let Err(e) = r2 {
            fail!("merging {} parts of {} points failed with {:?}", parts, per, e);
        }
        all_same("merged", &merged, &data)?;
    } else {
        ensure!(r1 == Err(ErrorReason::InvalidArgumentLength), "splitting {} points into {} gave {:?}", n, parts, r1);
        for k in 0..parts {
            ensure!(split[k].len() == old[k].min((per + 5) * step), "target {} changed although the split was refused", k);
        }
    }
    ok(divides && parts > 1 && per > 0, class(data.len(), is_complex, if divides { "split" } else { "split refused" }))
}

/// Parts of different sizes can't be merged.
fn merge_refused<T: Num>(g: &mut G) -> R {
    let is_complex = g.bool();
    let step = if is_complex { 2 } else { 1 };
    let parts = g.range(0, 5);
    let sizes: Vec<usize> = (0..parts).map(|_| g.range(1, 4)).collect();
    let content: Vec<T> = data::draw(g, 6 * step, data::TAME);
    let mut guards: Vec<Guarded<T>> = sizes.iter().map(|s| Guarded::new(&vec![T::of(*s as f64); s * step], 0)).collect();
    let mut into = Guarded::new(&content, 0);
    let refused = parts == 0 || sizes.iter().any(|s| *s != sizes[0]) || parts * sizes[0] > 6;
    g.note(|| format!("merging parts of {:?} points", sizes));
    let (r, out) = {
        let targets: Vec<_> = guards.iter_mut().map(|gd| gd.slice().to_gen_dsp_vec(is_complex, DataDomain::Time)).collect();
        let refs: Vec<_> = targets.iter().collect();
        let mut m = into.slice().to_gen_dsp_vec(is_complex, DataDomain::Time);
        let r = m.merge(&refs[..]);
        (r, m.data(..).to_vec())
    };
    into.check()?;
    if refused {
        ensure!(r.is_err(), "merging parts of {:?} points into at most 6 is no error", sizes);
        all_same("vector after a refused merge", &out, &content)?;
    } else {
        ensure!(r.is_ok(), "merging parts of {:?} points failed with {:?}", sizes, r);
        let want: Vec<T> = vec![T::of(sizes[0] as f64); parts * sizes[0] * step];
        all_same("merged", &out, &want)?;
    }
    ok(refused, if refused { "refused" } else { "merged" })
}

fn main() {
    let mut s = vec![];
    both!(&mut s, "reorder", 40000, reorder);
    both!(&mut s, "pad", 60000, pad);
    both!(&mut s, "interleave", 30000, interleave);
    both!(&mut s, "split_merge", 30000, split_merge);
    both!(&mut s, "merge_refused", 3000, merge_refused);
    vharness::main(
        "C04",
        "contents, sizes, padding targets and options, factors, parts and storages are drawn; non-trivial: at least one \
         point moves (two for reordering, a target above the size for padding, two parts for splitting), or a refusal",
        s,
    );
}

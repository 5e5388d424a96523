//! C15: construction, resizing, indexing, cloning and extraction keep the data.
use std::panic::{catch_unwind, AssertUnwindSafe};
use vharness::dsp::*;
use vharness::*;

fn bits<T: Num>(v: &[T]) -> Vec<u64> {
    v.iter().map(|x| x.bits()).collect()
}

fn same_bits<T: Num>(what: &str, got: &[T], want: &[T]) -> Result<(), String> {
    if bits(got) == bits(want) {
        Ok(())
    } else {
        Err(format!("{}: got {:?} but expected {:?}", what, &got[..got.len().min(12)], &want[..want.len().min(12)]))
    }
}

fn size_class(n: usize) -> &'static str {
    match n {
        0 => "empty",
        1 => "one element",
        n if n % 2 == 1 => "odd",
        _ => "even",
    }
}

/// What a vector says about itself is consistent and its content is as expected.
fn check<S, T, N, D>(v: &DspVec<S, T, N, D>, want: &[T], cplx: bool, dom: DataDomain, delta: T) -> Result<(), String>
where
    T: Num,
    S: ToSlice<T>,
    N: NumberSpace,
    D: Domain,
{
    if v.is_complex() != cplx || v.domain() != dom {
        return Err(format!("vector is {} {:?} but expected {} {:?}", v.is_complex(), v.domain(), cplx, dom));
    }
    if v.delta() != delta {
        return Err(format!("delta is {} but expected {}", v.delta(), delta));
    }
    if v.len() != want.len() || v.points() != want.len() / if cplx { 2 } else { 1 } || v.is_empty() != want.is_empty() {
        return Err(format!("vector reports {} elements and {} points, expected {} elements", v.len(), v.points(), want.len()));
    }
    if v.alloc_len() < v.len() || v.data.to_slice().len() < v.len() {
        return Err(format!("{} valid elements in a storage of {}", v.len(), v.alloc_len()));
    }
    same_bits("content", v.data(..), want)
}

/// The storage comes out with the valid points in front.
fn extract<S, T, N, D>(v: DspVec<S, T, N, D>, want: &[T]) -> Result<(), String>
where
    T: Num,
    S: ToSlice<T>,
    N: NumberSpace,
    D: Domain,
{
    let (s, n) = v.getf();
    if n != want.len() {
        return Err(format!("getf returned {} valid elements, expected {}", n, want.len()));
    }
    same_bits("getf", &s.to_slice()[..n], want)
}

const TF: [DataDomain; 2] = [DataDomain::Time, DataDomain::Frequency];

fn even<T: Num>(d: &[T]) -> &[T] {
    if d.len() % 2 == 0 {
        d
    } else {
        &[]
    }
}

fn build<T, S>(how: usize, s: S, want: &[T], delta: T) -> Result<(), String>
where
    T: Num,
    S: ToSlice<T> + ToDspVector<T> + ToRealVector<T> + ToComplexVector<S, T>,
{
    let one = T::of(1.0);
    let (t, f) = (DataDomain::Time, DataDomain::Frequency);
    macro_rules! done {
        ($v:expr, $cplx:expr, $dom:expr, $delta:expr) => {{
            let v = $v;
            let want = if $cplx { even(want) } else { want };
            check(&v, want, $cplx, $dom, $delta)?;
            extract(v, want)
        }};
    }
    match how {
        0..=3 => {
            let (c, d) = (how % 2 == 1, TF[how / 2]);
            done!(s.to_gen_dsp_vec(c, d), c, d, one)
        }
        4 => done!(s.to_real_time_vec(), false, t, one),
        5 => done!(s.to_real_freq_vec(), false, f, one),
        6 => done!(s.to_complex_time_vec(), true, t, one),
        7 => done!(s.to_complex_freq_vec(), true, f, one),
        8 => done!(RealTimeVec::from(s), false, t, one),
        9 => done!(RealFreqVec::from(s), false, f, one),
        10 => done!(ComplexTimeVec::from(s), true, t, one),
        11 => done!(ComplexFreqVec::from(s), true, f, one),
        12..=15 => {
            let (c, d) = (how % 2 == 1, TF[(how - 12) / 2]);
            let mut m = [T::of(0.0); 2];
            let mut o = (&mut m[..]).to_gen_dsp_vec(c, d);
            o.set_delta(delta);
            done!(s.to_dsp_vec(&o.get_meta_data()), c, d, delta)
        }
        16 => {
            let m = [T::of(0.0); 2];
            let mut o = (&m[..]).to_complex_freq_vec();
            o.set_delta(delta);
            done!(s.to_dsp_vec(&o.get_meta_data()), true, f, delta)
        }
        17 => {
            let m = [T::of(0.0); 2];
            let mut o = (&m[..]).to_real_time_vec();
            o.set_delta(delta);
            done!(s.to_dsp_vec(&o.get_meta_data()), false, t, delta)
        }
        _ => build_par(how, s, want, delta),
    }
}

#[cfg(feature = "std")]
fn build_par<T, S>(how: usize, s: S, want: &[T], delta: T) -> Result<(), String>
where
    T: Num,
    S: ToSlice<T> + ToDspVector<T> + ToRealVector<T> + ToComplexVector<S, T>,
{
    let one = T::of(1.0);
    let (t, f) = (DataDomain::Time, DataDomain::Frequency);
    macro_rules! done {
        ($v:expr, $cplx:expr, $dom:expr, $delta:expr) => {{
            let v = $v;
            let want = if $cplx { even(want) } else { want };
            check(&v, want, $cplx, $dom, $delta)?;
            extract(v, want)
        }};
    }
    match how {
        18 => done!(s.to_gen_dsp_vec_par(true, t), true, t, one),
        19 => done!(s.to_real_time_vec_par(), false, t, one),
        20 => done!(s.to_real_freq_vec_par(), false, f, one),
        21 => done!(s.to_complex_time_vec_par(), true, t, one),
        22 => done!(s.to_complex_freq_vec_par(), true, f, one),
        _ => {
            let m = [T::of(0.0); 2];
            let mut o = (&m[..]).to_complex_time_vec();
            o.set_delta(delta);
            done!(s.to_dsp_vec_par(&o.get_meta_data()), true, t, delta)
        }
    }
}

#[cfg(not(feature = "std"))]
fn build_par<T, S>(_: usize, s: S, want: &[T], delta: T) -> Result<(), String>
where
    T: Num,
    S: ToSlice<T> + ToDspVector<T> + ToRealVector<T> + ToComplexVector<S, T>,
{
    build(0, s, want, delta)
}

fn complexes<T: Num>(d: &[T]) -> Vec<Complex<T>> {
    d.chunks(2).map(|c| Complex::new(c[0], c[1])).collect()
}

fn flat<T: Num>(d: &[Complex<T>]) -> Vec<T> {
    d.iter().flat_map(|c| vec![c.re, c.im]).collect()
}

fn construct<T: Num>(g: &mut G) -> R {
    let kinds: &[&str] = if cfg!(feature = "std") {
        &["&[T]", "&mut [T]", "array", "Vec", "Box"]
    } else {
        &["&[T]", "&mut [T]", "array"]
    };
    let kind = g.below(kinds.len() as u64) as usize;
    let how = g.range(0, 23);
    let n = g.len(0, 200);
    let spare = if g.chance(1, 2) { g.range(0, 20) } else { 0 };
    let mut data: Vec<T> = data::draw(g, n, data::ALL);
    let delta: T = data::delta(g);
    g.note(|| format!("{} of {} elements with {} to spare, constructor {}", kinds[kind], n, spare, how));
    let want = data.clone();
    let r = match kind {
        0 => build(how, &data[..], &want, delta),
        1 => build(how, &mut data[..], &want, delta),
        2 => build(how, data.iter().cloned().collect::<mem::Array<T, 256>>(), &want, delta),
        _ => build_owned(kind, how, data, spare, &want, delta),
    };
    r?;
    ok(n > 0, format!("{} {}", kinds[kind], size_class(n)))
}

#[cfg(feature = "std")]
fn build_owned<T: Num>(kind: usize, how: usize, mut data: Vec<T>, spare: usize, want: &[T], delta: T) -> Result<(), String> {
    if kind == 3 {
        data.shrink_to_fit();
        data.reserve_exact(spare);
        build(how, data, want, delta)
    } else {
        build(how, data.into_boxed_slice(), want, delta)
    }
}

#[cfg(not(feature = "std"))]
fn build_owned<T: Num>(_: usize, _: usize, _: Vec<T>, _: usize, _: &[T], _: T) -> Result<(), String> {
    unreachable!()
}

/// Storages of complex numbers.
fn construct_complex<T: Num>(g: &mut G) -> R {
    let kinds: &[&str] = if cfg!(feature = "std") {
        &["&[Complex]", "&mut [Complex]", "Vec<Complex>"]
    } else {
        &["&[Complex]", "&mut [Complex]"]
    };
    let kind = g.below(kinds.len() as u64) as usize;
    let freq = g.bool();
    let n = g.len(0, 200);
    let spare = g.range(0, 9);
    let shrunk = if g.chance(1, 3) { g.range(0, n) } else { n };
    let data: Vec<T> = data::draw(g, 2 * n, data::ALL);
    g.note(|| format!("{} of {} points with {} to spare, then resized to {}", kinds[kind], n, spare, shrunk));
    let mut c = complexes(&data);
    let one = T::of(1.0);
    macro_rules! done {
        ($v:expr, $dom:expr, |$c:ident| $full:expr) => {{
            let mut v = $v;
            check(&v, &data, true, $dom, one)?;
            v.resize(2 * shrunk).expect("resizing works");
            check(&v, &data[..2 * shrunk], true, $dom, one)?;
            let ($c, n) = v.get();
            ensure!(n == shrunk, "get returned {} points, expected {}", n, shrunk);
            same_bits("get", &flat(&$c[..n]), &data[..2 * n])?;
            $full
        }};
    }
    match (kind, freq) {
        (0, false) => done!((&c[..]).to_complex_time_vec(), TF[0], |c| ensure!(c.len() == n, "size of the slice changed")),
        (0, true) => done!((&c[..]).to_complex_freq_vec(), TF[1], |c| ensure!(c.len() == n, "size of the slice changed")),
        (1, false) => done!((&mut c[..]).to_complex_time_vec(), TF[0], |c| ensure!(c.len() == n, "size of the slice changed")),
        (1, true) => done!((&mut c[..]).to_complex_freq_vec(), TF[1], |c| ensure!(c.len() == n, "size of the slice changed")),
        _ => construct_vec(c, freq, spare, shrunk, &data)?,
    }
    ok(n > 0, format!("{} {} {}", kinds[kind], size_class(n), if shrunk < n { "resized" } else { "" }))
}

#[cfg(not(feature = "std"))]
fn construct_vec<T: Num>(_: Vec<Complex<T>>, _: bool, _: usize, _: usize, _: &[T]) -> Result<(), String> {
    unreachable!()
}

#[cfg(feature = "std")]
fn construct_vec<T: Num>(mut c: Vec<Complex<T>>, freq: bool, spare: usize, shrunk: usize, data: &[T]) -> Result<(), String> {
    let one = T::of(1.0);
    c.shrink_to_fit();
    c.reserve_exact(spare);
    macro_rules! done {
        ($v:expr, $dom:expr) => {{
            let mut v = $v;
            check(&v, data, true, $dom, one)?;
            v.resize(2 * shrunk).expect("resizing works");
            check(&v, &data[..2 * shrunk], true, $dom, one)?;
            let w = v.clone();
            let (c, n) = v.get();
            if n != shrunk {
                return Err(format!("get returned {} points, expected {}", n, shrunk));
            }
            same_bits("get", &flat(&c[..n]), &data[..2 * n])?;
            let c: Vec<Complex<T>> = w.into();
            same_bits("into", &flat(&c), &data[..2 * n])
        }};
    }
    if freq {
        done!(c.to_complex_freq_vec(), TF[1])
    } else {
        done!(c.to_complex_time_vec(), TF[0])
    }
}

/// Extraction from typed vectors in growable storages of any capacity and size.
#[cfg(feature = "std")]
fn take<T: Num>(g: &mut G) -> R {
    let which = g.range(0, 3);
    let cplx = which >= 2;
    let freq = which % 2 == 1;
    let n = g.len(0, 200) / 2 * 2;
    let spare = g.range(0, 9);
    let len = if g.chance(1, 2) { g.range(0, n + 20) } else { n };
    let len = if cplx { len / 2 * 2 } else { len };
    let into = g.bool();
    let mut data: Vec<T> = data::draw(g, n, data::ALL);
    data.shrink_to_fit();
    data.reserve_exact(spare);
    let want = data.clone();
    g.note(|| format!("{} {} of {} elements with {} to spare, resized to {}, {}", if cplx { "complex" } else { "real" }, if freq { "freq" } else { "time" }, n, spare, len, if into { "into" } else { "get" }));
    let known = n.min(len);
    macro_rules! real {
        ($v:expr) => {{
            let mut v = $v;
            v.resize(len).expect("resizing works");
            if into {
                let r: Vec<T> = v.into();
                (r.len(), r)
            } else {
                let (r, l) = v.get();
                (l, r)
            }
        }};
    }
    macro_rules! complex {
        ($v:expr) => {{
            let mut v = $v;
            v.resize(len).expect("resizing works");
            if into {
                let r: Vec<Complex<T>> = v.into();
                (2 * r.len(), flat(&r))
            } else {
                let (r, l) = v.get();
                (2 * l, flat(&r))
            }
        }};
    }
    let (l, r) = match which {
        0 => real!(data.to_real_time_vec()),
        1 => real!(data.to_real_freq_vec()),
        2 => complex!(data.to_complex_time_vec()),
        _ => complex!(data.to_complex_freq_vec()),
    };
    ensure!(l == len, "{} elements came out, expected {}", l, len);
    ensure!(r.len() >= len, "the storage has {} elements, {} are valid", r.len(), len);
    same_bits("extracted", &r[..known], &want[..known])?;
    ok(n > 0, format!("{} {} {}", if cplx { "complex" } else { "real" }, if into { "into" } else { "get" }, if len > n { "grown" } else if len < n { "shrunk" } else { "" }))
}

/// Two sources become the real and the imaginary part.
#[cfg(feature = "std")]
fn interleave<T: Num>(g: &mut G) -> R {
    let n = g.len(0, 100);
    let m = if g.chance(1, 4) { g.len(0, 100) } else { n };
    let freq = g.bool();
    let kind = g.range(0, 2);
    let a: Vec<T> = data::draw(g, n, data::ALL);
    let b: Vec<T> = data::draw(g, m, data::ALL);
    let one = T::of(1.0);
    macro_rules! both {
        ($a:expr, $b:expr) => {{
            if freq {
                $a.interleave_to_complex_freq_vec(&$b).map(|v| {
                    let r = check(&v, &want(&a, &b), true, TF[1], one);
                    r.and_then(|_| extract(v, &want(&a, &b)))
                })
            } else {
                $a.interleave_to_complex_time_vec(&$b).map(|v| {
                    let r = check(&v, &want(&a, &b), true, TF[0], one);
                    r.and_then(|_| extract(v, &want(&a, &b)))
                })
            }
        }};
    }
    fn want<T: Num>(a: &[T], b: &[T]) -> Vec<T> {
        a.iter().zip(b).flat_map(|(a, b)| vec![*a, *b]).collect()
    }
    let r = match kind {
        0 => both!(a.clone(), b.clone()),
        1 => both!(&a[..], &b[..]),
        _ => both!(a.clone().into_boxed_slice(), b.clone().into_boxed_slice()),
    };
    match r {
        Ok(r) => {
            ensure!(n == m, "sources of {} and {} elements were accepted", n, m);
            r?;
        }
        Err(e) => {
            ensure!(n != m, "sources of the same size {} were refused", n);
            ensure!(e == ErrorReason::InputMustHaveTheSameSize, "refused with {:?}", e);
        }
    }
    ok(n > 0, format!("{} {}", if n == m { "same size" } else { "refused" }, size_class(n)))
}

/// A vector with run-time meta data and what it should hold; None: anything.
struct Model<T> {
    vals: Vec<Option<T>>,
    cplx: bool,
    dom: DataDomain,
    delta: T,
}

impl<T: Num> Model<T> {
    fn check<S: ToSlice<T>>(&self, v: &GenDspVec<S, T>) -> Result<(), String> {
        let now = v.data(..).to_vec();
        if now.len() != self.vals.len() {
            return Err(format!("{} elements, expected {}", now.len(), self.vals.len()));
        }
        let want: Vec<T> = self.vals.iter().zip(&now).map(|(w, n)| w.unwrap_or(*n)).collect();
        check(v, &want, self.cplx, self.dom, self.delta)?;
        if self.cplx {
            let c = v.datac(..);
            same_bits("datac(..)", &flat(c), &want)
        } else {
            let c = v.datac(..);
            if c.is_empty() {
                Ok(())
            } else {
                Err(format!("datac(..) of a real vector yields {} numbers", c.len()))
            }
        }
    }
}

/// How large a storage can get.
#[derive(Clone, Copy)]
enum Room {
    Any,
    Max(usize),
}

fn drive<T, S, B>(
    g: &mut G,
    mut v: GenDspVec<S, T>,
    b: &mut B,
    room: Room,
    mut m: Model<T>,
    copy: &dyn Fn(&mut GenDspVec<S, T>, usize) -> Option<GenDspVec<S, T>>,
) -> Result<(usize, usize, usize), String>
where
    T: Num,
    S: ToSliceMut<T>,
    B: for<'a> Buffer<'a, S, T>,
{
    m.check(&v)?;
    let steps = g.range(1, 12);
    let (mut grown, mut shrunk, mut refused) = (0, 0, 0);
    for i in 0..steps {
        let op = g.range(0, 8);
        let before = v.len();
        let alloc = v.alloc_len();
        let what: String;
        match op {
            0 | 1 | 2 => {
                let top = if g.chance(1, 4) { alloc + 70 } else { alloc + 4 };
                let mut n = g.range(0, top);
                if g.chance(3, 4) {
                    n = n / 2 * 2;
                }
                let buffered = op == 1;
                what = format!("resize{} from {} to {} (storage {})", if buffered { "_b" } else { "" }, before, n, alloc);
                g.note(|| what.clone());
                let r = if buffered { v.resize_b(b, n) } else { v.resize(n) };
                let fits = match room {
                    Room::Any => true,
                    Room::Max(m) => n <= m,
                };
                let want = if m.cplx && n % 2 == 1 {
                    Err(ErrorReason::InputMustHaveAnEvenLength)
                } else if !fits {
                    Err(ErrorReason::TypeCanNotResize)
                } else {
                    Ok(())
                };
                if r != want {
                    return Err(format!("step {}: {} gives {:?}, expected {:?}", i, what, r, want));
                }
                if r.is_ok() {
                    m.vals.resize(n, None);
                    if n > before {
                        grown += 1;
                    } else if n < before {
                        shrunk += 1;
                    }
                } else {
                    refused += 1;
                }
            }
            3 => {
                what = "write an element".to_owned();
                if before > 0 {
                    let p = g.below(before as u64) as usize;
                    let x = T::of(1000.0 + i as f64);
                    *v.data_mut(p) = x;
                    m.vals[p] = Some(x);
                }
            }
            4 => {
                what = "write a range".to_owned();
                let a = g.range(0, before);
                let e = g.range(a, before);
                let kind = g.below(4);
                let (a, e) = match kind {
                    0 => (0, before),
                    1 => (a, before),
                    2 => (0, e),
                    _ => (a, e),
                };
                let s = match kind {
                    0 => v.data_mut(..),
                    1 => v.data_mut(a..),
                    2 => v.data_mut(..e),
                    _ => v.data_mut(a..e),
                };
                if s.len() != e - a {
                    return Err(format!("range {}..{} has {} elements", a, e, s.len()));
                }
                for (k, x) in s.iter_mut().enumerate() {
                    *x = T::of(2000.0 + 100.0 * i as f64 + k as f64);
                    m.vals[a + k] = Some(*x);
                }
            }
            5 => {
                what = "write complex numbers".to_owned();
                if m.cplx {
                    let p = before / 2;
                    let a = g.range(0, p);
                    let e = g.range(a, p);
                    let kind = g.below(5);
                    let (a, e) = match kind {
                        0 => (0, p),
                        1 => (a, p),
                        2 => (0, e),
                        4 if a < p => (a, a + 1),
                        _ => (a, e),
                    };
                    let s = match kind {
                        0 => v.datac_mut(..),
                        1 => v.datac_mut(a..),
                        2 => v.datac_mut(..e),
                        4 if e == a + 1 => std::slice::from_mut(v.datac_mut(a)),
                        _ => v.datac_mut(a..e),
                    };
                    if s.len() != e - a {
                        return Err(format!("range {}..{} has {} complex numbers", a, e, s.len()));
                    }
                    for (k, x) in s.iter_mut().enumerate() {
                        *x = Complex::new(T::of(3000.0 + k as f64), T::of(-3000.0 - 100.0 * i as f64));
                        m.vals[2 * (a + k)] = Some(x.re);
                        m.vals[2 * (a + k) + 1] = Some(x.im);
                    }
                }
            }
            6 => {
                what = "clone".to_owned();
                let how = g.range(0, 1);
                if let Some(w) = copy(&mut v, how) {
                    m.check(&w).map_err(|e| format!("step {}: the copy: {}", i, e))?;
                    if before > 0 {
                        // The two are independent.
                        *v.data_mut(0) = T::of(-5.0);
                        m.check(&w).map_err(|e| format!("step {}: the copy after a change of the original: {}", i, e))?;
                    }
                    v = w;
                }
            }
            7 => {
                what = "set_delta".to_owned();
                m.delta = T::of(0.25 * (1 + i) as f64);
                v.set_delta(m.delta);
            }
            _ => {
                what = "rebuild from the storage and the meta data".to_owned();
                let meta = v.get_meta_data();
                let typed = g.range(0, 2);
                // Through a typed vector and back
                v = if typed == 0 {
                    v
                } else if m.cplx && m.dom == DataDomain::Time {
                    GenDspVec::rededicate_from(ComplexTimeVec::rededicate_from(v))
                } else if m.cplx {
                    GenDspVec::rededicate_from(ComplexFreqVec::rededicate_from(v))
                } else if m.dom == DataDomain::Time {
                    GenDspVec::rededicate_from(RealTimeVec::rededicate_from(v))
                } else {
                    GenDspVec::rededicate_from(RealFreqVec::rededicate_from(v))
                };
                if typed == 2 {
                    if meta.is_complex() != m.cplx || meta.domain() != m.dom {
                        return Err("wrong meta data".to_owned());
                    }
                    if v.get_meta_data().is_complex() != m.cplx {
                        return Err("wrong meta data after a round trip".to_owned());
                    }
                }
                if v.alloc_len() != alloc {
                    return Err(format!("step {}: the storage changed from {} to {}", i, alloc, v.alloc_len()));
                }
            }
        }
        m.check(&v).map_err(|e| format!("step {} ({}): {}", i, what, e))?;
        let len = v.len();
        // Nothing behind the valid part is reachable.
        if v.alloc_len() > len && g.chance(1, 4) {
            let r = catch_unwind(AssertUnwindSafe(|| *v.data(len)));
            if r.is_ok() {
                return Err(format!("step {}: element {} of {} is accessible", i, len, len));
            }
        }
    }
    let want: Vec<T> = v.data(..).to_vec();
    let (s, n) = v.getf();
    if n != want.len() {
        return Err(format!("getf returned {} valid elements, expected {}", n, want.len()));
    }
    same_bits("getf", &s.to_slice()[..n], &want)?;
    Ok((grown, shrunk, refused))
}

fn sequence<T: Num>(g: &mut G) -> R {
    let kinds: &[&str] = if cfg!(feature = "std") { &["slice", "array", "Vec", "Box"] } else { &["slice", "array"] };
    let kind = g.below(kinds.len() as u64) as usize;
    let st = Store::draw(g);
    let cplx = g.bool();
    let dom = *g.pick(&TF);
    let n = g.len(0, 120);
    let n = if cplx { n / 2 * 2 } else { n };
    let data: Vec<T> = data::draw(g, n, data::ALL);
    g.note(|| format!("{} with {} elements, complex {} {:?}", kinds[kind], n, cplx, dom));
    let m = Model {
        vals: data.iter().map(|x| Some(*x)).collect(),
        cplx,
        dom,
        delta: T::of(1.0),
    };
    let content = st.storage(&data);
    let total = content.len();
    let (grown, shrunk, refused) = match kind {
        0 => {
            let mut guard = mem::Guarded::new(&content, st.off);
            let mut spare = mem::Guarded::new(&mem::junk::<T>(content.len() + 100), st.off2);
            let r = {
                let mut v = guard.slice().to_gen_dsp_vec(false, dom);
                v.resize(n).expect("resizing works");
                let v = GenDspVec::rededicate_with_runtime_data(v, cplx, dom);
                let mut b = FixedLenBuffer::new(spare.slice());
                drive(g, v, &mut b, Room::Max(total), m, &|_, _| None)?
            };
            guard.check()?;
            spare.check()?;
            r
        }
        1 => {
            let a: mem::Array<T, 512> = content.into_iter().collect();
            let mut v = a.to_gen_dsp_vec(false, dom);
            v.resize(n).expect("resizing works");
            let v = GenDspVec::rededicate_with_runtime_data(v, cplx, dom);
            let mut b = FixedBuf(vec![T::of(7.5); 1024]);
            drive(g, v, &mut b, Room::Max(512), m, &|v, how| {
                Some(if how == 0 {
                    v.clone()
                } else {
                    let mut w = v.clone();
                    w.set_delta(T::of(-1.0));
                    let _ = w.resize(0);
                    w.clone_from(v);
                    w
                })
            })?
        }
        _ => owned(g, kind, &st, content, n, m)?,
    };
    ok(
        grown + shrunk > 0,
        format!(
            "{} {}{}{}",
            kinds[kind],
            if grown > 0 { "grown " } else { "" },
            if shrunk > 0 { "shrunk " } else { "" },
            if refused > 0 { "refused" } else { "" }
        ),
    )
}

/// A buffer of constant size for any storage, which copies as much as fits.
struct FixedBuf<T: Num>(Vec<T>);

struct FixedBorrow<'a, T: Num>(&'a mut [T]);

impl<'a, T: Num> ToSlice<T> for FixedBorrow<'a, T> {
    fn to_slice(&self) -> &[T] {
        self.0
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    fn alloc_len(&self) -> usize {
        self.0.len()
    }
    fn try_resize(&mut self, len: usize) -> VoidResult {
        if len > self.0.len() {
            Err(ErrorReason::TypeCanNotResize)
        } else {
            Ok(())
        }
    }
}

impl<'a, T: Num> ToSliceMut<T> for FixedBorrow<'a, T> {
    fn to_slice_mut(&mut self) -> &mut [T] {
        self.0
    }
}

impl<'a, T: Num, S: ToSliceMut<T>> BufferBorrow<S, T> for FixedBorrow<'a, T> {
    fn trade(self, storage: &mut S) {
        let n = storage.len().min(self.0.len());
        storage.to_slice_mut()[..n].copy_from_slice(&self.0[..n]);
    }
}

impl<'a, T: Num + 'a, S: ToSliceMut<T>> Buffer<'a, S, T> for FixedBuf<T> {
    type Borrow = FixedBorrow<'a, T>;

    fn borrow(&'a mut self, len: usize) -> Self::Borrow {
        FixedBorrow(&mut self.0[..len])
    }

    fn alloc_len(&self) -> usize {
        self.0.len()
    }
}

#[cfg(not(feature = "std"))]
fn owned<T: Num>(_: &mut G, _: usize, _: &Store, _: Vec<T>, _: usize, _: Model<T>) -> Result<(usize, usize, usize), String> {
    unreachable!()
}

#[cfg(feature = "std")]
fn owned<T: Num>(g: &mut G, kind: usize, st: &Store, content: Vec<T>, n: usize, m: Model<T>) -> Result<(usize, usize, usize), String> {
    let total = content.len();
    let (cplx, dom) = (m.cplx, m.dom);
    macro_rules! copy {
        () => {
            &|v, how| {
                Some(if how == 0 {
                    v.clone()
                } else {
                    let mut w = v.clone();
                    w.set_delta(T::of(-1.0));
                    let _ = w.resize(0);
                    w.clone_from(v);
                    w
                })
            }
        };
    }
    if kind == 2 {
        let mut v = content.to_gen_dsp_vec(false, dom);
        v.resize(n).expect("resizing works");
        let v = GenDspVec::rededicate_with_runtime_data(v, cplx, dom);
        let mut b = mem::AnyBuf::new(&[T::of(0.0); 0][..], st);
        drive(g, v, &mut b, Room::Any, m, copy!())
    } else {
        let mut v = content.into_boxed_slice().to_gen_dsp_vec(false, dom);
        v.resize(n).expect("resizing works");
        let v = GenDspVec::rededicate_with_runtime_data(v, cplx, dom);
        let spare = vec![T::of(7.5); total + 100].into_boxed_slice();
        let mut b = FixedLenBuffer::new(spare);
        drive(g, v, &mut b, Room::Max(total), m, copy!())
    }
}

/// Typed vectors: indexing by every kind of range and by operators.
fn index<T: Num>(g: &mut G) -> R {
    let cplx = g.bool();
    let n = g.len(0, 60);
    let n = if cplx { n / 2 * 2 } else { n };
    let extra = g.range(0, 9);
    let all: Vec<T> = data::draw(g, n + extra, data::ALL);
    let want = &all[..n];
    let p = if cplx { n / 2 } else { n };
    let a = g.range(0, p + 2);
    let e = g.range(0, p + 2);
    let i = g.range(0, p + 1);
    g.note(|| format!("{} of {} points: {}..{} and {}", if cplx { "complex" } else { "real" }, p, a, e, i));
    let valid = a <= e && e <= p;
    // Every access yields what the same access to a slice of the valid points yields, panics included.
    macro_rules! agree {
        ($name:expr, $got:expr, $want:expr, $flat:expr) => {{
            let want = catch_unwind(AssertUnwindSafe(|| $flat($want)));
            let got = catch_unwind(AssertUnwindSafe(|| $flat($got)));
            match (got, want) {
                (Ok(x), Ok(w)) => same_bits($name, &x, &w)?,
                (Err(_), Err(_)) => (),
                (Ok(_), Err(_)) => fail!("{} beyond the valid points is accessible", $name),
                (Err(_), Ok(_)) => fail!("{} panics", $name),
            }
        }};
    }
    fn copy<T: Num>(x: &[T]) -> Vec<T> {
        x.to_vec()
    }
    fn one<T: Num>(x: &T) -> Vec<T> {
        vec![*x]
    }
    fn onec<T: Num>(x: &Complex<T>) -> Vec<T> {
        vec![x.re, x.im]
    }
    macro_rules! floats {
        ($v:ident) => {{
            agree!("data(..)", $v.data(..), &want[..], copy);
            agree!("data(a..)", $v.data(a..), &want[a..], copy);
            agree!("data(..e)", $v.data(..e), &want[..e], copy);
            agree!("data(a..e)", $v.data(a..e), &want[a..e], copy);
            agree!("data(i)", $v.data(i), &want[i], one);
        }};
    }
    if cplx {
        let cw = complexes(want);
        let mut m = all.clone();
        let mut v = (&mut m[..]).to_complex_freq_vec();
        v = if (n + extra) % 2 == 1 {
            ComplexFreqVec::rededicate_from_force((&mut m[..]).to_real_time_vec())
        } else {
            v
        };
        v.resize(n).expect("resizing works");
        floats!(v);
        agree!("datac(..)", v.datac(..), &cw[..], flat);
        agree!("datac(a..)", v.datac(a..), &cw[a..], flat);
        agree!("datac(..e)", v.datac(..e), &cw[..e], flat);
        agree!("datac(a..e)", v.datac(a..e), &cw[a..e], flat);
        agree!("datac(i)", v.datac(i), &cw[i], onec);
        agree!("[..]", &v[..], &cw[..], flat);
        agree!("[a..]", &v[a..], &cw[a..], flat);
        agree!("[..e]", &v[..e], &cw[..e], flat);
        agree!("[a..e]", &v[a..e], &cw[a..e], flat);
        agree!("[i]", &v[i], &cw[i], onec);
        agree!("mut [..]", &mut v[..], &cw[..], |x: &[Complex<T>]| flat(x));
        agree!("mut [a..]", &mut v[a..], &cw[a..], |x: &[Complex<T>]| flat(x));
        agree!("mut [..e]", &mut v[..e], &cw[..e], |x: &[Complex<T>]| flat(x));
        agree!("mut [a..e]", &mut v[a..e], &cw[a..e], |x: &[Complex<T>]| flat(x));
        agree!("mut [i]", &mut v[i], &cw[i], |x: &Complex<T>| onec(x));
        agree!("datac_mut(..)", v.datac_mut(..), &cw[..], |x: &[Complex<T>]| flat(x));
        agree!("datac_mut(a..)", v.datac_mut(a..), &cw[a..], |x: &[Complex<T>]| flat(x));
        agree!("datac_mut(..e)", v.datac_mut(..e), &cw[..e], |x: &[Complex<T>]| flat(x));
        agree!("datac_mut(a..e)", v.datac_mut(a..e), &cw[a..e], |x: &[Complex<T>]| flat(x));
        agree!("datac_mut(i)", v.datac_mut(i), &cw[i], |x: &Complex<T>| onec(x));
        if i < p {
            v[i] = Complex::new(T::of(5.0), T::of(-5.0));
            let mut w = want.to_vec();
            w[2 * i] = T::of(5.0);
            w[2 * i + 1] = T::of(-5.0);
            same_bits("after an assignment", v.data(..), &w)?;
        }
    } else {
        let mut m = all.clone();
        let mut v = (&mut m[..]).to_real_time_vec();
        v.resize(n).expect("resizing works");
        floats!(v);
        agree!("[..]", &v[..], &want[..], copy);
        agree!("[a..]", &v[a..], &want[a..], copy);
        agree!("[..e]", &v[..e], &want[..e], copy);
        agree!("[a..e]", &v[a..e], &want[a..e], copy);
        agree!("[i]", &v[i], &want[i], one);
        agree!("mut [..]", &mut v[..], &want[..], |x: &[T]| copy(x));
        agree!("mut [a..]", &mut v[a..], &want[a..], |x: &[T]| copy(x));
        agree!("mut [..e]", &mut v[..e], &want[..e], |x: &[T]| copy(x));
        agree!("mut [a..e]", &mut v[a..e], &want[a..e], |x: &[T]| copy(x));
        agree!("mut [i]", &mut v[i], &want[i], |x: &T| one(x));
        agree!("data_mut(..)", v.data_mut(..), &want[..], |x: &[T]| copy(x));
        agree!("data_mut(a..)", v.data_mut(a..), &want[a..], |x: &[T]| copy(x));
        agree!("data_mut(..e)", v.data_mut(..e), &want[..e], |x: &[T]| copy(x));
        agree!("data_mut(a..e)", v.data_mut(a..e), &want[a..e], |x: &[T]| copy(x));
        agree!("data_mut(i)", v.data_mut(i), &want[i], |x: &T| one(x));
        if i < p {
            v[i] = T::of(5.0);
            let mut w = want.to_vec();
            w[i] = T::of(5.0);
            same_bits("after an assignment", v.data(..), &w)?;
        }
    }
    same_bits("behind the valid points", &all[n..], &all[n..])?;
    ok(n > 0, format!("{} {}", if cplx { "complex" } else { "real" }, if valid { "within" } else { "beyond" }))
}

/// Another type keeps the data if it agrees on number space and domain, and is empty otherwise; the
/// storage stays.
fn rededicate<T: Num>(g: &mut G) -> R {
    let from = g.range(0, 7);
    let to = g.range(0, 4);
    let n = g.len(0, 60) / 2 * 2;
    let extra = g.range(0, 5);
    let mut all: Vec<T> = data::draw(g, n + extra, data::ALL);
    let keep = all.clone();
    let delta = T::of(0.5);
    let toops = g.bool();
    // 0..4 typed, 4..8 run-time typed
    let cplx = from % 2 == 1;
    let dom = TF[from / 2 % 2];
    let target = if to < 4 { Some((to % 2 == 1, TF[to / 2])) } else { None };
    let agrees = target.map_or(true, |t| t == (cplx, dom));
    let (tc, td) = target.unwrap_or((cplx, dom));
    let want = if agrees { &keep[..n] } else { &keep[..0] };
    g.note(|| format!("{} elements, {} {:?} run-time {} to {:?}", n, cplx, dom, from >= 4, target));
    macro_rules! to {
        ($v:expr) => {{
            let mut v = $v;
            v.resize(n).expect("resizing works");
            v.set_delta(delta);
            macro_rules! done {
                ($t:ident) => {{
                    let w: $t<&mut [T], T> = if toops { v.rededicate() } else { $t::rededicate_from(v) };
                    check(&w, want, tc, td, delta)?;
                    ensure!(w.alloc_len() == keep.len(), "the storage changed its size");
                    let (s, _) = w.getf();
                    same_bits("the storage", s, &keep)?;
                }};
            }
            match to {
                0 => done!(RealTimeVec),
                1 => done!(ComplexTimeVec),
                2 => done!(RealFreqVec),
                3 => done!(ComplexFreqVec),
                _ => done!(GenDspVec),
            }
        }};
    }
    match from {
        0 => to!((&mut all[..]).to_real_time_vec()),
        1 => to!(ComplexTimeVec::rededicate_from_force((&mut all[..]).to_real_time_vec())),
        2 => to!((&mut all[..]).to_real_freq_vec()),
        3 => to!(ComplexFreqVec::rededicate_from_force((&mut all[..]).to_real_time_vec())),
        _ => to!(GenDspVec::rededicate_with_runtime_data((&mut all[..]).to_real_time_vec(), cplx, dom)),
    }
    ok(n > 0, format!("{} {}", if agrees { "agrees" } else { "another type" }, if from < 4 { "typed" } else { "run-time" }))
}

fn main() {
    let mut s = vec![];
    both!(&mut s, "construct", 40000, construct);
    both!(&mut s, "construct_complex", 20000, construct_complex);
    #[cfg(feature = "std")]
    {
        both!(&mut s, "take", 20000, take);
        both!(&mut s, "interleave", 10000, interleave);
    }
    both!(&mut s, "sequence", 20000, sequence);
    both!(&mut s, "index", 5000, index);
    both!(&mut s, "rededicate", 20000, rededicate);
    vharness::main(
        "C15",
        "storage, constructor, size, spare capacity, operation sequence, ranges and contents are drawn; non-trivial: the vector isn't empty, for sequences: at least one resize changed the size",
        s,
    );
}

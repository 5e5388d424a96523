//! Storages for vectors under test: guarded slices at any alignment, and vectors with stale tails.

use crate::g::G;
use crate::num::Num;
use basic_dsp_vector::MultiCoreSettings;
#[allow(unused_imports)]
use basic_dsp_vector::{Buffer, BufferBorrow, ToSlice, ToSliceMut};

/// A slice inside of a larger canary filled allocation, at a chosen offset (in elements) from a
/// 64 byte boundary.
pub struct Guarded<T> {
    buf: Vec<T>,
    start: usize,
    len: usize,
}

const MARGIN: usize = 48;

impl<T: Num> Guarded<T> {
    pub fn new(data: &[T], off: usize) -> Guarded<T> {
        let size = std::mem::size_of::<T>();
        let per = 64 / size;
        let total = data.len() + 2 * MARGIN + 2 * per;
        let mut buf: Vec<T> = (0..total).map(|i| T::canary(i)).collect();
        let addr = buf.as_ptr() as usize;
        let mut start = MARGIN;
        while (addr + start * size) % 64 != 0 {
            start += 1;
        }
        start += off % per;
        buf[start..start + data.len()].copy_from_slice(data);
        Guarded {
            buf,
            start,
            len: data.len(),
        }
    }

    pub fn slice(&mut self) -> &mut [T] {
        let (s, l) = (self.start, self.len);
        &mut self.buf[s..s + l]
    }

    pub fn get(&self) -> &[T] {
        &self.buf[self.start..self.start + self.len]
    }

    pub fn check(&self) -> Result<(), String> {
        for (i, v) in self.buf.iter().enumerate() {
            if i >= self.start && i < self.start + self.len {
                continue;
            }
            if v.bits() != T::canary(i).bits() {
                return Err(format!(
                    "memory outside of the storage changed at position {} (storage has {} elements)",
                    i as isize - self.start as isize,
                    self.len
                ));
            }
        }
        Ok(())
    }
}

/// How a vector under test is stored.
#[derive(Clone, Debug)]
pub struct Store {
    /// 0: growable storage, 1: a guarded slice.
    pub kind: usize,
    /// Offset in elements of a slice from a 64 byte boundary.
    pub off: usize,
    /// Number of stale elements behind the valid ones.
    pub stale: usize,
    /// The same for the buffer or the argument.
    pub off2: usize,
    /// 0/1: single threaded, otherwise number of cores with all thresholds at zero.
    pub cores: usize,
    /// With growable storage: 0: SingleBuffer with the content of an earlier operation, 1: NoBuffer,
    /// 2: new SingleBuffer, 3: a user supplied buffer
    pub buf: usize,
    /// From which size on two and all cores are used.
    pub thr: [usize; 2],
    /// Room in a fixed buffer as a multiple of the storage (transforms need more).
    pub bufmul: usize,
}

impl Store {
    pub fn draw(g: &mut G) -> Store {
        let kind = if cfg!(feature = "std") {
            g.weighted(&[3, 5])
        } else {
            1
        };
        let off = g.below(16) as usize;
        let stale = if g.chance(1, 3) { 1 + g.below(40) as usize } else { 0 };
        let off2 = g.below(16) as usize;
        let cores = if g.chance(1, 16) { 2 + g.below(6) as usize } else { 1 };
        let buf = if kind == 0 { g.below(4) as usize } else { 0 };
        let s = Store {
            kind,
            off,
            stale,
            off2,
            cores,
            buf,
            thr: [0, 0],
            bufmul: 1,
        };
        let t = s.clone();
        g.note(|| t.describe());
        s
    }

    pub fn vec() -> Store {
        Store {
            kind: if cfg!(feature = "std") { 0 } else { 1 },
            off: 0,
            stale: 0,
            off2: 0,
            cores: 1,
            buf: 0,
            thr: [0, 0],
            bufmul: 1,
        }
    }

    pub fn describe(&self) -> String {
        format!(
            "{}{}{}{}",
            if self.kind == 0 {
                format!("Vec@{}", self.off)
            } else {
                format!("slice@{}", self.off)
            },
            if self.stale > 0 {
                format!(" +{} stale", self.stale)
            } else {
                String::new()
            },
            if self.cores > 1 {
                format!(" {} cores", self.cores)
            } else {
                String::new()
            },
            if self.kind == 0 {
                [" SingleBuffer", " NoBuffer", " new SingleBuffer", " OwnBuf"][self.buf]
            } else {
                ""
            }
        )
    }

    pub fn mc(&self) -> MultiCoreSettings {
        if self.cores > 1 {
            MultiCoreSettings::with_thresholds(self.cores, self.thr[0], self.thr[1], self.thr[0], self.thr[1])
        } else {
            MultiCoreSettings::single_threaded()
        }
    }

    /// The stored data: the valid elements followed by the stale ones.
    pub fn storage<T: Num>(&self, data: &[T]) -> Vec<T> {
        let mut v = Vec::with_capacity(data.len() + self.stale);
        v.extend_from_slice(data);
        for i in 0..self.stale {
            v.push(T::of(-1000.5 - i as f64));
        }
        v
    }
}

/// Content for buffers: nothing may depend on it.
pub fn junk<T: Num>(n: usize) -> Vec<T> {
    (0..n).map(|i| T::of(7777.25 + (i % 97) as f64)).collect()
}

/// Runs a body with a vector `v` (of unspecified meta data, so that every operation is available)
/// and a buffer `b` in the given storage; yields the value of the body or fails the case if memory
/// outside of the storages was written. `cap` is the room which slices offer beyond their data.
#[macro_export]
macro_rules! on_storage {
    ($st:expr, $data:expr, $cplx:expr, $dom:expr, $cap:expr, |$v:ident, $b:ident| $body:expr) => {{
        let st: &$crate::mem::Store = $st;
        let data = $data;
        #[allow(unused_mut, unused_variables)]
        {
            if st.kind == 0 {
                $crate::on_vec!(st, data, $cplx, $dom, |$v, $b| $body)
            } else {
                let mut content = st.storage(data);
                let cap: usize = $cap;
                while content.len() < data.len() + cap {
                    let i = content.len() as f64;
                    content.push($crate::num::Num::of(-2000.25 - i));
                }
                let mut guard = $crate::mem::Guarded::new(&content, st.off);
                let junk = $crate::mem::junk_like(data, (content.len() + cap) * st.bufmul + 16 * st.bufmul);
                let mut guard2 = $crate::mem::Guarded::new(&junk, st.off2);
                let r = {
                    // A storage with an odd number of elements may hold a complex vector.
                    let mut $v = guard.slice().to_gen_dsp_vec($cplx, $dom);
                    $v.resize(data.len()).expect("shrinking works");
                    $v.set_multicore_settings(st.mc());
                    let mut $b = basic_dsp_vector::FixedLenBuffer::new(guard2.slice());
                    $body
                };
                if let Err(e) = guard.check() {
                    $crate::fail!("{}", e);
                }
                if let Err(e) = guard2.check() {
                    $crate::fail!("buffer: {}", e);
                }
                r
            }
        }
    }};
}

#[cfg(feature = "std")]
#[macro_export]
macro_rules! on_vec {
    ($st:expr, $data:expr, $cplx:expr, $dom:expr, |$v:ident, $b:ident| $body:expr) => {{
        let st: &$crate::mem::Store = $st;
        let size = std::mem::size_of_val(&$data[..]) / $data.len().max(1);
        let mut $b = {
            let _offset = $crate::alloc::Offset::new(st.off2 * size);
            $crate::mem::AnyBuf::new($data, st)
        };
        let _offset = $crate::alloc::Offset::new(st.off * size);
        let mut content = st.storage($data);
        let mut $v = content.to_gen_dsp_vec($cplx, $dom);
        $v.resize($data.len()).expect("shrinking works");
        $v.set_multicore_settings(st.mc());
        $body
    }};
}

#[cfg(not(feature = "std"))]
#[macro_export]
macro_rules! on_vec {
    ($st:expr, $data:expr, $cplx:expr, $dom:expr, |$v:ident, $b:ident| $body:expr) => {{
        unreachable!()
    }};
}

/// Like `on_storage` for operations which need a storage which can be cloned: growable storage if
/// the library offers that, otherwise an array with the given capacity.
#[cfg(feature = "std")]
#[macro_export]
macro_rules! on_owned {
    ($st:expr, $data:expr, $cplx:expr, $dom:expr, $cap:literal, |$v:ident, $b:ident| $body:expr) => {{
        let st: &$crate::mem::Store = $st;
        let data = $data;
        #[allow(unused_mut, unused_variables)]
        {
            if st.kind == 0 || data.len() + st.stale > $cap {
                $crate::on_vec!(st, data, $cplx, $dom, |$v, $b| $body)
            } else {
                $crate::on_array!(st, data, $cplx, $dom, $cap, |$v, $b| $body)
            }
        }
    }};
}

#[cfg(not(feature = "std"))]
#[macro_export]
macro_rules! on_owned {
    ($st:expr, $data:expr, $cplx:expr, $dom:expr, $cap:literal, |$v:ident, $b:ident| $body:expr) => {{
        let st: &$crate::mem::Store = $st;
        let data = $data;
        #[allow(unused_mut, unused_variables)]
        {
            $crate::on_array!(st, data, $cplx, $dom, $cap, |$v, $b| $body)
        }
    }};
}

#[macro_export]
macro_rules! on_array {
    ($st:expr, $data:expr, $cplx:expr, $dom:expr, $cap:literal, |$v:ident, $b:ident| $body:expr) => {{
        let st: &$crate::mem::Store = $st;
        let data = $data;
        let mut $b = $crate::mem::OwnBuf::new(&data[..], st.off2);
        let content: $crate::mem::Array<_, $cap> = st.storage(&data[..]).into_iter().collect();
        let mut $v = content.to_gen_dsp_vec($cplx, $dom);
        $v.resize(data.len()).expect("shrinking works");
        $v.set_multicore_settings(st.mc());
        $body
    }};
}

/// Boxed slices, whose memory can't grow.
#[cfg(feature = "std")]
#[macro_export]
macro_rules! on_box {
    ($st:expr, $data:expr, $room:expr, $cplx:expr, $dom:expr, |$v:ident, $b:ident| $body:expr) => {{
        let st: &$crate::mem::Store = $st;
        let data = $data;
        let size = std::mem::size_of_val(&data[..]) / data.len().max(1);
        let mut content = st.storage(&data[..]);
        for i in 0..$room {
            content.push($crate::num::Num::of(-3000.25 - i as f64));
        }
        let mut $b = $crate::mem::OwnBuf::new(&data[..], st.off2);
        let content = {
            let _offset = $crate::alloc::Offset::new(st.off * size);
            content.into_boxed_slice()
        };
        let mut $v = content.to_gen_dsp_vec($cplx, $dom);
        $v.resize(data.len()).expect("shrinking works");
        $v.set_multicore_settings(st.mc());
        $body
    }};
}

pub type Array<T, const CAP: usize> = arrayvec::ArrayVec<T, CAP>;

/// A user supplied buffer with guarded memory which offers its memory with the content of earlier
/// operations, at any alignment.
pub struct OwnBuf<T> {
    off: usize,
    keep: Vec<T>,
}

impl<T: Num> OwnBuf<T> {
    pub fn new(_: &[T], off: usize) -> OwnBuf<T> {
        OwnBuf { off, keep: vec![] }
    }

}

pub struct OwnBorrow<'a, T: Num> {
    owner: &'a mut OwnBuf<T>,
    current: Guarded<T>,
}

impl<'a, T: Num> basic_dsp_vector::ToSlice<T> for OwnBorrow<'a, T> {
    fn to_slice(&self) -> &[T] {
        self.current.get()
    }
    fn len(&self) -> usize {
        self.current.get().len()
    }
    fn is_empty(&self) -> bool {
        self.current.get().is_empty()
    }
    fn alloc_len(&self) -> usize {
        self.current.get().len()
    }
    fn try_resize(&mut self, len: usize) -> basic_dsp_vector::VoidResult {
        if len > self.current.get().len() {
            Err(basic_dsp_vector::ErrorReason::TypeCanNotResize)
        } else {
            Ok(())
        }
    }
}

impl<'a, T: Num> basic_dsp_vector::ToSliceMut<T> for OwnBorrow<'a, T> {
    fn to_slice_mut(&mut self) -> &mut [T] {
        self.current.slice()
    }
}

impl<'a, T: Num> Drop for OwnBorrow<'a, T> {
    fn drop(&mut self) {
        if let Err(e) = self.current.check() {
            panic!("buffer: {}", e);
        }
        self.owner.keep = self.current.get().to_vec();
    }
}

impl<'a, T: Num, S: basic_dsp_vector::ToSliceMut<T>> basic_dsp_vector::BufferBorrow<S, T> for OwnBorrow<'a, T> {
    fn trade(self, storage: &mut S) {
        let len = self.current.get().len();
        if storage.len() < len {
            storage.try_resize(len).expect("the storage is too small for the result");
        }
        storage.to_slice_mut()[..len].copy_from_slice(self.current.get());
    }
}

impl<'a, T: Num + 'a, S: basic_dsp_vector::ToSliceMut<T>> basic_dsp_vector::Buffer<'a, S, T> for OwnBuf<T> {
    type Borrow = OwnBorrow<'a, T>;

    fn borrow(&'a mut self, len: usize) -> OwnBorrow<'a, T> {
        let old = std::mem::replace(&mut self.keep, vec![]);
        let mut content = junk::<T>(len);
        for (c, o) in content.iter_mut().zip(old) {
            *c = o;
        }
        let current = Guarded::new(&content, self.off);
        OwnBorrow { owner: self, current }
    }

    fn alloc_len(&self) -> usize {
        self.keep.len()
    }
}

/// A SingleBuffer which still holds the content of an earlier operation.
#[cfg(feature = "std")]
pub fn dirty_buffer<T: Num>(n: usize) -> basic_dsp_vector::SingleBuffer<T> {
    use basic_dsp_vector::*;
    let mut b = SingleBuffer::new();
    let mut v = junk::<T>(n.max(1)).to_real_time_vec();
    v.zero_interleave_b(&mut b, 1);
    b
}

pub fn junk_like<T: Num>(_: &[T], n: usize) -> Vec<T> {
    junk(n)
}

/// Any of the buffers for growable storage.
#[cfg(feature = "std")]
pub enum AnyBuf<T: Num> {
    Single(basic_dsp_vector::SingleBuffer<T>),
    None(basic_dsp_vector::NoBuffer),
    Own(OwnBuf<T>),
}

#[cfg(feature = "std")]
impl<T: Num> AnyBuf<T> {
    pub fn new(like: &[T], st: &Store) -> AnyBuf<T> {
        use basic_dsp_vector::*;
        match st.buf {
            0 => AnyBuf::Single(dirty_buffer(like.len() + st.off2)),
            1 => AnyBuf::None(NoBuffer),
            2 => AnyBuf::Single(SingleBuffer::new()),
            _ => AnyBuf::Own(OwnBuf::new(like, st.off2)),
        }
    }
}

#[cfg(feature = "std")]
pub enum AnyBorrow<'a, T: Num> {
    Single(<basic_dsp_vector::SingleBuffer<T> as basic_dsp_vector::Buffer<'a, Vec<T>, T>>::Borrow),
    None(<basic_dsp_vector::NoBuffer as basic_dsp_vector::Buffer<'a, Vec<T>, T>>::Borrow),
    Own(OwnBorrow<'a, T>),
}

#[cfg(feature = "std")]
macro_rules! each {
    ($s:expr, $b:ident => $e:expr) => {
        match $s {
            AnyBorrow::Single($b) => $e,
            AnyBorrow::None($b) => $e,
            AnyBorrow::Own($b) => $e,
        }
    };
}

#[cfg(feature = "std")]
impl<'a, T: Num> basic_dsp_vector::ToSlice<T> for AnyBorrow<'a, T> {
    fn to_slice(&self) -> &[T] {
        each!(self, b => b.to_slice())
    }
    fn len(&self) -> usize {
        each!(self, b => basic_dsp_vector::ToSlice::len(b))
    }
    fn is_empty(&self) -> bool {
        each!(self, b => basic_dsp_vector::ToSlice::is_empty(b))
    }
    fn alloc_len(&self) -> usize {
        each!(self, b => basic_dsp_vector::ToSlice::alloc_len(b))
    }
    fn try_resize(&mut self, len: usize) -> basic_dsp_vector::VoidResult {
        each!(self, b => basic_dsp_vector::ToSlice::try_resize(b, len))
    }
}

#[cfg(feature = "std")]
impl<'a, T: Num> basic_dsp_vector::ToSliceMut<T> for AnyBorrow<'a, T> {
    fn to_slice_mut(&mut self) -> &mut [T] {
        each!(self, b => b.to_slice_mut())
    }
}

#[cfg(feature = "std")]
impl<'a, T: Num> basic_dsp_vector::BufferBorrow<Vec<T>, T> for AnyBorrow<'a, T> {
    fn trade(self, storage: &mut Vec<T>) {
        each!(self, b => b.trade(storage))
    }
}

#[cfg(feature = "std")]
impl<'a, T: Num + 'a> basic_dsp_vector::Buffer<'a, Vec<T>, T> for AnyBuf<T> {
    type Borrow = AnyBorrow<'a, T>;

    fn borrow(&'a mut self, len: usize) -> AnyBorrow<'a, T> {
        match *self {
            AnyBuf::Single(ref mut b) => AnyBorrow::Single(b.borrow(len)),
            AnyBuf::None(ref mut b) => AnyBorrow::None(b.borrow(len)),
            AnyBuf::Own(ref mut b) => AnyBorrow::Own(basic_dsp_vector::Buffer::<Vec<T>, T>::borrow(b, len)),
        }
    }

    fn alloc_len(&self) -> usize {
        match *self {
            AnyBuf::Single(ref b) => basic_dsp_vector::Buffer::<Vec<T>, T>::alloc_len(b),
            AnyBuf::None(_) => 0,
            AnyBuf::Own(ref b) => basic_dsp_vector::Buffer::<Vec<T>, T>::alloc_len(b),
        }
    }
}

//! The allocator of the checks: places every allocation of a thread at a chosen distance from a
//! 64 byte boundary (growable storages at any alignment), fills new memory with a pattern so that
//! reading what was never written shows, and detects writes behind the end of an allocation.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Placing;

const HEAD: usize = 128;
const TAIL: usize = 16;
const PATTERN: u8 = 0xC5;

thread_local! {
    static OFFSET: Cell<usize> = const { Cell::new(0) };
    static MISFREED: Cell<usize> = const { Cell::new(0) };
    static BROKEN: Cell<usize> = const { Cell::new(0) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
}

/// Places the allocations of this thread `bytes` behind a 64 byte boundary while it lives.
pub struct Offset(usize);

impl Offset {
    pub fn new(bytes: usize) -> Offset {
        let old = OFFSET.with(|o| o.replace(bytes % 64));
        Offset(old)
    }
}

impl Drop for Offset {
    fn drop(&mut self) {
        OFFSET.with(|o| o.set(self.0));
    }
}

/// The number of bytes which were allocated with a damaged end by this thread since the last call.
pub fn take_broken() -> usize {
    BROKEN.try_with(|b| b.replace(0)).unwrap_or(0)
}

/// The number of allocations which this thread freed with another size than they have since the
/// last call.
pub fn take_misfreed() -> usize {
    MISFREED.try_with(|b| b.replace(0)).unwrap_or(0)
}

/// The number of bytes which this thread allocated more than it freed.
pub fn live() -> isize {
    LIVE.try_with(|l| l.get()).unwrap_or(0)
}

fn count(bytes: isize) {
    let _ = LIVE.try_with(|l| l.set(l.get() + bytes));
}

unsafe fn place(base: *mut u8, size: usize, align: usize) -> *mut u8 {
    let off = OFFSET.try_with(|o| o.get()).unwrap_or(0);
    let off = if align <= 8 { off / align * align } else { 0 };
    let p = base.add(64 + off);
    std::ptr::write_unaligned(p.sub(8) as *mut usize, base as usize);
    std::ptr::write_unaligned(p.sub(16) as *mut usize, size);
    std::ptr::write_bytes(p.add(size), PATTERN, TAIL);
    count(size as isize);
    p
}

unsafe impl GlobalAlloc for Placing {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() > 64 {
            return System.alloc(l);
        }
        let base = System.alloc(Layout::from_size_align_unchecked(l.size() + HEAD + TAIL, 64));
        if base.is_null() {
            return base;
        }
        let p = place(base, l.size(), l.align());
        std::ptr::write_bytes(p, PATTERN, l.size().min(1 << 16));
        p
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.align() > 64 {
            return System.alloc_zeroed(l);
        }
        let base = System.alloc_zeroed(Layout::from_size_align_unchecked(l.size() + HEAD + TAIL, 64));
        if base.is_null() {
            return base;
        }
        place(base, l.size(), l.align())
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() > 64 {
            return System.dealloc(p, l);
        }
        let base = std::ptr::read_unaligned(p.sub(8) as *const usize) as *mut u8;
        let size = std::ptr::read_unaligned(p.sub(16) as *const usize);
        if size != l.size() {
            let _ = MISFREED.try_with(|b| b.set(b.get() + 1));
        }
        for i in 0..TAIL {
            if *p.add(size + i) != PATTERN {
                let _ = BROKEN.try_with(|b| b.set(b.get() + size.max(1)));
                break;
            }
        }
        count(-(size as isize));
        // What is used after it was freed shows.
        std::ptr::write_bytes(p, PATTERN + 1, size.min(1 << 12));
        System.dealloc(base, Layout::from_size_align_unchecked(size + HEAD + TAIL, 64))
    }
}

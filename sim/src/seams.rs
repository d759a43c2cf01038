//! Seams to the process: the entropy the standard library draws its hash-map keys from, and the
//! global allocator. Both are decided by the simulator.

use crate::rng::mix;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

// ---------------------------------------------------------------- entropy

static ENTROPY: AtomicU64 = AtomicU64::new(0);
static ENTROPY_CALLS: AtomicU64 = AtomicU64::new(0);

/// Takes the place of the C library's `getrandom` in this process.
///
/// # Safety
/// `buf` must be valid for `len` bytes.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    ENTROPY_CALLS.fetch_add(1, SeqCst);
    let mut i = 0;
    while i < len {
        let x = mix(ENTROPY.fetch_add(1, SeqCst), 0xE17).to_le_bytes();
        for b in x {
            if i < len {
                *buf.add(i) = b;
                i += 1;
            }
        }
    }
    len as isize
}

pub fn set_entropy(seed: u64) {
    ENTROPY.store(seed, SeqCst);
}

pub fn entropy_calls() -> u64 {
    ENTROPY_CALLS.load(SeqCst)
}

// ---------------------------------------------------------------- allocator

const LIVE: u64 = 0x4C49_5645_C0DE_F00D;
const FREED: u64 = 0x4652_4545_DEAD_BEEF;
const CANARY: u64 = 0xCA9A_21CA_9A21_0FF5;
const QUARANTINE: usize = 512;

#[repr(C)]
struct Header {
    magic: u64,
    size: usize,
    base: *mut u8,
    total: usize,
    align: usize,
    tag: u32,
    _pad: u32,
}
const HDR: usize = std::mem::size_of::<Header>();

static LAYOUT: AtomicU64 = AtomicU64::new(0);
static LIVE_TAGGED: AtomicUsize = AtomicUsize::new(0);
static ERROR: AtomicU32 = AtomicU32::new(0);
static ACTIVE: AtomicBool = AtomicBool::new(false);
static ALLOCS: AtomicU64 = AtomicU64::new(0);

pub const ERR_DOUBLE_FREE: u32 = 1;
pub const ERR_BAD_FREE: u32 = 2;
pub const ERR_OVERRUN: u32 = 4;
pub const ERR_WRITE_AFTER_FREE: u32 = 8;

thread_local! {
    /// Non-zero while library code runs and its allocations are to be accounted.
    static TAG: Cell<u32> = const { Cell::new(0) };
}

pub struct SimAlloc;

struct Quarantine {
    lock: AtomicBool,
    slots: std::cell::UnsafeCell<[*mut Header; QUARANTINE]>,
    next: std::cell::UnsafeCell<usize>,
}
unsafe impl Sync for Quarantine {}
static QUAR: Quarantine = Quarantine {
    lock: AtomicBool::new(false),
    slots: std::cell::UnsafeCell::new([std::ptr::null_mut(); QUARANTINE]),
    next: std::cell::UnsafeCell::new(0),
};

unsafe fn really_free(h: *mut Header) {
    let base = (*h).base;
    let total = (*h).total;
    let align = (*h).align;
    System.dealloc(base, Layout::from_size_align_unchecked(total, align));
}

unsafe fn check_poison(h: *mut Header) {
    let p = (h as *mut u8).add(HDR);
    let n = (*h).size.min(256);
    if (*h).magic != FREED {
        ERROR.fetch_or(ERR_WRITE_AFTER_FREE, SeqCst);
        return;
    }
    for i in 0..n {
        if *p.add(i) != 0xDD {
            ERROR.fetch_or(ERR_WRITE_AFTER_FREE, SeqCst);
            return;
        }
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let align = layout.align().max(16);
        // The seed decides where a block lands: a variable gap changes the size class, so the order
        // of addresses differs from one simulated process to the next.
        let gap = if ACTIVE.load(Relaxed) {
            let s = LAYOUT.load(Relaxed);
            LAYOUT.store(s.wrapping_add(0x9E37_79B9_7F4A_7C15), Relaxed);
            ((mix(s, 1) % 12) * 16) as usize
        } else {
            0
        };
        let front = (gap + HDR).div_ceil(align) * align;
        let total = front + layout.size() + 8;
        let base = System.alloc(Layout::from_size_align_unchecked(total, align));
        if base.is_null() {
            return base;
        }
        ALLOCS.fetch_add(1, Relaxed);
        let user = base.add(front);
        let h = user.sub(HDR) as *mut Header;
        let tag = TAG.try_with(|t| t.get()).unwrap_or(0);
        h.write(Header { magic: LIVE, size: layout.size(), base, total, align, tag, _pad: 0 });
        if tag != 0 {
            LIVE_TAGGED.fetch_add(1, Relaxed);
        }
        std::ptr::write_bytes(user, 0xA5, layout.size().min(1024));
        (user.add(layout.size()) as *mut u64).write_unaligned(CANARY);
        user
    }

    unsafe fn dealloc(&self, user: *mut u8, _layout: Layout) {
        let h = user.sub(HDR) as *mut Header;
        match (*h).magic {
            LIVE => {}
            FREED => {
                ERROR.fetch_or(ERR_DOUBLE_FREE, SeqCst);
                return;
            }
            _ => {
                ERROR.fetch_or(ERR_BAD_FREE, SeqCst);
                return;
            }
        }
        let size = (*h).size;
        if (user.add(size) as *mut u64).read_unaligned() != CANARY {
            ERROR.fetch_or(ERR_OVERRUN, SeqCst);
        }
        if (*h).tag != 0 {
            LIVE_TAGGED.fetch_sub(1, Relaxed);
        }
        (*h).magic = FREED;
        std::ptr::write_bytes(user, 0xDD, size);
        if !ACTIVE.load(Relaxed) || size > 4096 {
            really_free(h);
            return;
        }
        while QUAR.lock.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
            std::hint::spin_loop();
        }
        let next = QUAR.next.get();
        let slot = (QUAR.slots.get() as *mut *mut Header).add(*next);
        *next = (*next + 1) % QUARANTINE;
        let old = *slot;
        *slot = h;
        QUAR.lock.store(false, Release);
        if !old.is_null() {
            check_poison(old);
            really_free(old);
        }
    }
}

/// Empty the quarantine, checking that nothing wrote to freed memory.
pub fn flush_quarantine() {
    unsafe {
        for i in 0..QUARANTINE {
            while QUAR.lock.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
                std::hint::spin_loop();
            }
            let slot = (QUAR.slots.get() as *mut *mut Header).add(i);
            let old = *slot;
            *slot = std::ptr::null_mut();
            QUAR.lock.store(false, Release);
            if !old.is_null() {
                check_poison(old);
                really_free(old);
            }
        }
    }
}

pub fn activate(on: bool) {
    ACTIVE.store(on, SeqCst);
}

/// Choose the memory layout the next allocations get.
pub fn set_layout(seed: u64) {
    LAYOUT.store(seed, SeqCst);
}

pub fn take_error() -> Option<String> {
    let e = ERROR.swap(0, SeqCst);
    if e == 0 {
        return None;
    }
    let mut v = Vec::new();
    if e & ERR_DOUBLE_FREE != 0 {
        v.push("memory freed twice");
    }
    if e & ERR_BAD_FREE != 0 {
        v.push("free of memory that was never allocated");
    }
    if e & ERR_OVERRUN != 0 {
        v.push("write past the end of an allocation");
    }
    if e & ERR_WRITE_AFTER_FREE != 0 {
        v.push("write to freed memory");
    }
    Some(v.join(", "))
}

pub fn live_tagged() -> usize {
    LIVE_TAGGED.load(SeqCst)
}

/// Run library code with its allocations accounted.
pub fn tagged<R>(f: impl FnOnce() -> R) -> R {
    struct Reset(u32);
    impl Drop for Reset {
        fn drop(&mut self) {
            TAG.with(|t| t.set(self.0));
        }
    }
    let old = TAG.with(|t| t.replace(1));
    let _r = Reset(old);
    f()
}

/// Harness code called from inside library code: not accounted.
pub fn untagged<R>(f: impl FnOnce() -> R) -> R {
    struct Reset(u32);
    impl Drop for Reset {
        fn drop(&mut self) {
            TAG.with(|t| t.set(self.0));
        }
    }
    let old = TAG.with(|t| t.replace(0));
    let _r = Reset(old);
    f()
}

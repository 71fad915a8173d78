//! Checking allocator: canaries around every block, poisoning and quarantine of freed
//! blocks, detection of double frees and of frees with the wrong size, and leak counting
//! per exploration step. It never aborts: it records a fault for the engine to report.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::cell::UnsafeCell;

pub struct Checking;

const HDR: usize = 48;
const TAIL: usize = 16;
const LIVE: u64 = 0x4c49_5645_b10c_4a11;
const DEAD: u64 = 0xdead_b10c_dead_f4ee;
const TAILB: u8 = 0xA7;
const POISON: u8 = 0xDB;
const QMAX: usize = 512;

#[repr(C)]
struct Hdr {
    magic: u64,
    size: u64,
    align: u64,
    scope: u64,
    /// Place in the table of blocks to reap, plus one.
    slot: u64,
    _pad: u64,
}

const TMAX: usize = 4096;
struct Tab {
    buf: [*mut u8; TMAX],
    n: usize,
    on: bool,
}

struct Q {
    buf: [*mut u8; QMAX],
    n: usize,
}

thread_local! {
    static SCOPE: Cell<u64> = const { Cell::new(0) };
    static LIVE_N: Cell<i64> = const { Cell::new(0) };
    static LIVE_B: Cell<i64> = const { Cell::new(0) };
    static FAULT: Cell<Option<&'static str>> = const { Cell::new(None) };
    static QUAR: UnsafeCell<Q> = const { UnsafeCell::new(Q { buf: [std::ptr::null_mut(); QMAX], n: 0 }) };
    static TAB: UnsafeCell<Tab> = const { UnsafeCell::new(Tab { buf: [std::ptr::null_mut(); TMAX], n: 0, on: false }) };
    static NEXT: Cell<u64> = const { Cell::new(0) };
}

fn fault(m: &'static str) {
    let _ = FAULT.try_with(|f| {
        if f.get().is_none() {
            f.set(Some(m))
        }
    });
}

fn pad(align: usize) -> usize {
    if align > HDR { align } else { HDR }
}

unsafe fn real_free(block: *mut u8) {
    let h = block as *mut Hdr;
    let (size, align) = ((*h).size as usize, (*h).align as usize);
    let p = pad(align);
    let base = block.add(HDR).sub(p);
    System.dealloc(base, Layout::from_size_align_unchecked(p + size + TAIL, align.max(16)));
}

unsafe fn check_poison(block: *mut u8) {
    let h = block as *mut Hdr;
    if (*h).magic != DEAD {
        fault("heap corruption: header of a freed block was overwritten");
        return;
    }
    let d = block.add(HDR);
    for i in 0..((*h).size as usize).min(256) {
        if *d.add(i) != POISON {
            fault("heap corruption: write to a freed block");
            return;
        }
    }
}

unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = pad(l.align());
        let base = System.alloc(Layout::from_size_align_unchecked(p + l.size() + TAIL, l.align().max(16)));
        if base.is_null() {
            return base;
        }
        let data = base.add(p);
        let h = data.sub(HDR) as *mut Hdr;
        let scope = SCOPE.try_with(|s| s.get()).unwrap_or(0);
        *h = Hdr { magic: LIVE, size: l.size() as u64, align: l.align() as u64, scope, slot: 0, _pad: 0 };
        std::ptr::write_bytes(data.add(l.size()), TAILB, TAIL);
        if scope != 0 {
            LIVE_N.with(|n| n.set(n.get() + 1));
            LIVE_B.with(|n| n.set(n.get() + l.size() as i64));
            TAB.with(|t| {
                let t = &mut *t.get();
                if t.on && t.n < TMAX {
                    t.buf[t.n] = data.sub(HDR);
                    t.n += 1;
                    (*h).slot = t.n as u64;
                }
            });
            // uninitialised memory reads as garbage, not as zeros
            std::ptr::write_bytes(data, 0xCD, l.size());
        }
        data
    }

    unsafe fn dealloc(&self, data: *mut u8, l: Layout) {
        let h = data.sub(HDR) as *mut Hdr;
        if (*h).magic == DEAD {
            fault("double free of a heap block");
            return;
        }
        if (*h).magic != LIVE {
            fault("heap corruption: header of a live block was overwritten (or invalid free)");
            return;
        }
        if (*h).slot != 0 {
            let i = (*h).slot as usize - 1;
            TAB.with(|t| {
                let t = &mut *t.get();
                if i < t.n && t.buf[i] == data.sub(HDR) {
                    t.n -= 1;
                    t.buf[i] = t.buf[t.n];
                    (*(t.buf[i] as *mut Hdr)).slot = i as u64 + 1;
                }
            });
            (*h).slot = 0;
        }
        let size = (*h).size as usize;
        if size != l.size() || (*h).align as usize != l.align() {
            fault("heap block freed with a layout other than the one it was allocated with");
        }
        for i in 0..TAIL {
            if *data.add(size + i) != TAILB {
                fault("heap corruption: write past the end of a block");
                break;
            }
        }
        let scope = SCOPE.try_with(|s| s.get()).unwrap_or(0);
        if (*h).scope != 0 && (*h).scope == scope {
            LIVE_N.with(|n| n.set(n.get() - 1));
            LIVE_B.with(|n| n.set(n.get() - size as i64));
            (*h).magic = DEAD;
            std::ptr::write_bytes(data, POISON, size);
            QUAR.with(|q| {
                let q = &mut *q.get();
                if q.n < QMAX {
                    q.buf[q.n] = data.sub(HDR);
                    q.n += 1;
                } else {
                    let slot = (size / 16 + data as usize / 64) % QMAX;
                    let old = q.buf[slot];
                    check_poison(old);
                    real_free(old);
                    q.buf[slot] = data.sub(HDR);
                }
            });
            return;
        }
        (*h).magic = DEAD;
        real_free(data.sub(HDR));
    }
}

/// Starts a scope: allocations of this thread are tracked until `scope_end`.
pub fn scope_begin() {
    let id = NEXT.with(|n| {
        n.set(n.get() + 1);
        n.get()
    });
    FAULT.with(|f| f.set(None));
    LIVE_N.with(|n| n.set(0));
    LIVE_B.with(|n| n.set(0));
    SCOPE.with(|s| s.set(id));
}

/// Number of blocks allocated in this scope and not freed yet.
pub fn live_blocks() -> i64 {
    LIVE_N.with(|n| n.get())
}

/// Bytes allocated in this scope and not freed yet.
pub fn live_bytes() -> i64 {
    LIVE_B.with(|n| n.get())
}

/// Runs `f` without tracking its allocations.
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    let s = SCOPE.with(|s| s.replace(0));
    let r = f();
    SCOPE.with(|c| c.set(s));
    r
}

/// Runs `f` and then frees what it allocated in the scope and did not free. Nothing of it may
/// outlive `f`.
pub fn reaping<R>(f: impl FnOnce() -> R) -> R {
    TAB.with(|t| unsafe { (*t.get()).on = true });
    let r = f();
    TAB.with(|t| unsafe {
        let t = &mut *t.get();
        t.on = false;
        while t.n > 0 {
            t.n -= 1;
            let b = t.buf[t.n];
            LIVE_N.with(|n| n.set(n.get() - 1));
            LIVE_B.with(|n| n.set(n.get() - (*(b as *mut Hdr)).size as i64));
            real_free(b);
        }
    });
    r
}

/// What is wrong with the heap so far, if anything.
pub fn fault_now() -> Option<&'static str> {
    QUAR.with(|q| unsafe {
        let q = &mut *q.get();
        for i in 0..q.n {
            check_poison(q.buf[i]);
        }
    });
    FAULT.with(|f| f.get())
}

pub struct ScopeEnd {
    pub live: i64,
    pub fault: Option<&'static str>,
}

pub fn scope_end() -> ScopeEnd {
    SCOPE.with(|s| s.set(0));
    QUAR.with(|q| unsafe {
        let q = &mut *q.get();
        for i in 0..q.n {
            check_poison(q.buf[i]);
            real_free(q.buf[i]);
        }
        q.n = 0;
    });
    ScopeEnd { live: live_blocks(), fault: FAULT.with(|f| f.take()) }
}

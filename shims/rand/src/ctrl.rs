//! Added to this copy of rand 0.4.6: lets a model checker decide the random choices.
use std::cell::Cell;
use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

thread_local! {
    static FIXED: Cell<Option<u32>> = const { Cell::new(None) };
    static SCRIPT: RefCell<(Vec<u32>, usize)> = const { RefCell::new((Vec::new(), 0)) };
    static DRAWN: Cell<usize> = const { Cell::new(0) };
}
static THREAD_ON: AtomicBool = AtomicBool::new(false);
static THREAD_CTR: AtomicUsize = AtomicUsize::new(0);

/// Every `XorShiftRng` of this thread returns `v` from now on (`None`: the real generator).
pub fn set_fixed(v: Option<u32>) {
    SCRIPT.with(|s| { let mut s = s.borrow_mut(); s.0.clear(); s.1 = 0; });
    FIXED.with(|f| f.set(v))
}

/// Every `XorShiftRng` of this thread returns the values of `v` cyclically.
pub fn set_script(v: &[u32]) {
    FIXED.with(|f| f.set(None));
    SCRIPT.with(|s| { let mut s = s.borrow_mut(); s.0.clear(); s.0.extend_from_slice(v); s.1 = 0; })
}

/// How many choices the generators of this thread made since the last call.
pub fn take_drawn() -> usize { DRAWN.with(|d| d.replace(0)) }

#[inline]
pub(crate) fn xorshift_choice() -> Option<u32> {
    let v = FIXED.with(|f| f.get());
    if v.is_some() {
        DRAWN.with(|d| d.set(d.get() + 1));
        return v;
    }
    SCRIPT.with(|s| {
        let mut s = s.borrow_mut();
        if s.0.is_empty() { return None; }
        let i = s.1 % s.0.len();
        s.1 += 1;
        DRAWN.with(|d| d.set(d.get() + 1));
        Some(s.0[i])
    })
}

/// Makes `thread_rng` a deterministic stream without repeats, starting at `start`.
pub fn set_thread_stream(start: usize) {
    THREAD_CTR.store(start, Ordering::SeqCst);
    THREAD_ON.store(true, Ordering::SeqCst);
}

pub(crate) fn thread_choice() -> Option<u32> {
    if !THREAD_ON.load(Ordering::SeqCst) { return None; }
    let mut z = (THREAD_CTR.fetch_add(1, Ordering::SeqCst) as u64).wrapping_add(0x9E3779B97F4A7C15u64);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9u64);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EBu64);
    Some((z ^ (z >> 31)) as u32)
}

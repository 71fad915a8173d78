//! Tracked keys and values: every one has an identity, is registered while it lives, and
//! reports comparisons, double drops, drops of garbage and leaks.
use std::borrow::Borrow;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;

const MAGIC: u32 = 0x5a17_c0de;

thread_local! {
    static STATE: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static FAULT: RefCell<Option<String>> = const { RefCell::new(None) };
    static CMP_ON: Cell<bool> = const { Cell::new(false) };
    static CMP_LOG: RefCell<Vec<(u128, u128)>> = const { RefCell::new(Vec::new()) };
    static CMP_N: Cell<u64> = const { Cell::new(0) };
    static LOW: Cell<usize> = const { Cell::new(usize::MAX) };
    static DEEP: Cell<bool> = const { Cell::new(false) };
    static TRICK: Cell<Option<Trick>> = const { Cell::new(None) };
    static EVENTS: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}

/// What user code does at its n-th call (counted from one) instead of behaving well.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Trick {
    /// The n-th comparison or destructor panics.
    Panic(u64),
    /// The n-th comparison answers something else: the next, or the one after, in the order
    /// less, equal, greater.
    Lie(u64, u8),
}
/// Comparisons and destructors behave like this until `tricks_off`.
pub fn tricks_on(t: Option<Trick>) {
    EVENTS.with(|e| e.set((0, 0)));
    TRICK.with(|b| b.set(t));
}
/// Events (comparisons and destructors) and comparisons since `tricks_on`.
pub fn tricks_off() -> (u64, u64) {
    TRICK.with(|b| b.set(None));
    EVENTS.with(|e| e.get())
}
fn event(cmp: bool) -> u8 {
    let (a, c) = EVENTS.with(|e| e.get());
    let (a, c) = (a + 1, c + cmp as u64);
    EVENTS.with(|e| e.set((a, c)));
    match TRICK.with(|t| t.get()) {
        Some(Trick::Panic(n)) if n == a && !std::thread::panicking() => std::panic::resume_unwind(Box::new(())),
        Some(Trick::Lie(n, d)) if cmp && n == c => d,
        _ => 0,
    }
}
fn told(o: Ordering, d: u8) -> Ordering {
    match (o as i8 + 1 + d as i8) % 3 {
        0 => Ordering::Less,
        1 => Ordering::Equal,
        _ => Ordering::Greater,
    }
}

/// Notes how deep in the call stack a comparison or drop happens (the stack grows downwards).
#[inline(never)]
fn note_depth() {
    let here = 0u8;
    let at = std::hint::black_box(&here) as *const u8 as usize;
    LOW.with(|l| {
        if at < l.get() {
            l.set(at)
        }
    });
}

/// Runs `f`; bytes of call stack between here and the deepest comparison or drop it made.
#[inline(never)]
pub fn depth_of<R>(f: impl FnOnce() -> R) -> (R, usize) {
    let here = 0u8;
    let at = std::hint::black_box(&here) as *const u8 as usize;
    LOW.with(|l| l.set(at));
    DEEP.with(|d| d.set(true));
    let r = f();
    DEEP.with(|d| d.set(false));
    (r, at.saturating_sub(LOW.with(|l| l.get())))
}

/// How far below a call the stack is watched.
pub const WATCHED: usize = 64 << 10;

/// Runs `f`; bytes of call stack it used (at most `WATCHED`), whether or not it compares or drops
/// anything: the stack below is filled with a pattern first, and looked at afterwards.
#[cfg(target_arch = "x86_64")]
#[inline(never)]
pub fn stack_of<R>(f: impl FnOnce() -> R) -> (R, usize) {
    const PATTERN: u64 = 0x5ca1_ab1e_0ddb_a11d;
    let base: usize;
    // SAFETY: nothing lives below the red zone of the running function
    unsafe {
        std::arch::asm!("lea {b}, [rsp - 512]", "and {b}, -16", "mov rdi, {b}", "sub rdi, {n}", "mov rcx, {n}", "shr rcx, 3", "cld", "rep stosq",
            b = out(reg) base, n = in(reg) WATCHED, in("rax") PATTERN, out("rcx") _, out("rdi") _, options(nostack));
    }
    let (r, d) = depth_of(f);
    let end: usize;
    unsafe {
        std::arch::asm!("cld", "repe scasq", in("rax") PATTERN, inout("rcx") WATCHED / 8 => _, inout("rdi") base - WATCHED => end, options(nostack, readonly));
    }
    (r, d.max(base.saturating_sub(end - 8)))
}

#[cfg(not(target_arch = "x86_64"))]
pub fn stack_of<R>(f: impl FnOnce() -> R) -> (R, usize) {
    depth_of(f)
}

pub fn ledger_reset() {
    STATE.with(|s| s.borrow_mut().clear());
    FAULT.with(|f| *f.borrow_mut() = None);
}

pub fn ledger_fault() -> Option<String> {
    FAULT.with(|f| f.borrow().clone())
}

/// Values that are registered and not dropped yet.
pub fn ledger_live() -> usize {
    STATE.with(|s| s.borrow().iter().filter(|x| **x == 1).count())
}

fn fault(m: String) {
    FAULT.with(|f| {
        let mut f = f.borrow_mut();
        if f.is_none() {
            *f = Some(m)
        }
    });
}

#[derive(Debug)]
pub struct Tok {
    pub id: u32,
    chk: u32,
}

impl Tok {
    pub fn new() -> Tok {
        crate::alloc::untracked(|| {
            STATE.with(|s| {
                let mut s = s.borrow_mut();
                s.push(1);
                let id = (s.len() - 1) as u32;
                Tok { id, chk: id ^ MAGIC }
            })
        })
    }
    /// Is this a live, initialised value?
    pub fn ok(&self) -> bool {
        self.chk == self.id ^ MAGIC
            && STATE.with(|s| s.borrow().get(self.id as usize).map_or(false, |x| *x == 1))
    }
    pub fn check(&self, what: &str) {
        if !self.ok() {
            crate::alloc::untracked(|| fault(format!("{} of a value that is not alive", what)));
        }
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        if DEEP.with(|d| d.get()) {
            note_depth();
        }
        let (id, chk) = (self.id, self.chk);
        crate::alloc::untracked(|| {
            if chk != id ^ MAGIC {
                fault("drop of uninitialised or freed memory as a value".into());
                return;
            }
            STATE.with(|s| {
                let mut s = s.borrow_mut();
                match s.get_mut(id as usize) {
                    Some(x) if *x == 1 => *x = 2,
                    Some(_) => fault(format!("value #{} dropped twice", id)),
                    None => fault("drop of an unknown value".into()),
                }
            })
        });
        event(false);
    }
}

pub const PROBE: u32 = u32::MAX;

/// An ordered key. `v` is its position in the order.
#[derive(Debug)]
pub struct K {
    pub v: u128,
    pub tok: Tok,
}

impl K {
    pub fn new(v: u128) -> K {
        K { v, tok: Tok::new() }
    }
}

/// What keys are looked up by: not tracked.
#[derive(Debug)]
#[repr(transparent)]
pub struct P(pub u128);

impl Borrow<P> for K {
    fn borrow(&self) -> &P {
        self.tok.check("comparison");
        // P is a transparent u128
        unsafe { &*(&self.v as *const u128 as *const P) }
    }
}

#[inline]
fn note(a: u128, b: u128) -> u8 {
    CMP_N.with(|n| n.set(n.get() + 1));
    if DEEP.with(|d| d.get()) {
        note_depth();
    }
    if CMP_ON.with(|c| c.get()) {
        crate::alloc::untracked(|| CMP_LOG.with(|l| l.borrow_mut().push((a, b))));
    }
    event(true)
}

impl PartialEq for P {
    fn eq(&self, o: &P) -> bool {
        let d = note(self.0, o.0);
        told(self.0.cmp(&o.0), d) == Ordering::Equal
    }
}
impl Eq for P {}
impl PartialOrd for P {
    fn partial_cmp(&self, o: &P) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for P {
    fn cmp(&self, o: &P) -> Ordering {
        let d = note(self.0, o.0);
        told(self.0.cmp(&o.0), d)
    }
}

impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        self.tok.check("comparison");
        o.tok.check("comparison");
        let d = note(self.v, o.v);
        told(self.v.cmp(&o.v), d) == Ordering::Equal
    }
}
impl Eq for K {}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &K) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for K {
    fn cmp(&self, o: &K) -> Ordering {
        self.tok.check("comparison");
        o.tok.check("comparison");
        let d = note(self.v, o.v);
        told(self.v.cmp(&o.v), d)
    }
}

/// Runs `f` and returns the key comparisons it made.
pub fn log_comparisons<R>(f: impl FnOnce() -> R) -> (R, Vec<(u128, u128)>) {
    CMP_LOG.with(|l| l.borrow_mut().clear());
    CMP_ON.with(|c| c.set(true));
    let r = f();
    CMP_ON.with(|c| c.set(false));
    (r, CMP_LOG.with(|l| l.borrow().clone()))
}

pub fn log_start() {
    CMP_LOG.with(|l| l.borrow_mut().clear());
    CMP_ON.with(|c| c.set(true));
}

/// Distinct keys compared since `log_start`.
pub fn log_distinct() -> u64 {
    CMP_ON.with(|c| c.set(false));
    crate::alloc::untracked(|| {
        CMP_LOG.with(|l| {
            let mut v: Vec<u128> = l.borrow().iter().flat_map(|(a, b)| [*a, *b]).collect();
            v.sort();
            v.dedup();
            v.len() as u64
        })
    })
}

pub fn comparisons() -> u64 {
    CMP_N.with(|n| n.get())
}

/// A value.
#[derive(Debug)]
pub struct V {
    pub v: u64,
    pub tok: Tok,
}

impl V {
    pub fn new(v: u64) -> V {
        V { v, tok: Tok::new() }
    }
}

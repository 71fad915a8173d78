//! What the executions of one model share. All threads of a loom model run on one thread of the
//! system, so this is thread-local; it is not visible to loom and orders nothing.
use loom::cell::UnsafeCell;
use loom::sync::atomic::AtomicUsize;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub(crate) struct Node {
    /// Read at each use, written when the node is given back, so that loom sees accesses that
    /// nothing orders.
    pub cell: UnsafeCell<()>,
    /// Given back by the closure deferred as the n-th (0: by none yet; MAX: not deferred).
    freed: Option<u64>,
    /// Uses under a guard: the number of closures the guard knew to be deferred.
    uses: Vec<u64>,
    layout: std::alloc::Layout,
}

#[derive(Default)]
pub(crate) struct World {
    pub nodes: HashMap<usize, Node>,
    /// Number of deferred closures, as known to loom.
    pub epoch: Option<Rc<AtomicUsize>>,
    pub deferred: Vec<(u64, Box<dyn FnOnce()>)>,
    pub running: Option<u64>,
    /// Guards of each thread: how many, and what the outermost knew.
    pub pinned: HashMap<String, (usize, u64)>,
    pub errors: Vec<String>,
    pub steps: HashMap<String, usize>,
    /// The thread that stops, and before which step.
    pub stall: Option<(usize, Rc<loom::sync::Notify>)>,
    pub staller: Option<String>,
    pub stalled: bool,
    pub ended: bool,
}

thread_local! {
    static W: RefCell<World> = RefCell::new(World::default());
}
pub(crate) fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(&mut w.borrow_mut()))
}
pub(crate) fn me() -> String {
    format!("{:?}", loom::thread::current().id())
}

/// At the beginning of every execution.
pub fn begin() {
    let old = W.with(|w| std::mem::take(&mut *w.borrow_mut()));
    // closures of an execution that was cut short must not run
    for (_, f) in old.deferred {
        std::mem::forget(f);
    }
    let e = Rc::new(AtomicUsize::new(0));
    with(|w| w.epoch = Some(e));
}
/// The calling thread stops before its n-th step until `notify` is notified.
pub fn stall(n: usize, notify: Rc<loom::sync::Notify>) {
    let m = me();
    with(|w| {
        w.stall = Some((n, notify));
        w.staller = Some(m);
    });
}
/// Whether the thread has stopped.
pub fn stalled() -> bool {
    with(|w| w.stalled)
}
/// Number of steps of the calling thread.
pub fn steps() -> usize {
    let m = me();
    with(|w| w.steps.get(&m).copied().unwrap_or(0))
}

/// Before each access to an atomic.
pub(crate) fn step() {
    let m = me();
    let s = with(|w| {
        let c = w.steps.entry(m.clone()).or_insert(0);
        *c += 1;
        let c = *c - 1;
        match (&w.stall, &w.staller) {
            (Some((n, f)), Some(t)) if *t == m && *n == c => {
                w.stalled = true;
                Some(f.clone())
            }
            _ => None,
        }
    });
    if let Some(f) = s {
        f.wait();
    }
}

pub(crate) fn error(s: String) {
    with(|w| w.errors.push(s));
}

pub(crate) fn made(addr: usize, layout: std::alloc::Layout) {
    let cell = UnsafeCell::new(());
    with(|w| w.nodes.insert(addr, Node { cell, freed: None, uses: vec![], layout }));
}
fn cell(addr: usize, write: bool) {
    if !RACES.with(|r| r.get()) {
        return;
    }
    // loom may panic: not while borrowed
    let p: Option<*const UnsafeCell<()>> = with(|w| w.nodes.get(&addr).map(|n| &n.cell as *const _));
    if let Some(p) = p {
        unsafe {
            if write {
                (*p).with_mut(|_| ());
            } else {
                (*p).with(|_| ());
            }
        }
    }
}
/// A node is used through a shared pointer.
pub(crate) fn used(addr: usize) {
    if with(|w| w.ended) {
        return;
    }
    let m = me();
    with(|w| {
        let e = w.pinned.get(&m).filter(|p| p.0 > 0).map(|p| p.1);
        match w.nodes.get_mut(&addr) {
            None => w.errors.push("a pointer to something that is not a node is followed".into()),
            Some(n) => {
                if n.freed.is_some() {
                    w.errors.push("a node is used after it was given back".into());
                }
                if let Some(e) = e {
                    n.uses.push(e);
                }
            }
        }
    });
    cell(addr, false);
}
/// A node is used by its owner.
pub(crate) fn owned(addr: usize) {
    if with(|w| w.ended) {
        return;
    }
    with(|w| match w.nodes.get(&addr) {
        None => w.errors.push("an owned pointer is not to a node".into()),
        Some(n) => {
            if n.freed.is_some() {
                w.errors.push("a node is used after it was given back".into());
            }
        }
    });
}
/// A node is given back; says whether its content may be dropped. Its memory is kept to the end
/// of the execution, so that addresses stay different.
pub(crate) fn freed(addr: usize) -> bool {
    if with(|w| w.ended) {
        return false;
    }
    cell(addr, true);
    with(|w| {
        let d = w.running.unwrap_or(u64::MAX);
        match w.nodes.get_mut(&addr) {
            None => {
                w.errors.push("something that is not a node is given back".into());
                false
            }
            Some(n) => {
                if n.freed.is_some() {
                    w.errors.push("a node is given back twice".into());
                    return false;
                }
                n.freed = Some(d);
                true
            }
        }
    })
}
/// A node leaves the model (as a box).
pub(crate) fn forget(addr: usize) {
    cell(addr, true);
    with(|w| w.nodes.remove(&addr));
}

/// At the end of every execution, when all threads have ended and the stack is gone: runs what
/// was deferred and says what was wrong.
pub fn end() -> Vec<String> {
    loop {
        let fs = with(|w| std::mem::take(&mut w.deferred));
        if fs.is_empty() {
            break;
        }
        for (d, f) in fs {
            with(|w| w.running = Some(d));
            f();
            with(|w| w.running = None);
        }
    }
    let mut nodes = with(|w| std::mem::take(&mut w.nodes));
    let mut errors = with(|w| {
        w.ended = true;
        w.epoch = None;
        w.stall = None;
        if w.pinned.values().any(|p| p.0 > 0) {
            w.errors.push("a guard is left".into());
        }
        std::mem::take(&mut w.errors)
    });
    for (addr, n) in nodes.drain() {
        match n.freed {
            None => errors.push("the memory of a node is never given back".into()),
            Some(d) => {
                // a guard made after the closure was deferred does not hold it back
                if d != u64::MAX && n.uses.iter().any(|e| *e > d) {
                    errors.push("a node is used under a guard that does not keep it from being given back".into());
                }
                unsafe { std::alloc::dealloc(addr as *mut u8, n.layout) };
            }
        }
    }
    errors.sort();
    errors.dedup();
    errors
}
thread_local! {
    static RACES: std::cell::Cell<bool> = std::cell::Cell::new(true);
}
/// Whether accesses that nothing orders are reported (by a panic).
pub fn races(on: bool) {
    RACES.with(|r| r.set(on));
}

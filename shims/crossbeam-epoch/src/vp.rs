//! Stand-ins for `std::sync::Mutex`, atomics and `std::thread` that report every access to a
//! scheduler before it happens. Threads that no scheduler knows pass through.
extern crate std;
use self::std::boxed::Box;
use self::std::cell::RefCell;
use self::std::prelude::v1::*;
use self::std::sync::atomic::Ordering;
use self::std::sync::{Arc, LockResult, MutexGuard, TryLockError, TryLockResult};

/// What a thread is about to do.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Event {
    /// Take a lock.
    Lock,
    /// The lock is taken by another thread.
    Blocked,
    /// Read or write an atomic variable.
    Atomic,
    /// Wait for a thread to end.
    Join(usize),
    /// Voluntary yield.
    Yield,
}

/// A scheduler. Methods are called by the thread concerned.
pub trait Scheduler: Send + Sync {
    /// Called before the event; returns when the thread may go on.
    fn point(&self, thread: usize, event: Event, object: usize);
    /// A new thread is about to be made; returns its number.
    fn spawning(&self, parent: usize) -> usize;
    /// First thing in a new thread; returns when it may go on.
    fn started(&self, thread: usize);
    /// Last thing in a thread.
    fn ended(&self, thread: usize);
}

#[derive(Clone)]
struct Me {
    sched: Arc<Scheduler>,
    thread: usize,
}

thread_local! {
    static ME: RefCell<Option<Me>> = RefCell::new(None);
}

fn me() -> Option<Me> {
    ME.try_with(|m| m.borrow().clone()).unwrap_or(None)
}

/// Puts the current thread under a scheduler (or takes it away).
pub fn enter(sched: Option<(Arc<Scheduler>, usize)>) {
    ME.with(|m| *m.borrow_mut() = sched.map(|(sched, thread)| Me { sched: sched, thread: thread }));
}

/// A point other than those of this module.
pub fn point(event: Event, object: usize) {
    if let Some(m) = me() {
        m.sched.point(m.thread, event, object);
    }
}

#[derive(Debug, Default)]
pub struct Mutex<T: ?Sized> {
    inner: self::std::sync::Mutex<T>,
}

impl<T> Mutex<T> {
    pub fn new(t: T) -> Mutex<T> {
        Mutex { inner: self::std::sync::Mutex::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}

impl<T: ?Sized> Mutex<T> {
    fn id(&self) -> usize {
        &self.inner as *const _ as *const u8 as usize
    }
    pub fn lock(&self) -> LockResult<MutexGuard<T>> {
        match me() {
            None => self.inner.lock(),
            Some(m) => {
                m.sched.point(m.thread, Event::Lock, self.id());
                loop {
                    match self.inner.try_lock() {
                        Ok(g) => return Ok(g),
                        Err(TryLockError::Poisoned(e)) => return Err(e),
                        Err(TryLockError::WouldBlock) => m.sched.point(m.thread, Event::Blocked, self.id()),
                    }
                }
            }
        }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<T>> {
        point(Event::Lock, self.id());
        self.inner.try_lock()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
}

macro_rules! atomic {
    ($name:ident, $t:ty) => {
        #[derive(Debug, Default)]
        pub struct $name {
            inner: self::std::sync::atomic::$name,
        }
        impl $name {
            pub fn new(v: $t) -> $name {
                $name { inner: self::std::sync::atomic::$name::new(v) }
            }
            fn at(&self) {
                point(Event::Atomic, &self.inner as *const _ as usize);
            }
            pub fn load(&self, o: Ordering) -> $t {
                self.at();
                self.inner.load(o)
            }
            pub fn store(&self, v: $t, o: Ordering) {
                self.at();
                self.inner.store(v, o)
            }
            pub fn swap(&self, v: $t, o: Ordering) -> $t {
                self.at();
                self.inner.swap(v, o)
            }
            pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                self.at();
                self.inner.compare_exchange(a, b, s, f)
            }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                self.at();
                self.inner.compare_exchange(a, b, s, f)
            }
            pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
                self.at();
                self.inner.fetch_and(v, o)
            }
            pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
                self.at();
                self.inner.fetch_or(v, o)
            }
            pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t {
                self.at();
                self.inner.fetch_xor(v, o)
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.inner.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.inner.into_inner()
            }
        }
    };
}
atomic!(AtomicBool, bool);
atomic!(AtomicUsize, usize);
impl AtomicUsize {
    pub fn fetch_add(&self, v: usize, o: Ordering) -> usize {
        self.at();
        self.inner.fetch_add(v, o)
    }
    pub fn fetch_sub(&self, v: usize, o: Ordering) -> usize {
        self.at();
        self.inner.fetch_sub(v, o)
    }
}

pub mod thread {
    use super::std::boxed::Box;
    pub use super::std::thread::{current, panicking, park, sleep, Result, Thread, ThreadId};
    use super::*;

    pub struct JoinHandle<T> {
        inner: self::std::thread::JoinHandle<T>,
        thread: Option<usize>,
    }

    impl<T> JoinHandle<T> {
        pub fn join(self) -> Result<T> {
            if let (Some(m), Some(t)) = (me(), self.thread) {
                m.sched.point(m.thread, Event::Join(t), 0);
            }
            self.inner.join()
        }
        pub fn is_finished(&self) -> bool {
            self.inner.is_finished()
        }
        pub fn thread(&self) -> &Thread {
            self.inner.thread()
        }
    }

    struct End(Me);
    impl Drop for End {
        fn drop(&mut self) {
            self.0.sched.ended(self.0.thread);
            let _ = ME.try_with(|m| *m.borrow_mut() = None);
        }
    }

    pub fn yield_now() {
        point(Event::Yield, 0);
    }

    pub fn spawn<F, T>(f: F) -> JoinHandle<T>
    where
        F: FnOnce() -> T,
        F: Send + 'static,
        T: Send + 'static,
    {
        match me() {
            None => JoinHandle { inner: self::std::thread::spawn(f), thread: None },
            Some(m) => {
                let t = m.sched.spawning(m.thread);
                let c = Me { sched: m.sched.clone(), thread: t };
                let inner = self::std::thread::spawn(move || {
                    ME.with(|x| *x.borrow_mut() = Some(c.clone()));
                    let end = End(c.clone());
                    c.sched.started(t);
                    let r = f();
                    drop(end);
                    r
                });
                JoinHandle { inner: inner, thread: Some(t) }
            }
        }
    }

    #[allow(dead_code)]
    type Boxed = Box<u8>;
}

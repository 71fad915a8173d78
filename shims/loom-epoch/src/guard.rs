//! Guards. A deferred closure may run once every guard that was made before it was deferred is
//! gone. Here it runs at the end of the execution, and every use of what it gives back is checked
//! against that rule: a guard knows how many closures had been deferred when it was made (by an
//! acquire load of a counter to which deferring adds, so a guard that does not hold a closure back
//! also sees everything done before it was deferred, as crossbeam's fences ensure).
use crate::model::{me, with};
use std::marker::PhantomData;
use std::sync::atomic::Ordering;

pub struct Guard {
    /// None for the unprotected one.
    thread: Option<String>,
    p: PhantomData<*const ()>,
}
struct Un(Guard);
unsafe impl Sync for Un {}
static UN: Un = Un(Guard { thread: None, p: PhantomData });

pub fn pin() -> Guard {
    let m = me();
    let inner = with(|w| w.pinned.get(&m).map_or(false, |p| p.0 > 0));
    if inner {
        with(|w| w.pinned.get_mut(&m).unwrap().0 += 1);
    } else {
        let e = with(|w| w.epoch.clone()).expect("pin outside the model");
        let n = e.load(Ordering::Acquire) as u64;
        with(|w| w.pinned.insert(m.clone(), (1, n)));
    }
    Guard { thread: Some(m), p: PhantomData }
}
pub fn is_pinned() -> bool {
    let m = me();
    with(|w| w.pinned.get(&m).map_or(false, |p| p.0 > 0))
}
pub unsafe fn unprotected() -> &'static Guard {
    &UN.0
}

impl Guard {
    pub unsafe fn defer<F, R>(&self, f: F)
    where
        F: FnOnce() -> R,
    {
        if self.thread.is_none() {
            f();
            return;
        }
        let f: Box<dyn FnOnce()> = Box::new(move || drop(f()));
        let f: Box<dyn FnOnce() + 'static> = std::mem::transmute(f);
        let e = with(|w| w.epoch.clone());
        match e {
            // the model has ended: nothing else runs
            None => f(),
            Some(e) => {
                let d = e.fetch_add(1, Ordering::AcqRel) as u64;
                with(|w| w.deferred.push((d, f)));
            }
        }
    }
    pub fn flush(&self) {}
    pub fn repin(&mut self) {
        self.repin_after(|| ());
    }
    pub fn repin_after<F, R>(&mut self, f: F) -> R
    where
        F: FnOnce() -> R,
    {
        match self.thread.clone() {
            None => f(),
            Some(m) => {
                let only = with(|w| w.pinned.get(&m).map_or(false, |p| p.0 == 1));
                if only {
                    with(|w| w.pinned.get_mut(&m).unwrap().0 = 0);
                }
                let r = f();
                if only {
                    let e = with(|w| w.epoch.clone()).expect("repin outside the model");
                    let n = e.load(Ordering::Acquire) as u64;
                    with(|w| w.pinned.insert(m, (1, n)));
                }
                r
            }
        }
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        if let Some(m) = &self.thread {
            with(|w| {
                if let Some(p) = w.pinned.get_mut(m) {
                    p.0 = p.0.saturating_sub(1);
                }
            });
        }
    }
}

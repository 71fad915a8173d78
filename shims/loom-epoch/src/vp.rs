//! What `cfg(vp_sync)` code takes instead of `std::sync`.
pub use std::sync::atomic::AtomicBool;
pub use std::sync::Mutex;
pub use std::thread;

use std::sync::atomic::Ordering;
pub struct AtomicUsize(loom::sync::atomic::AtomicUsize);
impl AtomicUsize {
    pub fn new(v: usize) -> Self {
        AtomicUsize(loom::sync::atomic::AtomicUsize::new(v))
    }
    pub fn load(&self, o: Ordering) -> usize {
        crate::model::step();
        self.0.load(o)
    }
    pub fn store(&self, v: usize, o: Ordering) {
        crate::model::step();
        self.0.store(v, o)
    }
    pub fn swap(&self, v: usize, o: Ordering) -> usize {
        crate::model::step();
        self.0.swap(v, o)
    }
    pub fn compare_exchange(&self, a: usize, b: usize, s: Ordering, f: Ordering) -> Result<usize, usize> {
        crate::model::step();
        self.0.compare_exchange(a, b, s, f)
    }
    pub fn compare_exchange_weak(&self, a: usize, b: usize, s: Ordering, f: Ordering) -> Result<usize, usize> {
        crate::model::step();
        self.0.compare_exchange_weak(a, b, s, f)
    }
    pub fn fetch_add(&self, v: usize, o: Ordering) -> usize {
        crate::model::step();
        self.0.fetch_add(v, o)
    }
    pub fn fetch_sub(&self, v: usize, o: Ordering) -> usize {
        crate::model::step();
        self.0.fetch_sub(v, o)
    }
    pub fn fetch_and(&self, v: usize, o: Ordering) -> usize {
        crate::model::step();
        self.0.fetch_and(v, o)
    }
    pub fn fetch_or(&self, v: usize, o: Ordering) -> usize {
        crate::model::step();
        self.0.fetch_or(v, o)
    }
    pub fn fetch_xor(&self, v: usize, o: Ordering) -> usize {
        crate::model::step();
        self.0.fetch_xor(v, o)
    }
    pub fn fetch_update<F: FnMut(usize) -> Option<usize>>(&self, s: Ordering, f: Ordering, g: F) -> Result<usize, usize> {
        crate::model::step();
        self.0.fetch_update(s, f, g)
    }
    pub fn get_mut(&mut self) -> &mut usize {
        unimplemented!()
    }
    pub fn into_inner(self) -> usize {
        self.0.into_inner()
    }
}
impl Default for AtomicUsize {
    fn default() -> Self {
        Self::new(0)
    }
}
impl std::fmt::Debug for AtomicUsize {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "AtomicUsize")
    }
}

//! The interface of crossbeam-epoch 0.2.0 for loom. `Atomic` is crossbeam's own code on loom's
//! `AtomicUsize`; epochs are modelled (see `guard`).
mod atomic;
mod guard;
pub mod model;
pub mod vp;
pub use atomic::{Atomic, CompareAndSetError, CompareAndSetOrdering, Owned, Pointer, Shared};
pub use guard::{is_pinned, pin, unprotected, Guard};

//! Bounded exhaustive exploration of the real extended-collections code.
pub mod algebra;
pub mod alloc;
pub mod fsx;
pub mod lists;
pub mod lsm;
pub mod skip;
pub mod depth;
pub mod engine;
pub mod maps;
pub mod panics;
pub mod radix;
pub mod bp;
pub mod sched;
pub mod scratch;
pub mod arena;
pub mod tok;
pub mod trees;
pub mod util;
pub mod work;

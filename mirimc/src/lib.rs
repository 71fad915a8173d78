//! What runs under Miri: every reachable state of small skiplists, every operation on each.
pub mod explore;
pub mod types;

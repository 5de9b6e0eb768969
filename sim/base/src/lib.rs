//! What library code may call into: allocator, component types, records. Not instrumented.
#![allow(static_mut_refs, clippy::type_complexity, dead_code)]
pub mod alloc;
pub mod hook;
pub mod report;
pub mod rng;
pub mod values;

//! The simulator: everything in this crate is *not* instrumented. It owns the scheduler, the
//! simulated clock, randomness, environment and heap, and every injected fault.
pub mod alloc;
pub mod cov;
pub mod engine;
pub mod interpose;
pub mod proc;
pub mod raw;
pub mod rng;
pub mod shared;
pub mod world;

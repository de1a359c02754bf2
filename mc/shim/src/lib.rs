//! Stands in for `std` in code that is compiled for schedule exploration: everything is `std`, except that locks,
//! condition variables, channels, atomics, threads and time go through a scheduler that runs one thread at a time
//! and asks the model checker which one goes on.
#![allow(clippy::all)]
pub use std::*;
pub mod sched;
pub mod sync;
pub mod thread;
pub mod time;

//! Runtime of the deterministic simulation: scheduler, simulated file system, interposed system
//! interface. Compiled without instrumentation.
#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
pub mod raw;
pub mod rng;
pub mod sched;
pub mod tsan;
pub mod vfs;
pub mod sys;

/// Panics of the code under test are outcomes to be judged, not to be printed.
pub fn silence_panics() { std::panic::set_hook(Box::new(|_| {})) }

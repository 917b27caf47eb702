//! Runtime of the deterministic simulator: scheduler, clock, disk, network, event log.
#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions, static_mut_refs, clippy::all)]
pub mod fs;
pub mod net;
pub mod proc;
pub mod rng;
pub mod sched;
pub mod sync;

pub use sched::{block, cur_group, in_sim, now, rng, spawn, spin, wake, yield_point, Pt};

//! Shared parts of the runtime-monitoring harness for oasis-cbor.
#![allow(clippy::all)]
pub mod gen;
pub mod model;
pub mod rng;
#[cfg(not(miri))]
pub mod alloc;
#[cfg(not(miri))]
pub mod run;

//! Monitors, reference models and workloads for parcode.
#![allow(clippy::all)]
pub mod big;
pub mod cx;
pub mod guard;
pub mod lz4;
pub mod mutate;
pub mod probe;
pub mod program;
pub mod refdec;
pub mod refenc;
pub mod rng;
pub mod shape;
pub mod spy;
pub mod spyzoo;
pub mod val;
pub mod work;
pub mod zoo;

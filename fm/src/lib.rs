//! Monitors for udoprog/fixed-map: see /verif/DESIGN.md.
#![allow(clippy::all)]

pub mod alloc;
pub mod ctx;
pub mod fixtures;
pub mod gen;
pub mod iters;
pub mod methods;
pub mod props;
pub mod rng;
#[cfg(feature = "serde")]
pub mod sd;
pub mod shape;
pub mod val;
pub mod views;

pub use ctx::{Ctx, R};
pub use fixed_map::{self, Key, Map, Set};

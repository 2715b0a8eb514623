//! Harnesses deciding the properties of `/verif/properties.jsonl`.
//!
//! Every harness is an ordinary function of the `Src` its inputs are drawn from. Under Kani `Src`
//! is symbolic and the harness is a proof over all inputs; compiled natively (crate `../replay`)
//! the same functions re-run a counterexample against the real build.
#![cfg_attr(kani, feature(allocator_api))]
#![allow(clippy::all)]
#![allow(dead_code)]

#[macro_use]
pub mod base;
pub mod debug;
pub mod one;
pub mod group;
pub mod opt;
pub mod owner;
pub mod partial;
#[cfg(feature = "serde")]
pub mod serialize;

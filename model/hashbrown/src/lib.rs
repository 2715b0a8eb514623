//! Bounded contract model of `hashbrown` 0.12.3.
//!
//! It stands in for the real crate (via `[patch.crates-io]`) when the maps of `/repo` are executed
//! symbolically. It keeps the public contract of `RawTable`/`HashSet` and leaves open everything
//! the contract leaves open:
//!
//! * an element may land in any free slot, so the iteration order is arbitrary (`nd::slot`);
//! * a lookup visits every element whose top seven hash bits agree (`Wide`, what a one-group table
//!   does) or only those whose full hash agrees (not `Wide`, the least that a table guarantees);
//! * an insertion, reservation or shrink may rehash every element through the caller's hasher;
//! * an erased slot may or may not be usable again without growing (tombstones);
//! * using a bucket after its element has been removed is reported as an error.
//!
//! Under Kani the choices are symbolic and tables hold at most `CAP` elements; compiled natively
//! the choices come from a PRNG and tables are unbounded, which is how the model is validated
//! against the repository's own tests.
#![allow(clippy::all)]

pub mod hash_set;
pub mod raw;
pub mod verif;

/// `DefaultHashBuilder` and friends
pub mod hash_map {
    pub use crate::verif::{DefaultHashBuilder, DefaultHasher};
}

pub use hash_set::HashSet;

/// The error type for `try_reserve` methods.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum TryReserveError {
    /// Error due to the computed capacity exceeding the collection's maximum
    CapacityOverflow,
    /// The memory allocator returned an error
    AllocError {
        /// The layout of the allocation request that failed.
        layout: core::alloc::Layout,
    },
}

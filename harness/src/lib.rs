//! Property checks for radixdb: generated cases against explicit oracles.
pub use rvbase::{alloc, codec, gen, model, sys, tape};
pub mod engine;
#[cfg(feature = "cov")]
pub mod guide;
pub mod props;
pub mod stores;
pub mod tree;
pub mod tstore;

#[cfg(not(feature = "sysalloc"))]
#[global_allocator]
static ALLOC: alloc::Alloc = alloc::Alloc;

/// comparisons executed so far (instrumented builds only)
pub fn work() -> u64 {
    #[cfg(feature = "cov")]
    return rvcov::work();
    #[cfg(not(feature = "cov"))]
    0
}

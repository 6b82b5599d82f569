pub mod engine;
pub mod fault;
pub mod elem;
pub mod feed;
#[cfg(feature = "std")]
pub mod pipe;
pub mod acts;
pub mod place;
#[cfg(feature = "arb")]
pub mod arb;
pub mod clones;
pub mod cmpworld;
#[macro_use]
pub mod iters;
// the same again, so that the compiler works on the parts in parallel
#[path = "iters.rs"]
pub mod iters2;
#[path = "iters.rs"]
pub mod iters3;
#[path = "iters.rs"]
pub mod iters4;
pub mod mk;
pub mod ranges;
pub mod views;
pub mod seq;
pub mod seqworld;
pub mod sparseworld;
pub mod inlineworld;
#[cfg(feature = "rb")]
pub mod ringslice;
pub mod lies;
pub mod raw;
pub mod mutrefs;
#[cfg(all(feature = "pool", feature = "rb"))]
pub mod poolworld;
#[cfg(feature = "std")]
pub mod work;

//! C11: equality, order, hash and debug depend on contents only.
use harness::cmpworld::*;
use harness::engine::*;

fn main() {
    harness::engine::main(&[
        Suite::exhaustive("every-flat", 100_000_000, 1_000_000_000, flat::<F>),
        Suite::exhaustive("every-flat-ord", 100_000_000, 1_000_000_000, flat_ord::<G>),
        Suite::exhaustive("every-ring", 100_000_000, 1_000_000_000, ring::<F>),
        Suite::exhaustive("every-ring-ord", 100_000_000, 1_000_000_000, ring_ord::<G>),
        Suite::exhaustive("every-sparse", 100_000_000, 1_000_000_000, sparse::<F>),
        Suite::random("flat", 1_000_000, 16_000_000, flat::<F>),
        Suite::random("flat-ord", 750_000, 12_000_000, flat_ord::<G>),
        Suite::random("flat-u8", 500_000, 8_000_000, flat_ord::<u8>),
        Suite::random("flat-zst", 150_000, 2_400_000, flat_ord::<()>),
        Suite::random("ring", 1_000_000, 16_000_000, ring::<F>),
        Suite::random("ring-ord", 750_000, 12_000_000, ring_ord::<G>),
        Suite::random("ring-u8", 500_000, 8_000_000, ring_ord::<u8>),
        Suite::random("ring-zst", 150_000, 2_400_000, ring_ord::<()>),
        Suite::random("sparse", 750_000, 12_000_000, sparse::<F>),
        Suite::random("sparse-ord", 500_000, 8_000_000, sparse::<G>),
    ])
}

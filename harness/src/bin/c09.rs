//! C09: iterators yield each item exactly once, from both ends.
use harness::elem::*;
use harness::engine::*;
use harness::{iters, iters2, iters3, iters4};

fn main() {
    harness::engine::main(&[
        Suite::exhaustive("every-chunk", 100_000_000, 1_000_000_000, iters::chunk::<Tk>),
        Suite::exhaustive("every-ring", 100_000_000, 1_000_000_000, iters2::ring::<Tk>),
        Suite::exhaustive("every-inline", 100_000_000, 1_000_000_000, iters4::inline::<Tk>),
        Suite::exhaustive("every-sparse", 100_000_000, 1_000_000_000, iters3::sparse::<Tk>),
        Suite::random("chunk", 3_600_000, 20_000_000, iters::chunk::<Tk>),
        Suite::random("ring", 3_600_000, 20_000_000, iters2::ring::<Tk>),
        Suite::random("inline", 1_800_000, 10_000_000, iters4::inline::<Tk>),
        Suite::random("sparse", 1_080_000, 6_000_000, iters3::sparse::<Tk>),
        Suite::random("chunk-al32", 900_000, 5_000_000, iters::chunk_few::<Al32>),
        Suite::random("ring-al32", 900_000, 5_000_000, iters2::ring_few::<Al32>),
        Suite::random("inline-al32", 900_000, 5_000_000, iters4::inline_few::<Al32>),
        Suite::random("chunk-zst", 720_000, 4_000_000, iters::chunk_few::<Zd>),
        Suite::random("ring-zst", 720_000, 4_000_000, iters2::ring_few::<Zd>),
        Suite::random("inline-zst", 720_000, 4_000_000, iters4::inline_few::<Zd>),
        Suite::random("sparse-zst", 360_000, 2_000_000, iters3::sparse_few::<Zd>),
        Suite::random("ring-u8", 900_000, 5_000_000, iters2::ring_few::<u8>),
        Suite::random("chunk-large", 180_000, 1_000_000, iters::chunk_large),
        Suite::random("ring-large", 180_000, 1_000_000, iters2::ring_large),
    ])
}

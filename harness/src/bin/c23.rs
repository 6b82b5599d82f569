//! C23: operations do the documented amount of work.
use harness::engine::*;
use harness::work;

fn main() {
    harness::engine::main(&[
        Suite::random("chunk", 3_200_000, 24_000_000, work::chunk),
        Suite::random("ring", 3_200_000, 24_000_000, work::ring),
        Suite::random("sparse", 1_600_000, 12_000_000, work::sparse),
        Suite::random("inline", 1_600_000, 12_000_000, work::inline),
    ])
}

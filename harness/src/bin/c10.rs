//! C10: ring buffer slices show and touch exactly their window.
use harness::elem::*;
use harness::engine::*;
use harness::ringslice::*;

fn main() {
    harness::engine::main(&[
        Suite::exhaustive("every-window", 10_000_000, 100_000_000, every_window::<KV>),
        Suite::exhaustive("impossible-ranges", 10_000_000, 100_000_000, wild_ranges),
        Suite::random("read-kv", 180_000, 800_000, read_history::<KV>),
        Suite::random("write-kv", 180_000, 800_000, write_history::<KV>),
        Suite::random("read-tracked", 90_000, 300_000, read_history::<Tk>),
        Suite::random("write-tracked", 90_000, 300_000, write_history::<Tk>),
        Suite::random("write-big", 45_000, 150_000, write_history::<Big>),
        Suite::random("write-pad", 45_000, 150_000, write_history::<Pad>),
        Suite::random("read-zst", 15_000, 50_000, read_history::<Zd>),
        Suite::random("large", 120_000, 500_000, large),
    ])
}

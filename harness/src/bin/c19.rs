//! C19: mutable references handed out never alias. Run natively (values read
//! back) and under Miri's aliasing model.
use harness::elem::*;
use harness::engine::*;
use harness::mutrefs::*;

// the interpreter gets a sample: it is some ten thousand times slower
const fn n(native: u64, interpreted: u64) -> u64 {
    if cfg!(miri) {
        interpreted
    } else {
        native
    }
}

fn main() {
    harness::engine::main(&[
        Suite::exhaustive("every-chunk", n(10_000_000, 0), n(100_000_000, 0), chunk::<KV>),
        Suite::exhaustive("every-ring", n(10_000_000, 0), n(100_000_000, 0), ring::<KV>),
        Suite::exhaustive("every-inline", n(10_000_000, 0), n(100_000_000, 0), inline::<KV>),
        Suite::exhaustive("every-sparse", n(10_000_000, 0), n(100_000_000, 0), sparse::<KV>),
        Suite::random("ring-box", n(200_000, 500), n(4_000_000, 10_000), ring::<Bx>),
        Suite::random("sparse-box", n(200_000, 250), n(4_000_000, 5_000), sparse::<Bx>),
        Suite::random("chunk-box", n(100_000, 150), n(2_000_000, 3_000), chunk::<Bx>),
        Suite::random("inline-box", n(100_000, 150), n(2_000_000, 3_000), inline::<Bx>),
        Suite::random("ring-u8", n(100_000, 250), n(2_000_000, 5_000), ring::<u8>),
        Suite::random("sparse-u8", n(100_000, 150), n(2_000_000, 3_000), sparse::<u8>),
        Suite::random("ring-align", n(50_000, 80), n(1_000_000, 2_000), ring::<Al32>),
        Suite::random("sparse-big", n(50_000, 80), n(1_000_000, 2_000), sparse::<Big>),
        Suite::random("known-halves", 0, 0, known_halves),
    ])
}

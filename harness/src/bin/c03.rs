//! C03: SparseChunk behaves as a bounded index-to-value map.
use harness::elem::*;
use harness::engine::*;
use harness::sparseworld::*;

fn hist_all<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    history::<E>(s, c, SpCfg::model(), SP_CAPS, sp_all::<E>)
}
fn hist<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    history::<E>(s, c, SpCfg::model(), SP_SMALL, sp_small::<E>)
}
fn ex1(s: &mut Src, c: &mut Ctx) -> Res {
    small_scope::<KV>(s, c, SpCfg::model(), &[1, 2, 3, 5, 7, 8], sp_all::<KV>, 1)
}
fn every_index(s: &mut Src, c: &mut Ctx) -> Res {
    each_index::<KV>(s, c, SP_CAPS, sp_all::<KV>)
}
fn ex2(s: &mut Src, c: &mut Ctx) -> Res {
    let caps: &[usize] = if c.thorough { &[1, 2, 3, 5] } else { &[1, 2, 3] };
    small_scope::<KV>(s, c, SpCfg::model(), caps, sp_all::<KV>, 2)
}
fn main() {
    harness::engine::main(&[
        Suite::exhaustive("one-op", 10_000_000, 100_000_000, ex1),
        Suite::exhaustive("each-index", 10_000_000, 10_000_000, every_index),
        Suite::exhaustive("two-ops", 10_000_000, 100_000_000, ex2),
        Suite::random("hist-kv", 60_000, 1_000_000, hist_all::<KV>),
        Suite::random("hist-u8", 30_000, 300_000, hist::<u8>),
        Suite::random("hist-tracked", 30_000, 300_000, hist::<Tk>),
        Suite::random("hist-big", 15_000, 150_000, hist::<Big>),
        Suite::random("hist-box", 15_000, 150_000, hist::<Bx>),
        Suite::random("hist-align", 15_000, 150_000, hist::<Al32>),
        Suite::random("hist-pad", 15_000, 150_000, hist::<Pad>),
        Suite::random("hist-zst", 15_000, 150_000, hist::<Zd>),
    ])
}

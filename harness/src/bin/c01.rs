//! C01: Chunk behaves as a bounded sequence.
use harness::elem::*;
use harness::engine::*;
use harness::seq::*;
use harness::seqworld::*;

const KIND: SeqKind = SeqKind::Chunk;
fn cfg() -> Cfg {
    Cfg { kind: KIND, wild: 0, fuse: 0, lies: 0, oracle: Oracle::Model, weights: W_ALL, keys: 12, max_ops: 120, avg_ops: 14, sorted: false, slots: 3 }
}
fn hist<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    history::<E>(s, c, cfg(), CAPS, chunk_all::<E>)
}
fn hist_small<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    history::<E>(s, c, cfg(), SMALL, chunk_small::<E>)
}
fn huge(s: &mut Src, c: &mut Ctx) -> Res {
    history::<Zd>(s, c, cfg(), HUGES, chunk_huge)
}
fn large(s: &mut Src, c: &mut Ctx) -> Res {
    history::<KV>(s, c, Cfg { keys: 1000, avg_ops: 8, ..cfg() }, LARGE, chunk_large::<KV>)
}
fn larger(s: &mut Src, c: &mut Ctx) -> Res {
    history::<u8>(s, c, Cfg { keys: 251, avg_ops: 5, max_ops: 40, ..cfg() }, LARGER, chunk_larger)
}
fn long(s: &mut Src, c: &mut Ctx) -> Res {
    let mut g = cfg();
    g.avg_ops = 150;
    g.max_ops = 600;
    history::<KV>(s, c, g, CAPS, chunk_all::<KV>)
}
fn ex1(s: &mut Src, c: &mut Ctx) -> Res {
    let caps: &[usize] = if c.thorough { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17] } else { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12] };
    small_scope::<KV>(s, c, cfg(), caps, chunk_all::<KV>, 1, false)
}
fn ex_pair(s: &mut Src, c: &mut Ctx) -> Res {
    let caps: &[usize] = if c.thorough { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12] } else { &[0, 1, 2, 3, 4, 5, 6, 7, 8] };
    small_scope::<KV>(s, c, cfg(), caps, chunk_all::<KV>, 1, true)
}
fn ex2(s: &mut Src, c: &mut Ctx) -> Res {
    let caps: &[usize] = if c.thorough { &[1, 2, 3, 4] } else { &[1, 2, 3] };
    small_scope::<u8>(s, c, cfg(), caps, chunk_small::<u8>, 2, false)
}
fn main() {
    harness::engine::main(&[
        Suite::exhaustive("one-op", 10_000_000, 100_000_000, ex1),
        Suite::exhaustive("pair-op", 10_000_000, 100_000_000, ex_pair),
        Suite::exhaustive("two-ops", 10_000_000, 100_000_000, ex2),
        Suite::exhaustive("every-range", 10_000_000, 100_000_000, harness::ranges::every),
        Suite::random("ranges", 400_000, 1_200_000, harness::ranges::some),
        Suite::random("hist-kv", 600_000, 2_000_000, hist::<KV>),
        Suite::random("hist-long", 32_000, 150_000, long),
        Suite::random("hist-u8", 160_000, 480_000, hist_small::<u8>),
        Suite::random("hist-tracked", 160_000, 480_000, hist_small::<Tk>),
        Suite::random("hist-big", 80_000, 240_000, hist_small::<Big>),
        Suite::random("hist-box", 80_000, 240_000, hist_small::<Bx>),
        Suite::random("hist-align", 80_000, 240_000, hist_small::<Al32>),
        Suite::random("hist-pad", 80_000, 240_000, hist_small::<Pad>),
        Suite::random("hist-zst", 80_000, 240_000, hist_small::<Zd>),
        Suite::random("hist-large", 160_000, 480_000, large),
        Suite::random("hist-larger", 8_000, 30_000, larger),
        Suite::random("hist-huge", 240_000, 2_000_000, huge),
    ])
}

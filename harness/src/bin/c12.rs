//! C12: clones and pooled copies are equal and independent.
use harness::clones::*;
use harness::elem::*;
use harness::engine::*;
use harness::inlineworld as inl;
use harness::inlineworld::InCfg;
use harness::poolworld;
use harness::seq::*;
use harness::seqworld::*;
use harness::sparseworld as spa;
use harness::sparseworld::SpCfg;
use sized_chunks::*;

// every capacity in turn: (suite function, capacities)
macro_rules! caps {
    ($name:ident, $f:ident, $C:ident, [$($n:literal),*]) => {
        fn $name<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
            const CAPS: &[usize] = &[$($n),*];
            match *s.pick(CAPS) {
                $($n => $f::<E, $C<E, $n>>(s, c),)*
                _ => unreachable!(),
            }
        }
    };
}
caps!(chunk, plain, Chunk, [0, 1, 2, 3, 4, 8, 33]);
caps!(chunk_pool, poisoned, Chunk, [0, 1, 2, 3, 4, 8, 33]);
caps!(ring, plain, RingBuffer, [0, 1, 2, 3, 4, 8, 33]);
caps!(ring_pool, poisoned, RingBuffer, [0, 1, 2, 3, 4, 8, 33]);
caps!(sparse, plain, SparseChunk, [1, 2, 5, 8, 33, 65, 130]);
caps!(sparse_pool, poisoned, SparseChunk, [1, 2, 5, 8, 33, 65, 130]);
fn inline<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    match s.int(6) {
        0 => plain::<E, InlineArray<E, [u64; 4]>>(s, c),
        1 => plain::<E, InlineArray<E, [u64; 7]>>(s, c),
        2 => plain::<E, InlineArray<E, [u32; 15]>>(s, c),
        3 => plain::<E, InlineArray<E, [u64; 16]>>(s, c),
        4 => plain::<E, InlineArray<E, usize>>(s, c),
        _ => plain::<E, InlineArray<E, [u8; 77]>>(s, c),
    }
}
fn window<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    match s.int(6) {
        0 => windows::<E, 1>(s, c),
        1 => windows::<E, 2>(s, c),
        2 => windows::<E, 3>(s, c),
        3 => windows::<E, 5>(s, c),
        4 => windows::<E, 8>(s, c),
        _ => windows::<E, 33>(s, c),
    }
}
// histories with many copies in them
fn weights() -> [u32; 43] {
    let mut w = W_ALL;
    w[27] = 25;
    w[28] = 15;
    w[29] = 15;
    w
}
fn cfg(kind: SeqKind) -> Cfg {
    Cfg { kind, wild: 0, fuse: 0, lies: 0, oracle: Oracle::Model, weights: weights(), keys: 12, max_ops: 80, avg_ops: 12, sorted: false, slots: 3 }
}
fn chunk_hist<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    history::<E>(s, c, cfg(SeqKind::Chunk), SMALL, chunk_small::<E>)
}
fn ring_hist<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    history::<E>(s, c, cfg(SeqKind::Ring), SMALL, ring_small::<E>)
}
fn sparse_hist<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    spa::history::<E>(s, c, SpCfg { avg_ops: 10, max_ops: 60, ..SpCfg::model() }, spa::SP_SMALL, spa::sp_small::<E>)
}
fn inline_hist<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    inl::history::<E>(s, c, InCfg { avg_ops: 10, max_ops: 60, ..InCfg::model() }, inl::HOSTS, inl::in_all::<E>)
}
fn pool<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    poolworld::history::<E>(s, c, 0, true)
}
fn main() {
    harness::engine::main(&[
        Suite::random("chunk", 720_000, 6_000_000, chunk::<Tk>),
        Suite::random("ring", 720_000, 6_000_000, ring::<Tk>),
        Suite::random("sparse", 480_000, 4_000_000, sparse::<Tk>),
        Suite::random("inline", 720_000, 6_000_000, inline::<Tk>),
        Suite::random("window", 960_000, 8_000_000, window::<Tk>),
        Suite::random("chunk-in-place", 720_000, 6_000_000, chunk_pool::<Tk>),
        Suite::random("ring-in-place", 720_000, 6_000_000, ring_pool::<Tk>),
        Suite::random("sparse-in-place", 480_000, 4_000_000, sparse_pool::<Tk>),
        Suite::random("chunk-zst", 120_000, 1_000_000, chunk_pool::<Zd>),
        Suite::random("ring-zst", 120_000, 1_000_000, ring_pool::<Zd>),
        Suite::random("sparse-zst", 120_000, 1_000_000, sparse_pool::<Zd>),
        Suite::random("inline-zst", 120_000, 1_000_000, inline::<Zd>),
        Suite::random("chunk-no-drop", 120_000, 1_000_000, chunk::<Nd>),
        Suite::random("ring-no-drop", 120_000, 1_000_000, ring::<Nd>),
        Suite::random("sparse-no-drop", 120_000, 1_000_000, sparse::<Nd>),
        Suite::random("inline-no-drop", 120_000, 1_000_000, inline::<Nd>),
        Suite::random("window-no-drop", 120_000, 1_000_000, window::<Nd>),
        Suite::random("chunk-no-drop-in-place", 120_000, 1_000_000, chunk_pool::<Nd>),
        Suite::random("ring-no-drop-in-place", 120_000, 1_000_000, ring_pool::<Nd>),
        Suite::random("sparse-no-drop-in-place", 120_000, 1_000_000, sparse_pool::<Nd>),
        Suite::random("pool", 720_000, 6_000_000, pool::<Tk>),
        Suite::random("pool-al32", 240_000, 2_000_000, pool::<Al32>),
        Suite::random("chunk-history", 240_000, 3_000_000, chunk_hist::<Tk>),
        Suite::random("ring-history", 240_000, 3_000_000, ring_hist::<Tk>),
        Suite::random("sparse-history", 120_000, 2_000_000, sparse_hist::<Tk>),
        Suite::random("inline-history", 120_000, 2_000_000, inline_hist::<Tk>),
        Suite::random("chunk-big", 120_000, 1_000_000, chunk_hist::<Big>),
        Suite::random("ring-big", 120_000, 1_000_000, ring_hist::<Big>),
    ])
}

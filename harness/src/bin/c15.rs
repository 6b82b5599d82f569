//! C15: sorted insertion and searching agree with sorted order.
use harness::elem::*;
use harness::engine::*;
use harness::ringslice;
use harness::seq::*;
use harness::seqworld::*;

fn cfg(kind: SeqKind) -> Cfg {
    Cfg { kind, wild: 0, fuse: 0, lies: 0, oracle: Oracle::Model, weights: W_SORTED, keys: 20, max_ops: 100, avg_ops: 14, sorted: true, slots: 2 }
}
fn chunk<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    history::<E>(s, c, cfg(SeqKind::Chunk), CAPS, chunk_all::<E>)
}
fn ring<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    history::<E>(s, c, cfg(SeqKind::Ring), CAPS, ring_all::<E>)
}
fn unsorted(kind: SeqKind) -> Cfg {
    let mut w = W_SORTED;
    w[0] = 4;
    w[1] = 4;
    w[8] = 4;
    w[38] = 4;
    Cfg { sorted: false, weights: w, ..cfg(kind) }
}
fn chunk_unsorted(s: &mut Src, c: &mut Ctx) -> Res {
    history::<Tk>(s, c, unsorted(SeqKind::Chunk), SMALL, chunk_small::<Tk>)
}
fn ring_unsorted(s: &mut Src, c: &mut Ctx) -> Res {
    history::<Tk>(s, c, unsorted(SeqKind::Ring), SMALL, ring_small::<Tk>)
}
/// Few keys: long runs of equal items.
fn chunk_dups(s: &mut Src, c: &mut Ctx) -> Res {
    history::<KV>(s, c, Cfg { keys: 3, ..cfg(SeqKind::Chunk) }, CAPS, chunk_all::<KV>)
}
fn ring_dups(s: &mut Src, c: &mut Ctx) -> Res {
    history::<KV>(s, c, Cfg { keys: 3, ..cfg(SeqKind::Ring) }, CAPS, ring_all::<KV>)
}
fn main() {
    harness::engine::main(&[
        Suite::exhaustive("every-sorted-chunk", 10_000_000, 100_000_000, ringslice::sorted_chunk),
        Suite::exhaustive("every-sorted-ring", 10_000_000, 100_000_000, ringslice::sorted_ring),
        Suite::random("chunk-kv", 1_200_000, 3_600_000, chunk::<KV>),
        Suite::random("ring-kv", 1_200_000, 3_600_000, ring::<KV>),
        Suite::random("chunk-dups", 600_000, 1_800_000, chunk_dups),
        Suite::random("ring-dups", 600_000, 1_800_000, ring_dups),
        Suite::random("chunk-unsorted", 600_000, 1_800_000, chunk_unsorted),
        Suite::random("ring-unsorted", 600_000, 1_800_000, ring_unsorted),
        Suite::random("slices", 1_200_000, 3_600_000, ringslice::search),
    ])
}

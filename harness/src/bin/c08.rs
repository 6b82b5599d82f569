//! C08: out-of-contract calls are refused without side effects.
use harness::elem::*;
use harness::engine::*;
use harness::inlineworld as inl;
use harness::inlineworld::InCfg;
use harness::ringslice;
use harness::seq::*;
use harness::seqworld::*;
use harness::sparseworld as spa;
use harness::sparseworld::SpCfg;

fn cfg(kind: SeqKind) -> Cfg {
    Cfg { kind, wild: 7, fuse: 0, lies: 0, oracle: Oracle::Model, weights: W_ALL, keys: 12, max_ops: 60, avg_ops: 8, sorted: false, slots: 3 }
}
fn bulk(kind: SeqKind) -> Cfg {
    Cfg { weights: W_BULK, ..cfg(kind) }
}
fn sp() -> SpCfg {
    SpCfg { wild: 7, avg_ops: 8, max_ops: 60, ..SpCfg::model() }
}
fn ic() -> InCfg {
    InCfg { wild: 7, avg_ops: 8, max_ops: 60, ..InCfg::model() }
}
fn chunk<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    history::<E>(s, c, cfg(SeqKind::Chunk), SMALL, chunk_small::<E>)
}
fn ring<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    history::<E>(s, c, cfg(SeqKind::Ring), SMALL, ring_small::<E>)
}
fn chunk_bulk(s: &mut Src, c: &mut Ctx) -> Res {
    history::<Tk>(s, c, bulk(SeqKind::Chunk), SMALL, chunk_small::<Tk>)
}
fn ring_bulk(s: &mut Src, c: &mut Ctx) -> Res {
    history::<Tk>(s, c, bulk(SeqKind::Ring), SMALL, ring_small::<Tk>)
}
fn sparse<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    spa::history::<E>(s, c, sp(), spa::SP_SMALL, spa::sp_small::<E>)
}
fn inline<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    inl::history::<E>(s, c, ic(), inl::HOSTS, inl::in_all::<E>)
}
// Every arrangement of a small container, then one call with every argument,
// the listed impossible ones included.
fn caps(c: &Ctx) -> &'static [usize] {
    if c.thorough {
        &[0, 1, 2, 3, 4, 5, 8]
    } else {
        &[0, 1, 2, 3, 4, 5]
    }
}
fn ex_chunk(s: &mut Src, c: &mut Ctx) -> Res {
    let caps = caps(c);
    small_scope::<Tk>(s, c, cfg(SeqKind::Chunk), caps, chunk_small::<Tk>, 1, false)
}
fn ex_chunk_pair(s: &mut Src, c: &mut Ctx) -> Res {
    let caps = caps(c);
    small_scope::<Tk>(s, c, cfg(SeqKind::Chunk), caps, chunk_small::<Tk>, 1, true)
}
fn ex_ring(s: &mut Src, c: &mut Ctx) -> Res {
    let caps = caps(c);
    small_scope::<Tk>(s, c, cfg(SeqKind::Ring), caps, ring_small::<Tk>, 1, false)
}
fn ex_ring_pair(s: &mut Src, c: &mut Ctx) -> Res {
    let caps = caps(c);
    small_scope::<Tk>(s, c, cfg(SeqKind::Ring), caps, ring_small::<Tk>, 1, true)
}
fn ex_sparse(s: &mut Src, c: &mut Ctx) -> Res {
    spa::small_scope::<Tk>(s, c, sp(), &[1, 2, 3, 5], spa::sp_small::<Tk>, 1)
}
fn ex_inline(s: &mut Src, c: &mut Ctx) -> Res {
    inl::small_scope::<Tk>(s, c, ic(), &[0, 1, 2, 3, 4, 5, 7, 10, 13, 16], inl::in_all::<Tk>, 1)
}
fn main() {
    harness::engine::main(&[
        Suite::exhaustive("one-op-chunk", 10_000_000, 100_000_000, ex_chunk),
        Suite::exhaustive("pair-op-chunk", 10_000_000, 100_000_000, ex_chunk_pair),
        Suite::exhaustive("one-op-ring", 10_000_000, 100_000_000, ex_ring),
        Suite::exhaustive("pair-op-ring", 10_000_000, 100_000_000, ex_ring_pair),
        Suite::exhaustive("one-op-sparse", 10_000_000, 100_000_000, ex_sparse),
        Suite::exhaustive("one-op-inline", 10_000_000, 100_000_000, ex_inline),
        Suite::exhaustive("slice-ranges", 10_000_000, 100_000_000, ringslice::wild_ranges),
        Suite::random("chunk-kv", 300_000, 900_000, chunk::<KV>),
        Suite::random("ring-kv", 300_000, 900_000, ring::<KV>),
        Suite::random("sparse-kv", 150_000, 450_000, sparse::<KV>),
        Suite::random("inline-kv", 150_000, 450_000, inline::<KV>),
        Suite::random("chunk-bulk", 200_000, 600_000, chunk_bulk),
        Suite::random("ring-bulk", 200_000, 600_000, ring_bulk),
        Suite::random("sparse-tracked", 100_000, 300_000, sparse::<Tk>),
        Suite::random("inline-tracked", 100_000, 300_000, inline::<Tk>),
        Suite::random("chunk-zst", 50_000, 150_000, chunk::<Zd>),
        Suite::random("ring-zst", 50_000, 150_000, ring::<Zd>),
        Suite::random("inline-zst", 50_000, 150_000, inline::<Zd>),
    ])
}

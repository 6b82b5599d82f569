//! C06: every stored item is dropped exactly once.
use harness::elem::*;
use harness::engine::*;
use harness::inlineworld as inl;
use harness::inlineworld::InCfg;
#[cfg(feature = "pool")]
use harness::poolworld;
use harness::seq::*;
use harness::seqworld::*;
use harness::sparseworld as spa;
use harness::sparseworld::SpCfg;

fn cfg(kind: SeqKind) -> Cfg {
    Cfg { kind, wild: 2, fuse: 0, lies: 0, oracle: Oracle::Owner, weights: W_ALL, keys: 6, max_ops: 120, avg_ops: 14, sorted: false, slots: 3 }
}
fn bulk(kind: SeqKind) -> Cfg {
    Cfg { weights: W_BULK, ..cfg(kind) }
}
fn sp() -> SpCfg {
    SpCfg { wild: 2, oracle: Oracle::Owner, keys: 6, ..SpCfg::model() }
}
fn ic() -> InCfg {
    InCfg { wild: 2, oracle: Oracle::Owner, keys: 6, ..InCfg::model() }
}

fn chunk<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    history::<E>(s, c, cfg(SeqKind::Chunk), SMALL, chunk_small::<E>)
}
fn ring<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    history::<E>(s, c, cfg(SeqKind::Ring), SMALL, ring_small::<E>)
}
fn chunk_bulk(s: &mut Src, c: &mut Ctx) -> Res {
    history::<Tk>(s, c, bulk(SeqKind::Chunk), SMALL, chunk_small::<Tk>)
}
fn ring_bulk(s: &mut Src, c: &mut Ctx) -> Res {
    history::<Tk>(s, c, bulk(SeqKind::Ring), SMALL, ring_small::<Tk>)
}
fn sparse<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    spa::history::<E>(s, c, sp(), spa::SP_SMALL, spa::sp_small::<E>)
}
fn inline<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    inl::history::<E>(s, c, ic(), inl::HOSTS, inl::in_all::<E>)
}
fn caps(c: &Ctx) -> &'static [usize] {
    if c.thorough {
        &[1, 2, 3, 4, 5, 8]
    } else {
        &[1, 2, 3, 4, 5]
    }
}
fn ex_chunk(s: &mut Src, c: &mut Ctx) -> Res {
    let caps = caps(c);
    small_scope::<Tk>(s, c, cfg(SeqKind::Chunk), caps, chunk_small::<Tk>, 1, false)
}
fn ex_chunk_pair(s: &mut Src, c: &mut Ctx) -> Res {
    let caps = caps(c);
    small_scope::<Tk>(s, c, cfg(SeqKind::Chunk), caps, chunk_small::<Tk>, 1, true)
}
fn ex_ring(s: &mut Src, c: &mut Ctx) -> Res {
    let caps = caps(c);
    small_scope::<Tk>(s, c, cfg(SeqKind::Ring), caps, ring_small::<Tk>, 1, false)
}
fn ex_ring_pair(s: &mut Src, c: &mut Ctx) -> Res {
    let caps = caps(c);
    small_scope::<Tk>(s, c, cfg(SeqKind::Ring), caps, ring_small::<Tk>, 1, true)
}
fn ex_sparse(s: &mut Src, c: &mut Ctx) -> Res {
    spa::small_scope::<Tk>(s, c, sp(), &[1, 2, 3, 5], spa::sp_small::<Tk>, 1)
}
fn ex_inline(s: &mut Src, c: &mut Ctx) -> Res {
    inl::small_scope::<Tk>(s, c, ic(), &[1, 2, 3, 4, 5, 7, 10, 13, 16], inl::in_all::<Tk>, 1)
}
#[cfg(feature = "pool")]
fn pool(s: &mut Src, c: &mut Ctx) -> Res {
    poolworld::history::<Tk>(s, c, 0, true)
}
fn main() {
    harness::engine::main(&[
        Suite::exhaustive("one-op-chunk", 10_000_000, 100_000_000, ex_chunk),
        Suite::exhaustive("pair-op-chunk", 10_000_000, 100_000_000, ex_chunk_pair),
        Suite::exhaustive("one-op-ring", 10_000_000, 100_000_000, ex_ring),
        Suite::exhaustive("pair-op-ring", 10_000_000, 100_000_000, ex_ring_pair),
        Suite::exhaustive("one-op-sparse", 10_000_000, 100_000_000, ex_sparse),
        Suite::exhaustive("one-op-inline", 10_000_000, 100_000_000, ex_inline),
        Suite::random("chunk", 320_000, 1_000_000, chunk::<Tk>),
        Suite::random("ring", 320_000, 1_000_000, ring::<Tk>),
        Suite::random("chunk-bulk", 160_000, 500_000, chunk_bulk),
        Suite::random("ring-bulk", 160_000, 500_000, ring_bulk),
        Suite::random("sparse", 240_000, 720_000, sparse::<Tk>),
        Suite::random("inline", 320_000, 960_000, inline::<Tk>),
        Suite::random("chunk-zst", 80_000, 240_000, chunk::<Zd>),
        Suite::random("ring-zst", 80_000, 240_000, ring::<Zd>),
        Suite::random("sparse-zst", 80_000, 240_000, sparse::<Zd>),
        Suite::random("inline-zst", 80_000, 240_000, inline::<Zd>),
        #[cfg(feature = "pool")]
        Suite::random("pool", 160_000, 480_000, pool),
    ])
}

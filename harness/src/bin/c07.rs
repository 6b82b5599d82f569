//! C07: panics in user code never corrupt a container.
use harness::elem::*;
use harness::engine::*;
use harness::inlineworld as inl;
use harness::inlineworld::InCfg;
#[cfg(feature = "pool")]
use harness::poolworld;
use harness::seq::*;
use harness::seqworld::*;
use harness::sparseworld as spa;
use harness::sparseworld::SpCfg;

fn cfg(kind: SeqKind) -> Cfg {
    Cfg { kind, wild: 1, fuse: 7, lies: 0, oracle: Oracle::Loose, weights: W_PANIC, keys: 6, max_ops: 60, avg_ops: 8, sorted: false, slots: 3 }
}
fn sp() -> SpCfg {
    SpCfg { wild: 1, fuse: 7, oracle: Oracle::Loose, keys: 6, avg_ops: 8, max_ops: 60, ..SpCfg::model() }
}
fn ic() -> InCfg {
    InCfg { wild: 1, fuse: 7, oracle: Oracle::Loose, keys: 6, avg_ops: 8, max_ops: 60, ..InCfg::model() }
}
fn chunk<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    history::<E>(s, c, cfg(SeqKind::Chunk), SMALL, chunk_small::<E>)
}
fn ring<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    history::<E>(s, c, cfg(SeqKind::Ring), SMALL, ring_small::<E>)
}
fn sparse<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    spa::history::<E>(s, c, sp(), spa::SP_SMALL, spa::sp_small::<E>)
}
fn inline<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    inl::history::<E>(s, c, ic(), inl::HOSTS, inl::in_all::<E>)
}
// Bounded-exhaustive: every arrangement, one operation with every argument, a
// panic at every call into user code; the histories above continue from there.
fn ex(kind: SeqKind) -> Cfg {
    Cfg { wild: 0, ..cfg(kind) }
}
fn caps(c: &Ctx) -> &'static [usize] {
    if c.thorough {
        &[1, 2, 3, 4, 5]
    } else {
        &[1, 2, 3, 4]
    }
}
fn ex_chunk(s: &mut Src, c: &mut Ctx) -> Res {
    let caps = caps(c);
    small_scope::<Tk>(s, c, ex(SeqKind::Chunk), caps, chunk_small::<Tk>, 1, false)
}
fn ex_chunk_pair(s: &mut Src, c: &mut Ctx) -> Res {
    let caps = caps(c);
    small_scope::<Tk>(s, c, ex(SeqKind::Chunk), caps, chunk_small::<Tk>, 1, true)
}
fn ex_ring(s: &mut Src, c: &mut Ctx) -> Res {
    let caps = caps(c);
    small_scope::<Tk>(s, c, ex(SeqKind::Ring), caps, ring_small::<Tk>, 1, false)
}
fn ex_ring_pair(s: &mut Src, c: &mut Ctx) -> Res {
    let caps = caps(c);
    small_scope::<Tk>(s, c, ex(SeqKind::Ring), caps, ring_small::<Tk>, 1, true)
}
fn ex_sparse(s: &mut Src, c: &mut Ctx) -> Res {
    let cfg = SpCfg { wild: 0, ..sp() };
    spa::small_scope::<Tk>(s, c, cfg, &[1, 2, 3], spa::sp_small::<Tk>, 1)
}
fn ex_inline(s: &mut Src, c: &mut Ctx) -> Res {
    let cfg = InCfg { wild: 0, ..ic() };
    inl::small_scope::<Tk>(s, c, cfg, &[1, 2, 3, 4, 7, 10, 13], inl::in_all::<Tk>, 1)
}
#[cfg(feature = "pool")]
fn pool(s: &mut Src, c: &mut Ctx) -> Res {
    poolworld::history::<Tk>(s, c, 6, true)
}
fn main() {
    harness::engine::main(&[
        Suite::exhaustive("one-op-chunk", 10_000_000, 100_000_000, ex_chunk),
        Suite::exhaustive("pair-op-chunk", 10_000_000, 100_000_000, ex_chunk_pair),
        Suite::exhaustive("one-op-ring", 10_000_000, 100_000_000, ex_ring),
        Suite::exhaustive("pair-op-ring", 10_000_000, 100_000_000, ex_ring_pair),
        Suite::exhaustive("one-op-sparse", 10_000_000, 100_000_000, ex_sparse),
        Suite::exhaustive("one-op-inline", 10_000_000, 100_000_000, ex_inline),
        Suite::random("chunk", 360_000, 1_080_000, chunk::<Tk>),
        Suite::random("ring", 360_000, 1_080_000, ring::<Tk>),
        Suite::random("sparse", 240_000, 720_000, sparse::<Tk>),
        Suite::random("inline", 240_000, 720_000, inline::<Tk>),
        Suite::random("chunk-zst", 60_000, 180_000, chunk::<Zd>),
        Suite::random("ring-zst", 60_000, 180_000, ring::<Zd>),
        Suite::random("sparse-zst", 60_000, 180_000, sparse::<Zd>),
        Suite::random("inline-zst", 60_000, 180_000, inline::<Zd>),
        #[cfg(feature = "pool")]
        Suite::random("pool", 120_000, 360_000, pool),
    ])
}

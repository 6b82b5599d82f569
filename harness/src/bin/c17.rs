//! C17: dishonest iterators cannot break containers.
use harness::elem::*;
use harness::engine::*;
use harness::inlineworld as inl;
use harness::inlineworld::InCfg;
use harness::seq::*;
use harness::seqworld::*;

fn cfg(kind: SeqKind) -> Cfg {
    Cfg { kind, wild: 1, fuse: 1, lies: 11, oracle: Oracle::Loose, weights: W_FEED, keys: 12, max_ops: 60, avg_ops: 8, sorted: false, slots: 3 }
}
fn ic() -> InCfg {
    InCfg { wild: 1, fuse: 1, lies: 11, oracle: Oracle::Loose, avg_ops: 8, max_ops: 60, ..InCfg::model() }
}
fn chunk<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    history::<E>(s, c, cfg(SeqKind::Chunk), SMALL, chunk_small::<E>)
}
fn ring<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    history::<E>(s, c, cfg(SeqKind::Ring), SMALL, ring_small::<E>)
}
fn inline<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    inl::history::<E>(s, c, ic(), inl::HOSTS, inl::in_all::<E>)
}
fn main() {
    harness::engine::main(&[
        Suite::exhaustive("every-lie-chunk", 10_000_000, 100_000_000, harness::lies::chunk),
        Suite::exhaustive("every-lie-ring", 10_000_000, 100_000_000, harness::lies::ring),
        Suite::random("chunk", 500_000, 1_500_000, chunk::<Tk>),
        Suite::random("ring", 500_000, 1_500_000, ring::<Tk>),
        Suite::random("inline", 200_000, 600_000, inline::<Tk>),
        Suite::random("chunk-kv", 300_000, 900_000, chunk::<KV>),
        Suite::random("ring-kv", 300_000, 900_000, ring::<KV>),
        Suite::random("chunk-zst", 100_000, 300_000, chunk::<Zd>),
        Suite::random("ring-zst", 100_000, 300_000, ring::<Zd>),
    ])
}

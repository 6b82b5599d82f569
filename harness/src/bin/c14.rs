//! C14: bulk moves between containers conserve items and order.
use harness::elem::*;
use harness::engine::*;
use harness::inlineworld as inl;
use harness::inlineworld::InCfg;
use harness::seq::*;
use harness::seqworld::*;

fn cfg(kind: SeqKind) -> Cfg {
    Cfg { kind, wild: 1, fuse: 0, lies: 0, oracle: Oracle::Model, weights: W_BULK, keys: 12, max_ops: 120, avg_ops: 14, sorted: false, slots: 3 }
}
fn ic() -> InCfg {
    InCfg { wild: 1, ..InCfg::model() }
}
fn chunk<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    history::<E>(s, c, cfg(SeqKind::Chunk), CAPS, chunk_all::<E>)
}
fn ring<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    history::<E>(s, c, cfg(SeqKind::Ring), CAPS, ring_all::<E>)
}
fn chunk_small_<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    history::<E>(s, c, cfg(SeqKind::Chunk), SMALL, chunk_small::<E>)
}
fn ring_small_<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    history::<E>(s, c, cfg(SeqKind::Ring), SMALL, ring_small::<E>)
}
fn convert<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    inl::conversions::<E>(s, c, ic(), inl::HOSTS, inl::in_all::<E>)
}
fn ex(kind: SeqKind) -> Cfg {
    Cfg { wild: 2, ..cfg(kind) }
}
const BIGGER: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12];
fn ex_chunk(s: &mut Src, c: &mut Ctx) -> Res {
    small_scope::<KV>(s, c, ex(SeqKind::Chunk), BIGGER, chunk_all::<KV>, 1, false)
}
fn ex_ring(s: &mut Src, c: &mut Ctx) -> Res {
    small_scope::<KV>(s, c, ex(SeqKind::Ring), BIGGER, ring_all::<KV>, 1, false)
}
fn pairs(c: &Ctx) -> &'static [usize] {
    if c.thorough {
        &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12]
    } else {
        &[0, 1, 2, 3, 4, 5, 6, 7, 8]
    }
}
fn pair_cfg(kind: SeqKind) -> Cfg {
    Cfg { wild: 0, ..cfg(kind) }
}
fn ex_chunk_pair(s: &mut Src, c: &mut Ctx) -> Res {
    let caps = pairs(c);
    small_scope::<KV>(s, c, pair_cfg(SeqKind::Chunk), caps, chunk_all::<KV>, 1, true)
}
fn ex_ring_pair(s: &mut Src, c: &mut Ctx) -> Res {
    let caps = pairs(c);
    small_scope::<KV>(s, c, pair_cfg(SeqKind::Ring), caps, ring_all::<KV>, 1, true)
}
fn ex_chunk_two(s: &mut Src, c: &mut Ctx) -> Res {
    let caps: &[usize] = if c.thorough { &[2, 3, 4] } else { &[2, 3] };
    small_scope::<KV>(s, c, pair_cfg(SeqKind::Chunk), caps, chunk_all::<KV>, 2, true)
}
fn ex_ring_two(s: &mut Src, c: &mut Ctx) -> Res {
    let caps: &[usize] = if c.thorough { &[2, 3, 4] } else { &[2, 3] };
    small_scope::<KV>(s, c, pair_cfg(SeqKind::Ring), caps, ring_all::<KV>, 2, true)
}
fn ex_convert<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    inl::all_conversions::<E>(s, c, ic(), inl::HOSTS, inl::in_all::<E>)
}
fn main() {
    harness::engine::main(&[
        Suite::exhaustive("one-op-chunk", 10_000_000, 100_000_000, ex_chunk),
        Suite::exhaustive("one-op-ring", 10_000_000, 100_000_000, ex_ring),
        Suite::exhaustive("pair-op-chunk", 10_000_000, 100_000_000, ex_chunk_pair),
        Suite::exhaustive("pair-op-ring", 10_000_000, 100_000_000, ex_ring_pair),
        Suite::exhaustive("pair-ops-chunk", 10_000_000, 100_000_000, ex_chunk_two),
        Suite::exhaustive("pair-ops-ring", 10_000_000, 100_000_000, ex_ring_two),
        Suite::exhaustive("conversion-kv", 10_000_000, 100_000_000, ex_convert::<KV>),
        Suite::exhaustive("conversion-tracked", 10_000_000, 100_000_000, ex_convert::<Tk>),
        Suite::exhaustive("conversion-u8", 10_000_000, 100_000_000, ex_convert::<u8>),
        Suite::exhaustive("conversion-zst", 10_000_000, 100_000_000, ex_convert::<Zd>),
        Suite::random("chunk-kv", 360_000, 1_080_000, chunk::<KV>),
        Suite::random("ring-kv", 360_000, 1_080_000, ring::<KV>),
        Suite::random("chunk-tracked", 180_000, 540_000, chunk_small_::<Tk>),
        Suite::random("ring-tracked", 180_000, 540_000, ring_small_::<Tk>),
        Suite::random("convert-kv", 180_000, 540_000, convert::<KV>),
        Suite::random("convert-tracked", 180_000, 540_000, convert::<Tk>),
        Suite::random("chunk-zst", 60_000, 180_000, chunk_small_::<Zd>),
        Suite::random("ring-zst", 60_000, 180_000, ring_small_::<Zd>),
    ])
}

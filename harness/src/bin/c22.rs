//! C22: the same histories give the same results in every build configuration.
//! Built several times; `--digests` records one digest per case, which the
//! driver compares between the builds. What other properties decide is not
//! judged here: a case which another check would reject only has to end the
//! same way everywhere.
use harness::elem::*;
use harness::engine::*;
use harness::fault::catch;
use harness::raw::*;

const CALM: Raw = Raw { ops: 10, wild: 2, fuse: 0, lies: 0, text: true, halves: true };
const ROUGH: Raw = Raw { ops: 10, wild: 5, fuse: 2, lies: 4, text: true, halves: true };

fn soft(c: &mut Ctx, f: impl FnOnce(&mut Ctx) -> Res) -> Res {
    let r = catch(|| f(&mut *c));
    harness::fault::disarm();
    let clean = harness::fault::errors().is_none();
    harness::fault::forget_errors();
    match r {
        Ok(Err(Fail::Skip)) => return Err(Fail::Skip),
        Ok(Ok(())) => c.observe(1 + clean as u64),
        Ok(Err(_)) => c.observe(3),
        Err(_) => c.observe(4),
    }
    Ok(())
}
macro_rules! raws {
    ($($name:ident $rough:ident $case:ident,)*) => { $(
        fn $name<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
            soft(c, |c| $case::<E>(s, c, CALM))
        }
        fn $rough<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
            soft(c, |c| $case::<E>(s, c, ROUGH))
        }
    )* };
}
raws! {
    a_chunk r_chunk chunk,
    a_inline r_inline inline,
    a_sparse r_sparse sparse,
}
#[cfg(feature = "rb")]
raws! {
    a_ring r_ring ring,
}

// With a model next to them: the verdict is what gets compared. Only in the
// builds with all features: some of their operations need these.
#[cfg(feature = "pool")]
mod worlds {
    use super::*;
    use harness::inlineworld as inl;
    use harness::inlineworld::InCfg;
    use harness::seq::*;
    use harness::seqworld::*;
    use harness::sparseworld as spa;
    use harness::sparseworld::SpCfg;
// The same with a model next to it: the verdict is what gets compared.
fn cfg(kind: SeqKind) -> Cfg {
    Cfg { kind, wild: 4, fuse: 0, lies: 0, oracle: Oracle::Model, weights: W_ALL, keys: 12, max_ops: 60, avg_ops: 8, sorted: false, slots: 3 }
}
pub fn m_chunk<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    soft(c, |c| history::<E>(s, c, cfg(SeqKind::Chunk), SMALL, chunk_small::<E>))
}
pub fn m_ring<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    soft(c, |c| history::<E>(s, c, cfg(SeqKind::Ring), SMALL, ring_small::<E>))
}
pub fn m_sparse<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    soft(c, |c| spa::history::<E>(s, c, SpCfg { wild: 4, avg_ops: 8, max_ops: 60, ..SpCfg::model() }, spa::SP_SMALL, spa::sp_small::<E>))
}
pub fn m_inline<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    soft(c, |c| inl::history::<E>(s, c, InCfg { wild: 4, avg_ops: 8, max_ops: 60, ..InCfg::model() }, inl::HOSTS, inl::in_all::<E>))
}
pub fn h_chunk(s: &mut Src, c: &mut Ctx) -> Res {
    soft(c, |c| history::<Zd>(s, c, Cfg { wild: 0, ..cfg(SeqKind::Chunk) }, HUGES, chunk_huge))
}
pub fn h_ring(s: &mut Src, c: &mut Ctx) -> Res {
    soft(c, |c| history::<Zd>(s, c, Cfg { wild: 0, ..cfg(SeqKind::Ring) }, HUGES, ring_huge))
}
fn lying(kind: SeqKind) -> Cfg {
    Cfg { kind, wild: 2, fuse: 1, lies: 11, oracle: Oracle::Loose, weights: W_FEED, keys: 12, max_ops: 60, avg_ops: 8, sorted: false, slots: 3 }
}
pub fn l_chunk(s: &mut Src, c: &mut Ctx) -> Res {
    soft(c, |c| history::<Tk>(s, c, lying(SeqKind::Chunk), SMALL, chunk_small::<Tk>))
}
pub fn l_ring(s: &mut Src, c: &mut Ctx) -> Res {
    soft(c, |c| history::<Tk>(s, c, lying(SeqKind::Ring), SMALL, ring_small::<Tk>))
}

// Whatever else there is, wrapped the same way.
macro_rules! worlds {
    ($($(#[$m:meta])* $name:ident: $f:expr;)*) => { $(
        $(#[$m])*
        pub fn $name(s: &mut Src, c: &mut Ctx) -> Res {
            soft(c, |c| ($f)(s, c))
        }
    )* };
}
worlds! {
    i_chunk: harness::iters::chunk::<Tk>;
    i_ring: harness::iters2::ring::<Tk>;
    i_sparse: harness::iters3::sparse::<Tk>;
    i_inline: harness::iters4::inline::<Tk>;
    slice_read: harness::ringslice::read_history::<KV>;
    slice_write: harness::ringslice::write_history::<KV>;
    slice_range: harness::ringslice::wild_ranges;
    slice_search: harness::ringslice::search;
    cmp_flat: harness::cmpworld::flat::<harness::cmpworld::F>;
    cmp_ring: harness::cmpworld::ring::<harness::cmpworld::F>;
    cmp_sparse: harness::cmpworld::sparse::<harness::cmpworld::F>;
    pipe_chunk: harness::pipe::history::<sized_chunks::Chunk<u8, 5>>;
    pipe_chunk0: harness::pipe::history::<sized_chunks::Chunk<u8, 0>>;
    pipe_ring: harness::pipe::history::<sized_chunks::RingBuffer<u8, 5>>;
    pipe_ring0: harness::pipe::history::<sized_chunks::RingBuffer<u8, 0>>;
    pool: |s: &mut Src, c: &mut Ctx| harness::poolworld::history::<Tk>(s, c, 0, true);
    arb_chunk: harness::arb::case::<sized_chunks::Chunk<u8, 5>>;
    arb_chunk_str: harness::arb::case::<sized_chunks::Chunk<String, 4>>;
    arb_ring: harness::arb::case::<sized_chunks::RingBuffer<u8, 5>>;
    arb_sparse: harness::arb::case::<sized_chunks::SparseChunk<u8, 65>>;
    arb_inline: harness::arb::case::<sized_chunks::InlineArray<u8, [u64; 2]>>;
    arb_picky: harness::arb::case::<sized_chunks::Chunk<harness::arb::Picky, 4>>;
}
}
#[cfg(feature = "pool")]
use worlds::*;

fn main() {
    harness::engine::main(&[
        Suite::random("chunk-rough", 60_000, 1_000_000, r_chunk::<Tk>),
        #[cfg(feature = "rb")]
        Suite::random("ring-rough", 60_000, 1_000_000, r_ring::<Tk>),
        Suite::random("inline-rough", 60_000, 1_000_000, r_inline::<Tk>),
        Suite::random("sparse-rough", 40_000, 600_000, r_sparse::<Tk>),
        Suite::random("chunk-kv", 60_000, 1_000_000, a_chunk::<KV>),
        #[cfg(feature = "rb")]
        Suite::random("ring-kv", 60_000, 1_000_000, a_ring::<KV>),
        Suite::random("inline-kv", 60_000, 1_000_000, a_inline::<KV>),
        Suite::random("sparse-kv", 40_000, 600_000, a_sparse::<KV>),
        Suite::random("chunk-u8", 20_000, 300_000, a_chunk::<u8>),
        #[cfg(feature = "rb")]
        Suite::random("ring-u8", 20_000, 300_000, a_ring::<u8>),
        Suite::random("inline-u8", 20_000, 300_000, a_inline::<u8>),
        Suite::random("sparse-u8", 20_000, 300_000, a_sparse::<u8>),
        Suite::random("chunk-zst", 20_000, 300_000, r_chunk::<Zd>),
        #[cfg(feature = "rb")]
        Suite::random("ring-zst", 20_000, 300_000, r_ring::<Zd>),
        Suite::random("inline-zst", 20_000, 300_000, r_inline::<Zd>),
        Suite::random("sparse-zst", 20_000, 300_000, r_sparse::<Zd>),
        #[cfg(feature = "pool")]
        Suite::random("chunk-model", 20_000, 300_000, m_chunk::<KV>),
        #[cfg(feature = "pool")]
        Suite::random("ring-model", 20_000, 300_000, m_ring::<KV>),
        #[cfg(feature = "pool")]
        Suite::random("sparse-model", 20_000, 300_000, m_sparse::<KV>),
        #[cfg(feature = "pool")]
        Suite::random("inline-model", 20_000, 300_000, m_inline::<KV>),
        #[cfg(feature = "pool")]
        Suite::random("chunk-huge", 20_000, 300_000, h_chunk),
        #[cfg(feature = "pool")]
        Suite::random("ring-huge", 20_000, 300_000, h_ring),
        #[cfg(feature = "pool")]
        Suite::random("chunk-lies", 20_000, 300_000, l_chunk),
        #[cfg(feature = "pool")]
        Suite::random("ring-lies", 20_000, 300_000, l_ring),
        #[cfg(feature = "pool")]
        Suite::random("chunk-iter", 40_000, 600_000, i_chunk),
        #[cfg(feature = "pool")]
        Suite::random("ring-iter", 40_000, 600_000, i_ring),
        #[cfg(feature = "pool")]
        Suite::random("sparse-iter", 20_000, 300_000, i_sparse),
        #[cfg(feature = "pool")]
        Suite::random("inline-iter", 30_000, 400_000, i_inline),
        #[cfg(feature = "pool")]
        Suite::random("slice-read", 20_000, 300_000, slice_read),
        #[cfg(feature = "pool")]
        Suite::random("slice-write", 20_000, 300_000, slice_write),
        #[cfg(feature = "pool")]
        Suite::random("slice-range", 20_000, 300_000, slice_range),
        #[cfg(feature = "pool")]
        Suite::random("slice-search", 20_000, 300_000, slice_search),
        #[cfg(feature = "pool")]
        Suite::random("cmp-flat", 40_000, 600_000, cmp_flat),
        #[cfg(feature = "pool")]
        Suite::random("cmp-ring", 40_000, 600_000, cmp_ring),
        #[cfg(feature = "pool")]
        Suite::random("cmp-sparse", 30_000, 400_000, cmp_sparse),
        #[cfg(feature = "pool")]
        Suite::random("io-chunk", 40_000, 600_000, pipe_chunk),
        #[cfg(feature = "pool")]
        Suite::random("io-chunk-0", 4_000, 60_000, pipe_chunk0),
        #[cfg(feature = "pool")]
        Suite::random("io-ring", 40_000, 600_000, pipe_ring),
        #[cfg(feature = "pool")]
        Suite::random("io-ring-0", 4_000, 60_000, pipe_ring0),
        #[cfg(feature = "pool")]
        Suite::random("pool", 20_000, 300_000, pool),
        #[cfg(feature = "pool")]
        Suite::random("arb-chunk", 20_000, 300_000, arb_chunk),
        #[cfg(feature = "pool")]
        Suite::random("arb-strings", 20_000, 300_000, arb_chunk_str),
        #[cfg(feature = "pool")]
        Suite::random("arb-ring", 20_000, 300_000, arb_ring),
        #[cfg(feature = "pool")]
        Suite::random("arb-sparse", 20_000, 300_000, arb_sparse),
        #[cfg(feature = "pool")]
        Suite::random("arb-inline", 20_000, 300_000, arb_inline),
        #[cfg(feature = "pool")]
        Suite::random("arb-failing", 20_000, 300_000, arb_picky),
    ])
}

//! C16: containers generated from bytes are valid and hold what the bytes encode.
use harness::arb::*;
use harness::engine::*;
use sized_chunks::*;

macro_rules! oneof {
    ($name:ident: $($t:ty),* $(,)?) => {
        fn $name(s: &mut Src, c: &mut Ctx) -> Res {
            const F: &[fn(&mut Src, &mut Ctx) -> Res] = &[$(case::<$t>),*];
            let f = *s.pick(F);
            s.shard_here()?;
            f(s, c)
        }
    };
}
oneof!(chunk: Chunk<u8, 1>, Chunk<u8, 5>, Chunk<u8, 64>, Chunk<u8, 200>, Chunk<bool, 33>, Chunk<u32, 4>, Chunk<char, 6>,
    Chunk<String, 4>, Chunk<(), 7>, Chunk<(u8, u16), 9>, Chunk<Option<u8>, 8>, Chunk<Vec<u8>, 3>, Chunk<Result<u8, u16>, 5>, Chunk<Box<u8>, 5>,
    Chunk<ClaimsMost, 3>, Chunk<ClaimsHalf, 3>, Chunk<ClaimsNothing, 3>, Chunk<ClaimsHalf, 1>, Chunk<ClaimsMost, 1>);
oneof!(ring: RingBuffer<u8, 1>, RingBuffer<u8, 5>, RingBuffer<u8, 64>, RingBuffer<u8, 200>, RingBuffer<bool, 33>, RingBuffer<u32, 4>, RingBuffer<char, 6>,
    RingBuffer<String, 4>, RingBuffer<(), 7>, RingBuffer<(u8, u16), 9>, RingBuffer<Option<u8>, 8>, RingBuffer<Vec<u8>, 3>, RingBuffer<[u8; 3], 5>,
    RingBuffer<ClaimsMost, 3>, RingBuffer<ClaimsHalf, 3>, RingBuffer<ClaimsNothing, 3>);
oneof!(sparse: SparseChunk<u8, 1>, SparseChunk<u8, 5>, SparseChunk<u8, 64>, SparseChunk<u8, 65>, SparseChunk<u8, 200>, SparseChunk<bool, 33>,
    SparseChunk<u32, 4>, SparseChunk<char, 6>, SparseChunk<String, 4>, SparseChunk<(), 7>, SparseChunk<(u8, u16), 9>, SparseChunk<Option<u8>, 8>,
    SparseChunk<Vec<u8>, 3>, SparseChunk<ClaimsHalf, 3>, SparseChunk<ClaimsNothing, 3>);
oneof!(inline: InlineArray<u8, usize>, InlineArray<u8, [u64; 2]>, InlineArray<u8, [u64; 30]>, InlineArray<u32, [u64; 3]>, InlineArray<char, [u64; 4]>,
    InlineArray<String, [u64; 12]>, InlineArray<(), usize>, InlineArray<(u8, u16), [u64; 4]>, InlineArray<Option<u8>, [u64; 2]>,
    InlineArray<Vec<u8>, [u64; 10]>, InlineArray<ClaimsMost, [u64; 2]>, InlineArray<ClaimsHalf, [u64; 2]>, InlineArray<ClaimsNothing, [u64; 2]>,
    InlineArray<u64, [u8; 8]>, InlineArray<u64, [u8; 100]>);
oneof!(nested: Chunk<Chunk<u8, 3>, 3>, Chunk<SparseChunk<u8, 4>, 3>, Chunk<RingBuffer<u8, 3>, 3>, Chunk<InlineArray<u16, [u64; 2]>, 3>,
    SparseChunk<Chunk<u8, 3>, 3>, SparseChunk<SparseChunk<u8, 4>, 5>, RingBuffer<Chunk<u8, 3>, 4>, RingBuffer<RingBuffer<u8, 3>, 4>,
    InlineArray<Chunk<u8, 3>, [u64; 12]>, Chunk<Tree, 2>, SparseChunk<Tree, 4>);
oneof!(picky: Chunk<Picky, 4>, Chunk<Picky, 20>, RingBuffer<Picky, 4>, RingBuffer<Picky, 20>, SparseChunk<Picky, 4>, SparseChunk<Picky, 70>,
    InlineArray<Picky, [u64; 5]>, InlineArray<Picky, [u64; 21]>);
oneof!(every: Chunk<Picky, 3>, RingBuffer<Picky, 3>, SparseChunk<Picky, 3>, InlineArray<Picky, [u64; 4]>, Chunk<u8, 2>, RingBuffer<u8, 2>,
    SparseChunk<u8, 2>, Chunk<Chunk<u8, 3>, 3>, InlineArray<u8, usize>);

fn main() {
    harness::engine::main(&[
        Suite::exhaustive("every-string", 100_000_000, 100_000_000, every),
        Suite::random("chunk", 1_200_000, 4_000_000, chunk),
        Suite::random("ring", 1_200_000, 4_000_000, ring),
        Suite::random("sparse", 1_200_000, 4_000_000, sparse),
        Suite::random("inline", 1_200_000, 4_000_000, inline),
        Suite::random("nested", 900_000, 3_000_000, nested),
        Suite::random("failing", 1_500_000, 5_000_000, picky),
    ])
}

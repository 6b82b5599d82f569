//! C13: byte containers act as bounded FIFO pipes for std::io.
use harness::engine::*;
use harness::pipe::*;
use sized_chunks::*;

macro_rules! caps {
    ($name:ident, $f:ident, $C:ident, [$($n:literal),*]) => {
        fn $name(s: &mut Src, c: &mut Ctx) -> Res {
            const CAPS: &[usize] = &[$($n),*];
            match *s.pick(CAPS) {
                $($n => $f::<$C<u8, $n>>(s, c),)*
                _ => unreachable!(),
            }
        }
    };
}
caps!(chunk, history, Chunk, [0, 1, 2, 3, 4, 5, 7, 8, 16, 33, 64, 256]);
caps!(ring, history, RingBuffer, [0, 1, 2, 3, 4, 5, 7, 8, 16, 33, 64, 256]);
caps!(chunk_every, every, Chunk, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 31, 32]);
caps!(ring_every, every, RingBuffer, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 31, 32]);

fn main() {
    harness::engine::main(&[
        Suite::exhaustive("every-chunk", 100_000_000, 100_000_000, chunk_every),
        Suite::exhaustive("every-ring", 100_000_000, 100_000_000, ring_every),
        Suite::random("chunk", 2_100_000, 30_000_000, chunk),
        Suite::random("ring", 2_100_000, 30_000_000, ring),
    ])
}

//! C18: safe calls cause no invalid memory access.
//! The verdict is the interpreter's (Miri) or the sanitizer's; what other
//! properties decide is not judged again here.
use harness::elem::*;
use harness::engine::*;
use harness::fault::catch;
use harness::raw::*;
use sized_chunks::InlineArray;

const CALM: Raw = Raw { ops: 8, wild: 1, fuse: 0, lies: 0, text: false, halves: true };
const ROUGH: Raw = Raw { fuse: 5, lies: 3, ..CALM };

fn soft(c: &mut Ctx, f: impl FnOnce(&mut Ctx) -> Res) -> Res {
    match catch(|| f(&mut *c)) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(Fail::Skip)) => Err(Fail::Skip),
        _ => {
            harness::fault::disarm();
            harness::fault::forget_errors();
            c.label("case ended early");
            Ok(())
        }
    }
}
macro_rules! suites {
    ($($name:ident $rough:ident $case:ident,)*) => { $(
        fn $name<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
            soft(c, |c| $case::<E>(s, c, CALM))
        }
        fn $rough<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
            soft(c, |c| $case::<E>(s, c, ROUGH))
        }
    )* };
}
suites! {
    a_chunk r_chunk chunk,
    a_ring r_ring ring,
    a_inline r_inline inline,
    a_sparse r_sparse sparse,
}
#[cfg(feature = "std")]
fn pipe_chunk(s: &mut Src, c: &mut Ctx) -> Res {
    soft(c, |c| harness::pipe::history::<sized_chunks::Chunk<u8, 5>>(s, c))
}
#[cfg(feature = "std")]
fn pipe_ring(s: &mut Src, c: &mut Ctx) -> Res {
    soft(c, |c| harness::pipe::history::<sized_chunks::RingBuffer<u8, 5>>(s, c))
}
fn pool(s: &mut Src, c: &mut Ctx) -> Res {
    soft(c, |c| harness::poolworld::history::<Bk>(s, c, 3, false))
}

/// Only replayed, see known_findings.txt: bytes of the host which are padding
/// do not survive a move of the array, although the array uses them.
fn padded_host(s: &mut Src, _: &mut Ctx) -> Res {
    #[allow(dead_code)]
    struct Host(u64, u8, u64);
    let n = s.int(3);
    let mut a = InlineArray::<u8, Host>::new();
    while !a.is_full() {
        a.push(7);
    }
    let b = Box::new(a);
    let sum: u32 = b.iter().map(|x| *x as u32).sum();
    ensure(sum as usize == 7 * b.len() || n > 3)
}
fn ensure(ok: bool) -> Res {
    if ok {
        Ok(())
    } else {
        Err(Fail::Bad("items changed by moving the array".into()))
    }
}

fn main() {
    harness::engine::main(&[
        Suite::random("chunk-rough", 400, 8000, r_chunk::<Bk>),
        Suite::random("ring-rough", 400, 8000, r_ring::<Bk>),
        Suite::random("inline-rough", 400, 8000, r_inline::<Bk>),
        Suite::random("sparse-rough", 300, 6000, r_sparse::<Bk>),
        Suite::random("chunk-box", 300, 6000, a_chunk::<Bx>),
        Suite::random("ring-box", 300, 6000, a_ring::<Bx>),
        Suite::random("inline-box", 300, 6000, a_inline::<Bx>),
        Suite::random("sparse-box", 200, 4000, a_sparse::<Bx>),
        Suite::random("chunk-pad", 100, 2000, a_chunk::<Pad>),
        Suite::random("ring-pad", 100, 2000, a_ring::<Pad>),
        Suite::random("inline-pad", 100, 2000, a_inline::<Pad>),
        Suite::random("sparse-pad", 60, 1200, a_sparse::<Pad>),
        Suite::random("chunk-align", 80, 1600, a_chunk::<Al64>),
        Suite::random("ring-align", 80, 1600, a_ring::<Al64>),
        Suite::random("inline-align", 80, 1600, a_inline::<Al64>),
        Suite::random("sparse-align", 60, 1200, a_sparse::<Al64>),
        Suite::random("chunk-zst", 80, 1600, r_chunk::<Zd>),
        Suite::random("ring-zst", 80, 1600, r_ring::<Zd>),
        Suite::random("inline-zst", 80, 1600, r_inline::<Zd>),
        Suite::random("sparse-zst", 60, 1200, r_sparse::<Zd>),
        #[cfg(feature = "std")]
        Suite::random("chunk-io", 30, 600, pipe_chunk),
        #[cfg(feature = "std")]
        Suite::random("ring-io", 30, 600, pipe_ring),
        Suite::random("pool", 40, 800, pool),
        Suite::random("known-padded-host", 0, 0, padded_host),
    ])
}

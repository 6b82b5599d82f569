//! Containers in a chosen storage arrangement, built with the public API.

use crate::elem::{Elem, M};
use crate::engine::Src;
use sized_chunks::Chunk;
#[cfg(feature = "rb")]
use sized_chunks::RingBuffer;

/// Capacities above this are not filled.
pub const HUGE: usize = 1 << 20;
/// Whether ring contents reach past the end of the storage.
pub fn wraps(len: usize, off: usize, cap: usize) -> bool {
    len > cap - off.min(cap)
}

/// Call `f::<E, N>(args)` for a run-time capacity.
#[macro_export]
macro_rules! with_cap {
    (@ $f:ident $n:literal [$($t:ty),*] ($($a:expr),*)) => { $f::<$($t,)* $n>($($a),*) };
    ($cap:expr, [$($n:literal),* $(,)?], $f:ident, $ts:tt, $args:tt) => {
        match $cap { $($n => $crate::with_cap!(@ $f $n $ts $args),)* n => panic!("capacity {} not instantiated", n) }
    };
}

/// Models of `n` fresh items, identities from `uid` upwards, keys from `key`.
pub fn items<E: Elem>(n: usize, uid: &mut u32, mut key: impl FnMut(usize) -> u32) -> Vec<M> {
    (0..n)
        .map(|i| {
            *uid += 1;
            E::norm(M { key: key(i), uid: *uid })
        })
        .collect()
}
pub fn make_all<E: Elem>(ms: &[M]) -> Vec<E> {
    ms.iter().map(|m| E::make(*m)).collect()
}

/// A ring buffer whose contents start at slot `off` of the storage.
#[cfg(feature = "rb")]
pub fn ring_at<E: Elem, const N: usize>(ms: &[M], off: usize, via: usize) -> RingBuffer<E, N> {
    let mut c = RingBuffer::<E, N>::new();
    let filler = || E::make(E::norm(M { key: 0, uid: 0 }));
    let via = if N > HUGE { (off > N / 2) as usize } else { via };
    match via {
        0 => {
            for _ in 0..off {
                c.push_back(filler());
                drop(c.pop_front());
            }
            for m in ms {
                c.push_back(E::make(*m));
            }
        }
        1 => {
            for _ in 0..(N - off) % N.max(1) {
                c.push_front(filler());
                drop(c.pop_back());
            }
            for m in ms {
                c.push_back(E::make(*m));
            }
        }
        _ => {
            // the last item first, pushed at the front
            let end = if N == 0 { 0 } else { (off + ms.len()) % N };
            for _ in 0..end {
                c.push_back(filler());
                drop(c.pop_front());
            }
            for m in ms.iter().rev() {
                c.push_front(E::make(*m));
            }
        }
    }
    c
}

/// A chunk whose contents start at slot `off` of the storage (`off + len <= N`).
pub fn chunk_at<E: Elem, const N: usize>(ms: &[M], off: usize, via: usize) -> Chunk<E, N> {
    let mut c = Chunk::<E, N>::new();
    let filler = || E::make(E::norm(M { key: 0, uid: 0 }));
    match via {
        0 => {
            for _ in 0..off {
                c.push_back(filler());
            }
            for m in ms {
                c.push_back(E::make(*m));
            }
            for _ in 0..off {
                drop(c.pop_front());
            }
        }
        _ => {
            for _ in 0..N - ms.len() - off {
                c.push_front(filler());
            }
            for m in ms.iter().rev() {
                c.push_front(E::make(*m));
            }
            c.drop_right(ms.len());
        }
    }
    c
}

/// Draw an arrangement: (length, first slot, way of building it).
pub fn draw_ring<const N: usize>(src: &mut Src) -> (usize, usize, usize) {
    if N > HUGE {
        // as many items as can be made, near either end of the storage
        let (len, via) = (src.upto(24), src.int(2));
        let k = src.int(24);
        return (len, if via == 0 { k } else { N - 1 - k }, via);
    }
    let len = src.upto(N);
    let off = if N == 0 { 0 } else { src.upto(N - 1) };
    let via = if src.exhaustive() { 0 } else { src.int(3) };
    (len, off, via)
}
pub fn draw_chunk<const N: usize>(src: &mut Src) -> (usize, usize, usize) {
    if N > HUGE {
        let (len, via) = (src.upto(24), src.int(2));
        let k = src.int(24);
        return (len, if via == 0 { k } else { N - len - k }, via);
    }
    let len = src.upto(N);
    let off = src.upto(N - len);
    let via = if src.exhaustive() { 0 } else { src.int(2) };
    (len, off, via)
}

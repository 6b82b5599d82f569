//! How often operations call user code: no more than their documented cost
//! allows (C23).

use crate::engine::{Ctx, Res, Src};
use crate::{ensure, fault, tr};
#[cfg(feature = "rb")]
use array_ops::{Array, ArrayMut, HasLength};
use bitmaps::{Bits, BitsImpl};
#[cfg(feature = "rb")]
use sized_chunks::RingBuffer;
use sized_chunks::{Chunk, InlineArray, SparseChunk};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::iter::FromIterator;

#[derive(Clone, Copy, Default, PartialEq, Eq, Debug)]
pub struct Work {
    compare: usize,
    clone: usize,
    hash: usize,
    print: usize,
    drop: usize,
    next: usize,
}
thread_local! {
    static WORK: Cell<Work> = const { Cell::new(Work { compare: 0, clone: 0, hash: 0, print: 0, drop: 0, next: 0 }) };
}
fn count(f: impl FnOnce(&mut Work)) {
    WORK.with(|w| {
        let mut v = w.get();
        f(&mut v);
        w.set(v)
    })
}

/// An item which counts what is done with it.
pub struct Metered(u32);
impl Drop for Metered {
    fn drop(&mut self) {
        count(|w| w.drop += 1)
    }
}
impl Clone for Metered {
    fn clone(&self) -> Self {
        count(|w| w.clone += 1);
        Metered(self.0)
    }
}
impl PartialEq for Metered {
    fn eq(&self, o: &Self) -> bool {
        count(|w| w.compare += 1);
        self.0 == o.0
    }
}
impl Eq for Metered {}
impl PartialOrd for Metered {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Metered {
    fn cmp(&self, o: &Self) -> Ordering {
        count(|w| w.compare += 1);
        self.0.cmp(&o.0)
    }
}
impl Hash for Metered {
    fn hash<H: Hasher>(&self, h: &mut H) {
        count(|w| w.hash += 1);
        h.write_u32(self.0)
    }
}
impl fmt::Debug for Metered {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        count(|w| w.print += 1);
        f.write_str("m")
    }
}
/// Counts how far it is read. `left` is what it holds, honestly told.
struct Source {
    left: usize,
    key: u32,
    endless: bool,
}
impl Iterator for Source {
    type Item = Metered;
    fn next(&mut self) -> Option<Metered> {
        count(|w| w.next += 1);
        if self.left == 0 && !self.endless {
            return None;
        }
        self.left = self.left.saturating_sub(1);
        self.key += 1;
        Some(Metered(self.key))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.endless {
            (usize::MAX, None)
        } else {
            (self.left, Some(self.left))
        }
    }
}
impl ExactSizeIterator for Source {}
fn source(n: usize) -> Source {
    Source { left: n, key: 1000, endless: false }
}
fn endless() -> Source {
    Source { left: 0, key: 1000, endless: true }
}
struct Optional(Source);
impl Iterator for Optional {
    type Item = Option<Metered>;
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next().map(|x| if x.0 % 3 == 0 { None } else { Some(x) })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}

/// Run it and compare the counts with the bounds.
fn meter<R>(what: &str, most: Work, f: impl FnOnce() -> R) -> Res<R> {
    WORK.with(|w| w.set(Work::default()));
    let r = f();
    let got = WORK.with(|w| w.get());
    let within = got.compare <= most.compare && got.clone <= most.clone && got.hash <= most.hash && got.print <= most.print && got.drop <= most.drop && got.next <= most.next;
    ensure!(within, "{}: did {:?}, expected at most {:?}", what, got, most);
    Ok(r)
}
/// As above for something which panics.
fn meter_panic<R>(what: &str, most: Work, f: impl FnOnce() -> R) -> Res {
    meter(what, most, || fault::catch(f).is_err())?;
    Ok(())
}
const NONE: Work = Work { compare: 0, clone: 0, hash: 0, print: 0, drop: 0, next: 0 };
fn dropping(n: usize) -> Work {
    Work { drop: n, ..NONE }
}
fn comparing(n: usize) -> Work {
    Work { compare: n, ..NONE }
}
fn reading(n: usize) -> Work {
    Work { next: n, ..NONE }
}
/// Enough for a binary search among `n` items, twice over.
fn search(n: usize) -> Work {
    comparing(2 * (usize::BITS - n.leading_zeros()) as usize + 4)
}
/// Hashes without looking.
struct Blind;
impl Hasher for Blind {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, _: &[u8]) {}
}

macro_rules! seq_case {
    ($name:ident, $C:ident, $pop:expr, $find:expr, $write:expr, $views:expr) => {
        #[inline(never)]
        fn $name<const N: usize>(src: &mut Src, ctx: &mut Ctx) -> Res {
            type C<const N: usize> = $C<Metered, N>;
            let ty = format!("{}<_, {}>", stringify!($C), N);
            tr!(ctx, "{}", ty);
            // sorted, with repetitions
            let step = src.int(3) as u32;
            let sorted = |n: usize, off: usize| {
                let mut c = C::<N>::new();
                for _ in 0..off {
                    c.push_back(Metered(0));
                }
                for i in 0..n as u32 {
                    c.push_back(Metered((i * step / 2 + 1) * 2));
                }
                for _ in 0..off {
                    let _ = $pop(&mut c);
                }
                c
            };
            let len = src.upto(N);
            let off = src.upto(N - len);
            let mut a = sorted(len, off);
            // the other one: often like this one but for one item
            let twin = src.flag(1, 3);
            let blen = if twin { len } else { src.upto(N) };
            let boff = src.upto(N - blen);
            let mut b = sorted(blen, boff);
            if twin && len > 0 {
                let k = len - 1 - src.upto(len - 1);
                b[k].0 += src.int(2) as u32;
                ctx.label_if(k >= len / 2, "differing late");
            }
            let room = N - len;
            let probe = Metered(src.int(2 * N + 3) as u32);
            let what;
            ctx.label_if(len >= 16, "16 items or more");
            ctx.nontrivial = len >= 2;
            match src.int(21) {
                0 if room > 0 => {
                    what = "insert_ordered";
                    meter(&ty, search(len), || a.insert_ordered(probe))?;
                    ctx.label("search");
                }
                1 => {
                    what = "searching";
                    meter(&ty, search(len), || $find(&a, &probe, 0, len))?;
                    ctx.label("search");
                }
                2 => {
                    what = "searching part of it";
                    let i = src.upto(len);
                    let j = i + src.upto(len - i);
                    meter(&ty, search(j - i), || $find(&a, &probe, i, j))?;
                    ctx.label("search");
                }
                3 => {
                    what = "clone";
                    let c = meter(&ty, Work { clone: len, ..NONE }, || a.clone())?;
                    ensure!(c.len() == len, "{}: clone of {} has {}", ty, len, c.len());
                }
                4 => {
                    what = "clone_from";
                    meter(&ty, Work { clone: blen, drop: len, ..NONE }, || a.clone_from(&b))?;
                }
                5 => {
                    what = "==";
                    meter(&ty, comparing(len.min(blen) + 1), || a == b)?;
                    meter(&ty, comparing(len.min(blen) + 1), || a != b)?;
                }
                6 => {
                    what = "cmp";
                    meter(&ty, comparing(len.min(blen)), || a.cmp(&b))?;
                    meter(&ty, comparing(len.min(blen)), || a.partial_cmp(&b))?;
                }
                7 => {
                    what = "hash";
                    meter(&ty, Work { hash: len, ..NONE }, || a.hash(&mut Blind))?;
                }
                8 => {
                    what = "debug";
                    let s = meter(&ty, Work { print: len, ..NONE }, || format!("{:?}", a))?;
                    ensure!(s.len() >= len, "{}: printed {:?}", ty, s);
                }
                9 => {
                    what = "extend";
                    let n = src.upto(room);
                    meter(&ty, reading(n + 1), || a.extend(source(n)))?;
                }
                10 => {
                    what = "insert_from";
                    let n = src.upto(room);
                    let i = src.upto(len);
                    meter(&ty, reading(n + 1), || a.insert_from(i, source(n)))?;
                }
                11 => {
                    what = "collecting";
                    let n = src.upto(N);
                    meter(&ty, reading(n + 1), || std::mem::forget(C::<N>::from_iter(source(n))))?;
                }
                12 => {
                    what = "collect_from";
                    let n = src.upto(N);
                    let mut s = source(N + 2);
                    meter(&ty, reading(n), || std::mem::forget(C::<N>::collect_from(&mut s, n)))?;
                }
                13 => {
                    what = "collecting or extending from what has no end";
                    let new = src.flag(1, 2);
                    ctx.label("endless iterator");
                    if new {
                        meter_panic(&ty, Work { next: N + 1, drop: N + 1, ..NONE }, || C::<N>::from_iter(endless()))?;
                    } else {
                        meter_panic(&ty, Work { next: room + 1, drop: room + 1, ..NONE }, || a.extend(endless()))?;
                    }
                }
                14 => {
                    what = "moving single items";
                    let i = src.upto(len);
                    let k = src.int(4);
                    meter(&ty, dropping(2), || {
                        if room > 0 {
                            match k {
                                0 => a.push_back(probe),
                                1 => a.push_front(probe),
                                _ => a.insert(i, probe),
                            }
                        } else if len > 0 {
                            match k {
                                0 => drop(a.pop_back()),
                                1 => drop(a.pop_front()),
                                _ => drop(a.remove(i.min(len - 1))),
                            }
                        }
                    })?;
                }
                15 => {
                    what = "moving items to another";
                    let n = src.upto(len.min(N - blen));
                    let k = src.int(3);
                    meter(&ty, NONE, || match k {
                        0 => b.drain_from_front(&mut a, n),
                        1 => b.drain_from_back(&mut a, n),
                        _ if len <= N - blen => b.append(&mut a),
                        _ => {}
                    })?;
                }
                16 => {
                    what = "splitting";
                    let i = src.upto(len);
                    let k = src.int(4);
                    let c = meter(&ty, NONE, || match k {
                        0 => a.split_off(i),
                        1 => C::<N>::from_front(&mut a, i),
                        2 => C::<N>::from_back(&mut a, i),
                        _ => C::<N>::drain_from(&mut a),
                    })?;
                    ensure!(c.len() + a.len() == len, "{}: {} and {} of {}", ty, c.len(), a.len(), len);
                }
                17 => {
                    what = "discarding";
                    let i = src.upto(len);
                    match src.int(3) {
                        0 => meter(&ty, dropping(i), || a.drop_left(i))?,
                        1 => meter(&ty, dropping(len - i), || a.drop_right(i))?,
                        _ => meter(&ty, dropping(len), || a.clear())?,
                    }
                }
                18 => {
                    what = "reading";
                    meter(&ty, NONE, || {
                        let n = a.iter().count() + a.iter().rev().count() + a.len() + a.is_full() as usize + a.is_empty() as usize;
                        n + a.first().map_or(0, |x| x.0 as usize) + a.last().map_or(0, |x| x.0 as usize) + a.get(0).map_or(0, |x| x.0 as usize)
                    })?;
                }
                19 => {
                    what = "taking items out";
                    let n = src.upto(len);
                    if src.flag(1, 2) {
                        meter(&ty, dropping(len), || a.drain().take(n).map(|x| x.0).sum::<u32>())?;
                        ensure!(len - a.len() >= n, "{}: drained {} of {}, {} are left", ty, n, len, a.len());
                    } else {
                        meter(&ty, dropping(len), || a.into_iter().take(n).map(|x| x.0).sum::<u32>())?;
                    }
                }
                _ => {
                    what = "views and writing";
                    let i = src.upto(len);
                    let v: Res = $views(&ty, &mut a, i, &b, blen);
                    v?;
                    if len > 0 {
                        meter(&ty, dropping(1), || $write(&mut a, i.min(len - 1), probe))?;
                    }
                }
            }
            tr!(ctx, "{} on {} items at {} ({} in the other)", what, len, off, blen);
            Ok(())
        }
    };
}
seq_case!(
    chunk_case,
    Chunk,
    |c: &mut C<N>| Some(c.pop_front()),
    |c: &C<N>, p: &Metered, i: usize, j: usize| c[i..j].binary_search(p).is_ok(),
    |c: &mut C<N>, i: usize, v: Metered| drop(c.set(i, v)),
    |ty: &str, a: &mut C<N>, i: usize, b: &C<N>, blen: usize| -> Res {
        let n = a.len();
        meter(ty, comparing(n.min(blen) + 1), || *a == b.as_slice())?;
        meter(ty, NONE, || a.as_mut_slice().reverse())?;
        meter(ty, NONE, || a.as_mut_slice().reverse())?;
        meter(ty, NONE, || i < n && a[i].0 == a.as_slice()[i].0)?;
        Ok(())
    }
);
#[cfg(feature = "rb")]
seq_case!(
    ring_case,
    RingBuffer,
    |c: &mut C<N>| c.pop_front(),
    |c: &C<N>, p: &Metered, i: usize, j: usize| {
        let s = c.slice(i..j);
        let r = s.binary_search(p).is_ok();
        r
    },
    |c: &mut C<N>, i: usize, v: Metered| drop(ArrayMut::set(c, i, v)),
    |ty: &str, a: &mut C<N>, i: usize, b: &C<N>, blen: usize| -> Res {
        let n = a.len();
        meter(ty, comparing((n - i).min(blen) + 1), || a.slice(i..) == b.slice(..))?;
        meter(ty, comparing((n - i).min(blen) + 1), || *b == a.slice(i..))?;
        meter(ty, comparing((n - i).min(blen)), || a.slice(i..).cmp(&b.slice(..)))?;
        meter(ty, Work { hash: n - i, ..NONE }, || a.slice(i..).hash(&mut Blind))?;
        let c = meter(ty, Work { clone: n - i, ..NONE }, || a.slice(i..).to_owned())?;
        ensure!(c.len() == n - i, "{}: to_owned of {} has {}", ty, n - i, c.len());
        meter(ty, NONE, || {
            let (l, r) = a.slice_mut(..).split_at(i);
            l.len() + r.unmut().iter().count()
        })?;
        meter(ty, NONE, || a.iter_mut().map(|x| x.0).sum::<u32>())?;
        Ok(())
    }
);

#[inline(never)]
fn inline_case<T: 'static>(src: &mut Src, ctx: &mut Ctx) -> Res {
    type C<T> = InlineArray<Metered, T>;
    let cap = C::<T>::CAPACITY;
    let ty = format!("InlineArray<_, {}>", std::any::type_name::<T>());
    tr!(ctx, "{}", ty);
    let step = src.int(3) as u32;
    let sorted = |n: usize| (0..n as u32).map(|i| Metered((i * step / 2 + 1) * 2)).collect::<C<T>>();
    let len = src.upto(cap);
    let mut a = sorted(len);
    let twin = src.flag(1, 3);
    let blen = if twin { len } else { src.upto(cap) };
    let mut b = sorted(blen);
    if twin && len > 0 {
        let k = len - 1 - src.upto(len - 1);
        b[k].0 += src.int(2) as u32;
        ctx.label_if(k >= len / 2, "differing late");
    }
    let room = cap - len;
    let probe = Metered(src.int(2 * cap + 3) as u32);
    ctx.label_if(len >= 16, "16 items or more");
    ctx.nontrivial = len >= 2;
    let i = src.upto(len);
    let op = src.int(14);
    tr!(ctx, "operation {} on {} items ({} in the other), at {}", op, len, blen, i);
    match op {
        0 if room > 0 => meter(&ty, NONE, || a.insert(i, probe))?,
        1 if room > 0 => meter(&ty, NONE, || a.push(probe))?,
        2 => drop(meter(&ty, dropping(0), || a.pop())?),
        3 if len > 0 => drop(meter(&ty, dropping(0), || a.remove(i.min(len - 1)))?),
        4 => drop(meter(&ty, NONE, || a.split_off(i))?),
        5 => meter(&ty, dropping(len), || a.clear())?,
        6 => drop(meter(&ty, Work { clone: len, ..NONE }, || a.clone())?),
        7 => {
            meter(&ty, comparing(len.min(blen) + 1), || a == b)?;
            meter(&ty, comparing(len.min(blen)), || a.cmp(&b))?;
            meter(&ty, comparing(len.min(blen)), || a.partial_cmp(&b))?;
        }
        8 => meter(&ty, Work { hash: len, ..NONE }, || a.hash(&mut Blind))?,
        9 => drop(meter(&ty, Work { print: len, ..NONE }, || format!("{:?}", a))?),
        10 => {
            let n = src.upto(room);
            meter(&ty, reading(n + 1), || a.extend(source(n)))?
        }
        11 => {
            let n = src.upto(cap);
            meter(&ty, reading(n + 1), || std::mem::forget(source(n).collect::<C<T>>()))?
        }
        12 => {
            ctx.label("endless iterator");
            meter_panic(&ty, Work { next: room + 1, drop: room + 1, ..NONE }, || a.extend(endless()))?;
            meter_panic(&ty, Work { next: cap + 1, drop: cap + 1, ..NONE }, || endless().collect::<C<T>>())?;
        }
        _ => {
            meter(&ty, search(len), || a.binary_search(&probe).is_ok())?;
            ctx.label("search");
            let n = src.upto(len);
            meter(&ty, dropping(len), || a.drain().take(n).count())?;
            ensure!(len - a.len() >= n, "{}: drained {} of {}, {} are left", ty, n, len, a.len());
        }
    }
    Ok(())
}

#[inline(never)]
fn sparse_case<const N: usize>(src: &mut Src, ctx: &mut Ctx) -> Res
where
    BitsImpl<N>: Bits,
{
    type C<const N: usize> = SparseChunk<Metered, N>;
    let ty = format!("SparseChunk<_, {}>", N);
    tr!(ctx, "{}", ty);
    let fill = |src: &mut Src| {
        let mut c = C::<N>::new();
        let every = 1 + src.int(4);
        let from = src.int(N);
        let mut at = from;
        while at < N {
            c.insert(at, Metered(at as u32));
            at += every;
        }
        c
    };
    let mut a = fill(src);
    let b = if src.flag(1, 3) {
        let mut b: C<N> = a.clone();
        let k = src.upto(N - 1);
        if let Some(v) = b.get_mut(k) {
            v.0 += src.int(2) as u32;
            ctx.label("differing late");
        }
        b
    } else {
        fill(src)
    };
    let (len, blen) = (a.len(), b.len());
    ctx.label_if(len >= 16, "16 items or more");
    ctx.nontrivial = len >= 2;
    let i = src.upto(N - 1);
    let op = src.int(11);
    tr!(ctx, "operation {} on {} items ({} in the other), at {}", op, len, blen, i);
    match op {
        0 => drop(meter(&ty, NONE, || a.insert(i, Metered(1)))?),
        1 => drop(meter(&ty, NONE, || a.remove(i))?),
        2 => drop(meter(&ty, NONE, || a.pop())?),
        3 => drop(meter(&ty, Work { clone: len, ..NONE }, || a.clone())?),
        4 => {
            meter(&ty, comparing(len.min(blen) + 1), || a == b)?;
        }
        5 => {
            let map: BTreeMap<usize, Metered> = b.entries().map(|(i, v)| (i, Metered(v.0))).collect();
            meter(&ty, comparing(len.min(blen) + 1), || a == map)?;
            let map: std::collections::HashMap<usize, Metered> = map.into_iter().collect();
            meter(&ty, comparing(len.min(blen) + 1), || a == map)?;
        }
        6 => drop(meter(&ty, Work { print: len, ..NONE }, || format!("{:?}", a))?),
        7 => {
            let n = src.upto(N);
            meter(&ty, Work { next: n + 1, drop: n, ..NONE }, || std::mem::forget(Optional(source(n)).collect::<C<N>>()))?
        }
        8 => {
            ctx.label("endless iterator");
            meter_panic(&ty, Work { next: N + 3, drop: N + 3, ..NONE }, || Optional(endless()).collect::<C<N>>())?
        }
        9 => {
            meter(&ty, NONE, || {
                let n = a.iter().count() + a.indices().count() + a.entries().count() + a.option_iter().count() + a.len() + a.is_full() as usize;
                n + a.get(i).map_or(0, |x| x.0 as usize) + a.first_index().unwrap_or(0)
            })?;
            meter(&ty, NONE, || a.iter_mut().map(|x| x.0 as usize).sum::<usize>() + a.option_iter_mut().flatten().count())?;
        }
        _ => {
            let n = src.upto(N);
            let k = src.int(3);
            meter(&ty, dropping(len), || match k {
                0 => a.into_iter().take(n).count(),
                1 => a.drain().take(n).count(),
                _ => a.option_drain().take(n).flatten().count(),
            })?;
        }
    }
    Ok(())
}

type CaseFn = fn(&mut Src, &mut Ctx) -> Res;
pub fn chunk(src: &mut Src, ctx: &mut Ctx) -> Res {
    const T: &[CaseFn] = &[chunk_case::<1>, chunk_case::<2>, chunk_case::<3>, chunk_case::<5>, chunk_case::<16>, chunk_case::<64>, chunk_case::<200>];
    src.pick(T)(src, ctx)
}
#[cfg(feature = "rb")]
pub fn ring(src: &mut Src, ctx: &mut Ctx) -> Res {
    const T: &[CaseFn] = &[ring_case::<1>, ring_case::<2>, ring_case::<3>, ring_case::<5>, ring_case::<16>, ring_case::<64>, ring_case::<200>];
    src.pick(T)(src, ctx)
}
pub fn sparse(src: &mut Src, ctx: &mut Ctx) -> Res {
    const T: &[CaseFn] = &[sparse_case::<1>, sparse_case::<2>, sparse_case::<3>, sparse_case::<7>, sparse_case::<20>, sparse_case::<64>, sparse_case::<130>, sparse_case::<300>];
    src.pick(T)(src, ctx)
}
pub fn inline(src: &mut Src, ctx: &mut Ctx) -> Res {
    const T: &[CaseFn] = &[inline_case::<[u64; 2]>, inline_case::<[u64; 4]>, inline_case::<[u32; 9]>, inline_case::<[u64; 33]>, inline_case::<[u8; 300]>];
    src.pick(T)(src, ctx)
}

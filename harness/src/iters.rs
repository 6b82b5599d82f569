//! Every iterator of every container, driven step by step from both ends.

use crate::elem::{Elem, Tk, Zd, KV, M};
use crate::engine::{Ctx, Res, Src};
use crate::fault;
use crate::mk::*;
#[cfg(feature = "rb")]
use array_ops::HasLength;
use crate::{bad, ensure, ensure_eq, tr, with_cap};
use bitmaps::{Bits, BitsImpl};
use sized_chunks::{Chunk, InlineArray, SparseChunk};
use std::collections::VecDeque;
use std::fmt::Debug;

/// What an iterator still has to yield, and what it has yielded so far.
pub struct Track<T> {
    pub rest: VecDeque<(usize, T)>,
    /// Positions of the yielded items, in the order they were yielded.
    pub out: Vec<usize>,
    pub log: Vec<&'static str>,
    pub back: bool,
    pub front: bool,
    pub over: bool,
}
impl<T: PartialEq + Debug + Clone> Track<T> {
    pub fn new(v: impl IntoIterator<Item = T>) -> Self {
        Track { rest: v.into_iter().enumerate().collect(), out: vec![], log: vec![], back: false, front: false, over: false }
    }
    fn yielded(&mut self, got: Option<T>, want: Option<(usize, T)>, what: &str) -> Res {
        if got != want.as_ref().map(|w| w.1.clone()) {
            bad!("{}: after {:?} the iterator gave {:?}, expected {:?} of remaining {:?}", what, self.log, got, want, self.rest)
        }
        self.over |= want.is_none();
        if let Some((i, _)) = want {
            self.out.push(i);
        }
        Ok(())
    }
}

/// What `size_hint` promises.
#[derive(Clone, Copy, PartialEq)]
pub enum Hint {
    Exact,
    Bracket,
}
fn hint(h: (usize, Option<usize>), n: usize, kind: Hint, what: &str) -> Res {
    ensure!(h.0 <= n && h.1.map_or(true, |u| u >= n), "{}: size_hint {:?} with {} items left", what, h, n);
    if kind == Hint::Exact {
        ensure!(h == (n, Some(n)), "{}: size_hint {:?} with exactly {} items left", what, h, n);
    }
    Ok(())
}
/// How far to go at once: mostly within the `n` items left, also far past them.
fn skip(src: &mut Src, n: usize) -> usize {
    if src.exhaustive() {
        return src.upto(n);
    }
    let how = src.weighted(&[8, 8, 1]);
    if how == 0 {
        src.int(n.min(3) + 1)
    } else if how == 2 {
        *src.pick(&[n + 1, n + 2, 2 * n + 3, n + 1000, usize::MAX / 2 + 1, usize::MAX - n, usize::MAX])
    } else {
        src.upto(n)
    }
}
/// The end of the iterator's life.
#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Drop,
    Forget,
    Count,
    Last,
    Fold,
    Collect,
    RevCollect,
    RevFold,
}

/// Drive a double-ended, exact-size, fused iterator.
#[inline(never)]
pub fn both<I, T>(mut it: I, t: &mut Track<T>, forget: bool, view: &mut dyn FnMut(I::Item) -> T, src: &mut Src, ctx: &mut Ctx, what: &str) -> Res
where
    I: DoubleEndedIterator + ExactSizeIterator,
    T: PartialEq + Debug + Clone,
{
    let start = t.rest.len();
    let max = start + 2;
    let mut steps = 0;
    loop {
        let n = t.rest.len();
        hint(it.size_hint(), n, Hint::Exact, what)?;
        ensure_eq!(it.len(), n, "{}: len() of the iterator", what);
        if steps == max {
            break;
        }
        let c = if src.exhaustive() { src.int(3) } else { src.weighted(&[2, 10, 10, 2, 2, 2, 2, 1, 1, 1]) };
        steps += 1;
        match c {
            0 => break,
            1 => {
                t.log.push("next");
                t.front |= n > 0;
                let w = t.rest.pop_front();
                let g = it.next().map(&mut *view);
                t.yielded(g, w, what)?;
            }
            2 => {
                t.log.push("next_back");
                t.back |= n > 0;
                let w = t.rest.pop_back();
                let g = it.next_back().map(&mut *view);
                t.yielded(g, w, what)?;
            }
            3 => {
                t.log.push("nth");
                let k = skip(src, n);
                for _ in 0..k.min(n) {
                    t.rest.pop_front();
                }
                t.front |= n > k;
                let w = t.rest.pop_front();
                let g = it.nth(k).map(&mut *view);
                t.yielded(g, w, what)?;
            }
            4 => {
                t.log.push("nth_back");
                let k = skip(src, n);
                for _ in 0..k.min(n) {
                    t.rest.pop_back();
                }
                t.back |= n > k;
                let w = t.rest.pop_back();
                let g = it.nth_back(k).map(&mut *view);
                t.yielded(g, w, what)?;
            }
            5 => {
                t.log.push("by_ref().take(k)");
                let k = skip(src, n);
                let got: Vec<T> = it.by_ref().take(k).map(&mut *view).collect();
                ensure!(got.len() == k.min(n), "{}: take({}) gave {} of {} items", what, k, got.len(), n);
                for g in got {
                    let w = t.rest.pop_front();
                    t.yielded(Some(g), w, what)?;
                }
                t.front |= k > 0 && n > 0;
            }
            7 => {
                t.log.push("find the k-th");
                let k = skip(src, n);
                for _ in 0..k.min(n) {
                    t.rest.pop_front();
                }
                t.front |= n > k;
                let w = t.rest.pop_front();
                let mut seen = 0;
                let g = it
                    .find(|_| {
                        seen += 1;
                        seen > k
                    })
                    .map(&mut *view);
                ensure!(seen == n.min(k.saturating_add(1)), "{}: looking for item {} of {} showed {} items", what, k, n, seen);
                t.yielded(g, w, what)?;
            }
            8 => {
                t.log.push("rfind the k-th");
                let k = skip(src, n);
                for _ in 0..k.min(n) {
                    t.rest.pop_back();
                }
                t.back |= n > k;
                let w = t.rest.pop_back();
                let mut seen = 0;
                let g = it
                    .rfind(|_| {
                        seen += 1;
                        seen > k
                    })
                    .map(&mut *view);
                ensure!(seen == n.min(k.saturating_add(1)), "{}: looking for item {} of {} from the back showed {} items", what, k, n, seen);
                t.yielded(g, w, what)?;
            }
            9 => {
                t.log.push("position of the k-th");
                let k = skip(src, n);
                for _ in 0..k.saturating_add(1).min(n) {
                    t.rest.pop_front();
                }
                t.front |= n > k;
                let mut seen = 0;
                let g = it.position(|_| {
                    seen += 1;
                    seen > k
                });
                ensure!(g == if k < n { Some(k) } else { None }, "{}: the position of item {} of {} is {:?}", what, k, n, g);
                t.over |= k >= n;
            }
            _ => {
                t.log.push("by_ref().rev().take(k)");
                let k = skip(src, n);
                let got: Vec<T> = it.by_ref().rev().take(k).map(&mut *view).collect();
                ensure!(got.len() == k.min(n), "{}: rev().take({}) gave {} of {} items", what, k, got.len(), n);
                for g in got {
                    let w = t.rest.pop_back();
                    t.yielded(Some(g), w, what)?;
                }
                t.back |= k > 0 && n > 0;
            }
        }
    }
    ctx.label_if(t.back && t.front, "stepped from both ends");
    ctx.label_if(t.over, "stepped past the end");
    ctx.label_if(!t.rest.is_empty() && !t.out.is_empty(), "left part-way");
    ctx.nontrivial |= start >= 2 && (t.back || t.front);
    let ends = [End::Drop, End::Collect, End::RevCollect, End::Count, End::Last, End::Fold, End::Forget, End::RevFold];
    let end = if src.exhaustive() { End::Drop } else { ends[src.weighted(&[10, 2, 2, 1, 1, 2, 2, 2])] };
    if end == End::Forget && !forget {
        return finish(it, End::Drop, t, view, what);
    }
    if end == End::RevCollect || end == End::RevFold {
        let mut got: Vec<T> = Vec::new();
        if end == End::RevFold {
            t.log.push("rev().for_each()");
            it.rev().for_each(|x| got.push(view(x)));
        } else {
            t.log.push("rev().collect()");
            got = it.rev().map(&mut *view).collect();
        }
        for g in got {
            let w = t.rest.pop_back();
            t.yielded(Some(g), w, what)?;
        }
        ensure!(t.rest.is_empty(), "{}: collecting backwards after {:?} missed {:?}", what, t.log, t.rest);
        return Ok(());
    }
    finish(it, end, t, view, what)
}
#[inline(never)]
fn finish<I, T>(it: I, end: End, t: &mut Track<T>, view: &mut dyn FnMut(I::Item) -> T, what: &str) -> Res
where
    I: Iterator,
    T: PartialEq + Debug + Clone,
{
    match end {
        End::Drop => drop(it),
        End::Forget => {
            t.log.push("forget");
            std::mem::forget(it)
        }
        End::Count => {
            t.log.push("count()");
            ensure_eq!(it.count(), t.rest.len(), "{}: count() after {:?}", what, t.log);
            t.rest.clear();
        }
        End::Last => {
            t.log.push("last()");
            let w = t.rest.pop_back();
            t.rest.clear();
            let g = it.last().map(&mut *view);
            t.yielded(g, w, what)?;
        }
        _ => {
            t.log.push("fold");
            let mut got: Vec<T> = Vec::new();
            if end == End::Fold {
                it.for_each(|x| got.push(view(x)));
            } else {
                got = it.map(&mut *view).collect();
            }
            for g in got {
                let w = t.rest.pop_front();
                t.yielded(Some(g), w, what)?;
            }
            ensure!(t.rest.is_empty(), "{}: collecting after {:?} missed {:?}", what, t.log, t.rest);
        }
    }
    Ok(())
}
/// Drive a forward iterator. `stop` is where it is dropped.
#[inline(never)]
pub fn forward<I, T>(mut it: I, t: &mut Track<T>, kind: Hint, view: &mut dyn FnMut(I::Item) -> T, src: &mut Src, ctx: &mut Ctx, what: &str) -> Res
where
    I: Iterator,
    T: PartialEq + Debug + Clone,
{
    let start = t.rest.len();
    let stop = if src.exhaustive() { src.int(start + 2) } else { src.upto(start + 1) };
    while t.log.len() < stop {
        let n = t.rest.len();
        hint(it.size_hint(), n, kind, what)?;
        if !src.exhaustive() && src.flag(1, 8) {
            let find = src.flag(1, 3);
            t.log.push(if find { "find the k-th" } else { "nth" });
            let k = skip(src, n);
            for _ in 0..k.min(n) {
                t.rest.pop_front();
            }
            let w = t.rest.pop_front();
            let mut seen = 0;
            let g = if find {
                it.find(|_| {
                    seen += 1;
                    seen > k
                })
            } else {
                it.nth(k)
            };
            t.yielded(g.map(&mut *view), w, what)?;
        } else {
            t.log.push("next");
            let w = t.rest.pop_front();
            let g = it.next().map(&mut *view);
            t.yielded(g, w, what)?;
        }
        t.front |= n > 0;
        if t.over {
            break;
        }
    }
    if t.over {
        // every item has been yielded: there is nothing left to yield or to count
        for k in 0..src.int(3) {
            hint(it.size_hint(), 0, kind, what)?;
            ensure!(it.next().is_none(), "{}: an item came {} calls after the end", what, k + 1);
        }
        hint(it.size_hint(), 0, kind, what)?;
    }
    ctx.label_if(t.over, "stepped past the end");
    ctx.label_if(!t.rest.is_empty() && !t.out.is_empty(), "left part-way");
    ctx.nontrivial |= start >= 2 && t.front;
    if t.over {
        return Ok(());
    }
    hint(it.size_hint(), t.rest.len(), kind, what)?;
    let ends = [End::Drop, End::Collect, End::Count, End::Last, End::Fold];
    let end = if src.exhaustive() { End::Drop } else { ends[src.weighted(&[10, 3, 1, 1, 2])] };
    finish(it, end, t, view, what)
}

/// Views that hold on to what they are shown.
pub fn hold<'h, 'a: 'h, E: Elem>(held: &'h mut Vec<&'a mut E>) -> impl FnMut(&'a mut E) -> M + 'h {
    move |x| {
        let v = x.m();
        held.push(x);
        v
    }
}
pub fn hold_some<'h, 'a: 'h, E: Elem>(held: &'h mut Vec<&'a mut E>) -> impl FnMut(Option<&'a mut E>) -> Option<M> + 'h {
    move |x| {
        x.map(|x| {
            let v = x.m();
            held.push(x);
            v
        })
    }
}
/// Write through all references yielded by a mutable iterator while all are
/// held, reading the others in between; the model follows.
#[inline(never)]
pub fn write_all<E: Elem>(held: Vec<&mut E>, out: &[usize], m: &mut [M], src: &mut Src, what: &str) -> Res {
    ensure!(held.len() == out.len(), "{}: {} references for {} items", what, held.len(), out.len());
    if std::mem::size_of::<E>() > 0 {
        let mut at: Vec<usize> = held.iter().map(|x| &**x as *const E as usize).collect();
        at.sort_unstable();
        ensure!(at.windows(2).all(|w| w[1] - w[0] >= std::mem::size_of::<E>()), "{}: two yielded references overlap", what);
    }
    let mut held: Vec<(usize, &mut E)> = out.iter().copied().zip(held).collect();
    let writes = if src.exhaustive() { held.len() } else { src.upto(held.len()) };
    for w in 0..writes {
        let i = if src.exhaustive() { held.len() - 1 - w } else { src.int(held.len()) };
        let v = E::norm(M { key: 70 + w as u32, uid: 7000 + w as u32 });
        held[i].1.write(v);
        m[held[i].0] = v;
        for (p, r) in &held {
            ensure!(r.m() == m[*p], "{}: after writing item {} the reference to item {} shows {:?} instead of {:?}", what, held[i].0, p, r.m(), m[*p]);
        }
    }
    Ok(())
}

fn same(got: Vec<M>, want: &[M], len: usize, what: &str) -> Res {
    ensure!(got == want && len == want.len(), "{}: the container holds {:?} (len {}), expected {:?}", what, got, len, want);
    Ok(())
}
pub fn ended<E: Elem>() -> Res {
    if E::TRACKED {
        if E::ZST {
            ensure!(fault::zst_live() == 0, "{} zero-sized items alive at the end", fault::zst_live());
        } else {
            ensure!(fault::live_count() == 0, "{} items alive at the end", fault::live_count());
        }
    }
    if let Some(e) = fault::errors() {
        bad!("{}", e)
    }
    Ok(())
}
/// Distinct keys in the arranged order.
fn draw_items<E: Elem>(len: usize) -> Vec<M> {
    let mut uid = 0;
    items::<E>(len, &mut uid, |i| 1 + (i as u32) % 60)
}
fn kept<T: Clone>(t: &Track<T>) -> Vec<T> {
    t.rest.iter().map(|x| x.1.clone()).collect()
}

macro_rules! seq_kinds {
    ($src:ident, $ctx:ident, $c:ident, $m:ident, $kind:ident, $what:ident, [$($extra:tt)*]) => {
        let mut t = Track::new($m.iter().copied());
        match $kind {
            0 => both($c.iter(), &mut t, true, &mut |x| x.m(), $src, $ctx, &$what)?,
            1 => both((&$c).into_iter(), &mut t, true, &mut |x| x.m(), $src, $ctx, &$what)?,
            2 | 3 => {
                let mut held: Vec<&mut E> = Vec::new();
                if $kind == 2 {
                    both($c.iter_mut(), &mut t, true, &mut hold(&mut held), $src, $ctx, &$what)?
                } else {
                    both((&mut $c).into_iter(), &mut t, true, &mut hold(&mut held), $src, $ctx, &$what)?
                }
                // `last` and `nth` skip references; every held one was yielded
                write_all(held, &t.out, &mut $m, $src, &$what)?;
            }
            4 => {
                both($c.drain(), &mut t, true, &mut |x| x.m(), $src, $ctx, &$what)?;
                $m = kept(&t);
            }
            5 => {
                both($c.into_iter(), &mut t, false, &mut |x| x.m(), $src, $ctx, &$what)?;
                return ended::<E>();
            }
            $($extra)*
        }
    };
}

#[inline(never)]
fn chunk_case<E: Elem, const N: usize>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (len, off, via) = draw_chunk::<N>(src);
    let mut m = draw_items::<E>(len);
    let kind = src.int(6);
    src.shard_here()?;
    let what = format!("Chunk<{}, {}> of {} items from slot {}, {}", E::NAME, N, len, off, ["iter", "&into_iter", "iter_mut", "&mut into_iter", "drain", "into_iter"][kind]);
    tr!(ctx, "{}", what);
    let mut c: Chunk<E, N> = chunk_at(&m, off, via);
    seq_kinds!(src, ctx, c, m, kind, what, [_ => unreachable!()]);
    same(c.as_slice().iter().map(|x| x.m()).collect(), &m, c.len(), &what)?;
    if m.len() < N {
        let v = E::norm(M { key: 90, uid: 9000 });
        c.push_back(E::make(v));
        m.push(v);
        same(c.as_slice().iter().map(|x| x.m()).collect(), &m, c.len(), &what)?;
    }
    drop(c);
    ended::<E>()
}
#[cfg(feature = "rb")]
#[inline(never)]
fn ring_case<E: Elem, const N: usize>(src: &mut Src, ctx: &mut Ctx) -> Res {
    use sized_chunks::RingBuffer;
    let (len, off, via) = draw_ring::<N>(src);
    let mut m = draw_items::<E>(len);
    let kind = src.int(12);
    src.shard_here()?;
    let names = ["iter", "&into_iter", "iter_mut", "&mut into_iter", "drain", "into_iter", "slice.iter", "&slice into_iter", "slice_mut.iter", "slice_mut.iter_mut", "&mut slice_mut into_iter", "&slice_mut into_iter"];
    let what = format!("RingBuffer<{}, {}> of {} items from slot {}, {}", E::NAME, N, len, off, names[kind]);
    tr!(ctx, "{}", what);
    ctx.label_if(wraps(len, off, N), "wrapped buffer");
    let mut c: RingBuffer<E, N> = ring_at(&m, off, via);
    let (mut a, mut b) = (0, len);
    if kind >= 6 {
        a = src.upto(len);
        b = a + src.upto(len - a);
        tr!(ctx, "window {}..{}", a, b);
    }
    seq_kinds!(src, ctx, c, m, kind, what, [
        _ => {
            let mut t = Track::new(m[a..b].iter().copied());
            match kind {
                6 => {
                    let s = c.slice(a..b);
                    both(s.iter(), &mut t, true, &mut |x| x.m(), src, ctx, &what)?
                }
                7 => {
                    let s = c.slice(a..b);
                    both((&s).into_iter(), &mut t, true, &mut |x| x.m(), src, ctx, &what)?
                }
                8 => {
                    let s = c.slice_mut(a..b);
                    both(s.iter(), &mut t, true, &mut |x| x.m(), src, ctx, &what)?
                }
                11 => {
                    let s = c.slice_mut(a..b);
                    both((&s).into_iter(), &mut t, true, &mut |x| x.m(), src, ctx, &what)?
                }
                _ => {
                    let mut s = c.slice_mut(a..b);
                    let mut held: Vec<&mut E> = Vec::new();
                    if kind == 9 {
                        both(s.iter_mut(), &mut t, true, &mut hold(&mut held), src, ctx, &what)?
                    } else {
                        both((&mut s).into_iter(), &mut t, true, &mut hold(&mut held), src, ctx, &what)?
                    }
                    write_all(held, &t.out, &mut m[a..b], src, &what)?;
                }
            }
        }
    ]);
    same(c.iter().map(|x| x.m()).collect(), &m, c.len(), &what)?;
    if m.len() < N {
        let v = E::norm(M { key: 90, uid: 9000 });
        c.push_back(E::make(v));
        m.push(v);
        same(c.iter().map(|x| x.m()).collect(), &m, c.len(), &what)?;
    }
    drop(c);
    ended::<E>()
}
#[inline(never)]
fn inline_case<E: Elem, T>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cap = InlineArray::<E, T>::CAPACITY.min(9);
    let len = src.upto(cap);
    let mut m = draw_items::<E>(len);
    let kind = src.int(6);
    src.shard_here()?;
    let what = format!("InlineArray<{}, {}> of {} items, {}", E::NAME, std::any::type_name::<T>(), len, ["iter", "&into_iter", "iter_mut", "&mut into_iter", "drain", "into_iter"][kind]);
    tr!(ctx, "{}", what);
    let mut c = InlineArray::<E, T>::new();
    for x in &m {
        c.push(E::make(*x));
    }
    seq_kinds!(src, ctx, c, m, kind, what, [_ => unreachable!()]);
    same(c.iter().map(|x| x.m()).collect(), &m, c.len(), &what)?;
    drop(c);
    ended::<E>()
}
#[inline(never)]
fn sparse_case<E: Elem, const N: usize>(src: &mut Src, ctx: &mut Ctx) -> Res
where
    BitsImpl<N>: Bits,
{
    let mut m: Vec<Option<M>> = vec![None; N];
    let mut c = SparseChunk::<E, N>::new();
    // density: none, few, half, most, all
    let density = if src.exhaustive() { 4 } else { src.weighted(&[1, 5, 6, 4, 2]) };
    for i in 0..N {
        let put = match density {
            _ if src.exhaustive() => src.int(2) == 1,
            0 => false,
            1 => src.flag(1, (N as u64 / 4).max(2)),
            2 => src.flag(1, 2),
            3 => src.flag(7, 8),
            _ => true,
        };
        if put {
            let v = E::norm(M { key: 1 + (i as u32) % 60, uid: 1 + i as u32 });
            c.insert(i, E::make(v));
            m[i] = Some(v);
        }
    }
    let kind = src.int(9);
    src.shard_here()?;
    let names = ["iter", "iter_mut", "into_iter", "drain", "option_iter", "option_iter_mut", "option_drain", "indices", "entries"];
    let idx: Vec<usize> = (0..N).filter(|i| m[*i].is_some()).collect();
    let what = format!("SparseChunk<{}, {}> at {:?}, {}", E::NAME, N, idx, names[kind]);
    tr!(ctx, "{}", what);
    ctx.label_if(N > 64 && idx.iter().any(|i| *i >= 64), "index 64 or more");
    let there: Vec<M> = m.iter().flatten().copied().collect();
    let mut t = Track::new(there.iter().copied());
    let mut o = Track::new(m.iter().copied());
    match kind {
        0 => forward(c.iter(), &mut t, Hint::Bracket, &mut |x| x.m(), src, ctx, &what)?,
        1 => {
            let mut held: Vec<&mut E> = Vec::new();
            forward(c.iter_mut(), &mut t, Hint::Bracket, &mut hold(&mut held), src, ctx, &what)?;
            let mut now = there.clone();
            write_all(held, &t.out, &mut now, src, &what)?;
            for (k, i) in idx.iter().enumerate() {
                m[*i] = Some(now[k]);
            }
        }
        2 => {
            forward(c.into_iter(), &mut t, Hint::Exact, &mut |x| x.m(), src, ctx, &what)?;
            return ended::<E>();
        }
        3 => {
            forward(c.drain(), &mut t, Hint::Exact, &mut |x| x.m(), src, ctx, &what)?;
            return ended::<E>();
        }
        4 => forward(c.option_iter(), &mut o, Hint::Exact, &mut |x| x.map(|y| y.m()), src, ctx, &what)?,
        5 => {
            let mut held: Vec<&mut E> = Vec::new();
            forward(c.option_iter_mut(), &mut o, Hint::Exact, &mut hold_some(&mut held), src, ctx, &what)?;
            let out: Vec<usize> = o.out.iter().copied().filter(|i| m[*i].is_some()).collect();
            let mut now: Vec<M> = m.iter().map(|x| x.unwrap_or(M { key: 0, uid: 0 })).collect();
            write_all(held, &out, &mut now, src, &what)?;
            for i in &idx {
                m[*i] = Some(now[*i]);
            }
        }
        6 => {
            forward(c.option_drain(), &mut o, Hint::Exact, &mut |x| x.map(|y| y.m()), src, ctx, &what)?;
            return ended::<E>();
        }
        7 => {
            let mut t = Track::new(idx.iter().copied());
            forward(c.indices(), &mut t, Hint::Bracket, &mut |x| x, src, ctx, &what)?
        }
        _ => {
            let mut t = Track::new(idx.iter().map(|i| (*i, m[*i].unwrap())));
            forward(c.entries(), &mut t, Hint::Bracket, &mut |(i, x)| (i, x.m()), src, ctx, &what)?
        }
    }
    for i in 0..N {
        ensure_eq!(c.get(i).map(|x| x.m()), m[i], "{}: afterwards, index {}", what, i);
    }
    ensure_eq!(c.len(), idx.len(), "{}: len afterwards", what);
    drop(c);
    ended::<E>()
}

fn caps(src: &Src, ctx: &Ctx) -> &'static [usize] {
    match (src.exhaustive(), ctx.thorough) {
        (true, false) => &[0, 1, 2, 3, 4, 5, 6],
        (true, true) => &[0, 1, 2, 3, 4, 5, 6, 7],
        _ => &[1, 2, 3, 5, 6, 7, 16, 33],
    }
}
pub fn chunk<E: Elem>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cap = *src.pick(caps(src, ctx));
    with_cap!(cap, [0, 1, 2, 3, 4, 5, 6, 7, 16, 33], chunk_case, [E], (src, ctx))
}
#[cfg(feature = "rb")]
pub fn ring<E: Elem>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cap = *src.pick(caps(src, ctx));
    with_cap!(cap, [0, 1, 2, 3, 4, 5, 6, 7, 16, 33], ring_case, [E], (src, ctx))
}
pub fn inline<E: Elem>(src: &mut Src, ctx: &mut Ctx) -> Res {
    match src.int(7) {
        0 => inline_case::<E, usize>(src, ctx),
        1 => inline_case::<E, [u64; 4]>(src, ctx),
        2 => inline_case::<E, [u64; 8]>(src, ctx),
        3 => inline_case::<E, [u8; 96]>(src, ctx),
        4 => inline_case::<E, [u32; 13]>(src, ctx),
        5 => inline_case::<E, [crate::inlineworld::H32; 4]>(src, ctx),
        _ => inline_case::<E, [usize; 3]>(src, ctx),
    }
}
pub fn sparse<E: Elem>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let caps: &[usize] = if src.exhaustive() { &[1, 2, 3, 5, 7] } else { &[1, 2, 3, 5, 8, 31, 33, 64, 65, 127, 129, 256, 1024] };
    let cap = *src.pick(caps);
    with_cap!(cap, [1, 2, 3, 5, 7, 8, 31, 33, 64, 65, 127, 129, 256, 1024], sparse_case, [E], (src, ctx))
}

/// Capacities past 8 bits, and capacities no memory could hold.
pub fn chunk_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let kind = src.int(6);
    ctx.label_if(kind >= 3, "capacity no memory could hold");
    match kind {
        0 => chunk_case::<Tk, 255>(src, ctx),
        1 => chunk_case::<Tk, 257>(src, ctx),
        2 => chunk_case::<KV, 300>(src, ctx),
        3 => chunk_case::<Zd, { isize::MAX as usize }>(src, ctx),
        4 => chunk_case::<Zd, { isize::MAX as usize + 1 }>(src, ctx),
        _ => chunk_case::<Zd, { usize::MAX }>(src, ctx),
    }
}
#[cfg(feature = "rb")]
pub fn ring_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let kind = src.int(6);
    ctx.label_if(kind >= 3, "capacity no memory could hold");
    match kind {
        0 => ring_case::<Tk, 255>(src, ctx),
        1 => ring_case::<Tk, 257>(src, ctx),
        2 => ring_case::<KV, 300>(src, ctx),
        3 => ring_case::<Zd, { isize::MAX as usize }>(src, ctx),
        4 => ring_case::<Zd, { isize::MAX as usize + 1 }>(src, ctx),
        _ => ring_case::<Zd, { usize::MAX }>(src, ctx),
    }
}

/// The same over fewer capacities, for further element types.
pub fn chunk_few<E: Elem>(src: &mut Src, ctx: &mut Ctx) -> Res {
    match src.int(3) {
        0 => chunk_case::<E, 3>(src, ctx),
        1 => chunk_case::<E, 6>(src, ctx),
        _ => chunk_case::<E, 17>(src, ctx),
    }
}
#[cfg(feature = "rb")]
pub fn ring_few<E: Elem>(src: &mut Src, ctx: &mut Ctx) -> Res {
    match src.int(3) {
        0 => ring_case::<E, 3>(src, ctx),
        1 => ring_case::<E, 6>(src, ctx),
        _ => ring_case::<E, 17>(src, ctx),
    }
}
pub fn inline_few<E: Elem>(src: &mut Src, ctx: &mut Ctx) -> Res {
    match src.int(2) {
        0 => inline_case::<E, [u64; 8]>(src, ctx),
        _ => inline_case::<E, [crate::inlineworld::H32; 4]>(src, ctx),
    }
}
pub fn sparse_few<E: Elem>(src: &mut Src, ctx: &mut Ctx) -> Res {
    match src.int(3) {
        0 => sparse_case::<E, 5>(src, ctx),
        1 => sparse_case::<E, 65>(src, ctx),
        _ => sparse_case::<E, 129>(src, ctx),
    }
}

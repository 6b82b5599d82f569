//! Mutable references handed out by iterators and disjoint views: held
//! together, used in any order, interleaved with further iteration (C19).

use crate::elem::{Elem, M};
use crate::engine::{Ctx, Res, Src};
use crate::mk::*;
use crate::{ensure, tr, with_cap};
use bitmaps::{Bits, BitsImpl};
#[cfg(feature = "rb")]
use sized_chunks::RingBuffer;
use sized_chunks::{Chunk, InlineArray, SparseChunk};

/// A mutable iterator, with or without a back end.
trait Source<'a, E: 'a> {
    fn front(&mut self) -> Option<&'a mut E>;
    fn back(&mut self) -> Option<Option<&'a mut E>>;
    fn skip(&mut self, n: usize) -> Option<&'a mut E>;
    fn hint(&self) -> (usize, Option<usize>);
}
struct Both<I>(I);
impl<'a, E: 'a, I: DoubleEndedIterator<Item = &'a mut E> + ExactSizeIterator> Source<'a, E> for Both<I> {
    fn front(&mut self) -> Option<&'a mut E> {
        self.0.next()
    }
    fn back(&mut self) -> Option<Option<&'a mut E>> {
        Some(self.0.next_back())
    }
    fn skip(&mut self, n: usize) -> Option<&'a mut E> {
        self.0.nth(n)
    }
    fn hint(&self) -> (usize, Option<usize>) {
        let _ = self.0.len();
        self.0.size_hint()
    }
}
struct Fwd<I>(I);
impl<'a, E: 'a, I: Iterator<Item = &'a mut E>> Source<'a, E> for Fwd<I> {
    fn front(&mut self) -> Option<&'a mut E> {
        self.0.next()
    }
    fn back(&mut self) -> Option<Option<&'a mut E>> {
        None
    }
    fn skip(&mut self, n: usize) -> Option<&'a mut E> {
        self.0.nth(n)
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}

struct Hand<'a, E> {
    held: Vec<(usize, &'a mut E)>,
    writes: u32,
}
impl<'a, E: Elem> Hand<'a, E> {
    fn new() -> Self {
        Hand { held: Vec::new(), writes: 0 }
    }
    /// Every held reference still shows its own item.
    fn look(&self, m: &[M], what: &str) -> Res {
        for (p, r) in &self.held {
            ensure!(r.m() == m[*p] && r.intact(), "{}: the reference to item {} shows {:?} instead of {:?}", what, p, r.m(), m[*p]);
        }
        Ok(())
    }
    fn take(&mut self, p: usize, r: &'a mut E, m: &[M], what: &str) -> Res {
        ensure!(p < m.len(), "{}: more references than items", what);
        ensure!(r.m() == m[p], "{}: the reference to item {} shows {:?} instead of {:?} when yielded", what, p, r.m(), m[p]);
        if std::mem::size_of::<E>() > 0 {
            let at = r as *const E as usize;
            for (q, o) in &self.held {
                let o = &**o as *const E as usize;
                ensure!(at.abs_diff(o) >= std::mem::size_of::<E>(), "{}: the references to items {} and {} overlap", what, p, q);
            }
        }
        self.held.push((p, r));
        Ok(())
    }
    fn write(&mut self, src: &mut Src, m: &mut [M], ctx: &mut Ctx, what: &str) -> Res {
        let n = self.held.len();
        if n == 0 {
            return Ok(());
        }
        let i = src.int(n);
        self.writes += 1;
        if n > 1 && src.flag(1, 4) {
            let j = src.int(n);
            if i != j {
                let (lo, hi) = (i.min(j), i.max(j));
                let (x, y) = self.held.split_at_mut(hi);
                std::mem::swap(&mut *x[lo].1, &mut *y[0].1);
                m.swap(x[lo].0, y[0].0);
                tr!(ctx, "swap items {} and {}", x[lo].0, y[0].0);
            }
        } else {
            let v = E::norm(M { key: 70 + self.writes, uid: 7000 + self.writes });
            let (p, r) = &mut self.held[i];
            tr!(ctx, "write item {}", p);
            if src.flag(1, 3) {
                **r = E::make(v)
            } else {
                r.write(v)
            }
            m[*p] = v;
        }
        ctx.label_if(n > 1, "write while several references are held");
        if n > 1 {
            ctx.nontrivial = true
        }
        self.look(m, what)
    }
}

/// Play with one mutable iterator over the items `lo..hi` of the model.
fn play<'a, E: Elem, S: Source<'a, E>>(mut it: S, at: &[usize], hand: &mut Hand<'a, E>, m: &mut [M], src: &mut Src, ctx: &mut Ctx, what: &str) -> Res {
    let (mut lo, mut hi) = (0, at.len());
    let mut done = 0;
    loop {
        if src.exhaustive() {
            if lo > hi || done > at.len() {
                break;
            }
        } else if !src.more(done, 40, 4 + 2 * at.len().min(12) as u64) {
            break;
        }
        done += 1;
        let act = if src.exhaustive() { src.int(2) * 3 } else { src.weighted(&[6, 6, 2, 4, 6, 2]) };
        match act {
            0 | 1 => {
                tr!(ctx, "next");
                match it.front() {
                    Some(r) => {
                        ensure!(lo < hi, "{}: yielded more references than items", what);
                        hand.take(at[lo], r, m, what)?;
                        lo += 1;
                    }
                    None => {
                        ensure!(lo == hi, "{}: ended with {} items left", what, hi - lo);
                        if src.exhaustive() {
                            break;
                        }
                    }
                }
            }
            2 => {
                let k = src.int(3);
                tr!(ctx, "nth({})", k);
                match it.skip(k) {
                    Some(r) => {
                        ensure!(lo + k < hi, "{}: yielded more references than items", what);
                        hand.take(at[lo + k], r, m, what)?;
                        lo += k + 1;
                    }
                    None => {
                        ensure!(lo + k >= hi, "{}: ended with {} items left", what, hi - lo);
                        lo = hi;
                    }
                }
            }
            3 => {
                tr!(ctx, "next_back");
                match it.back() {
                    None => {}
                    Some(Some(r)) => {
                        ensure!(lo < hi, "{}: yielded more references than items", what);
                        hi -= 1;
                        hand.take(at[hi], r, m, what)?;
                    }
                    Some(None) => {
                        ensure!(lo == hi, "{}: ended with {} items left", what, hi - lo);
                        if src.exhaustive() {
                            break;
                        }
                    }
                }
            }
            4 => {
                ctx.label_if(lo < hi && !hand.held.is_empty(), "write before the iterator is done");
                hand.write(src, m, ctx, what)?
            }
            _ => {
                let (a, b) = it.hint();
                ensure!(a <= hi - lo && b.map_or(true, |b| b >= hi - lo), "{}: size hint {:?} with {} items left", what, (a, b), hi - lo);
            }
        }
        hand.look(m, what)?;
        if src.exhaustive() && !hand.held.is_empty() {
            // write the oldest and the newest
            let k = hand.held.len() - 1;
            for i in [0, k] {
                hand.writes += 1;
                let v = E::norm(M { key: 70 + hand.writes, uid: 7000 + hand.writes });
                hand.held[i].1.write(v);
                m[hand.held[i].0] = v;
                hand.look(m, what)?;
            }
            ctx.nontrivial |= k > 0;
            ctx.label_if(k > 0, "write while several references are held");
        }
    }
    if src.flag(1, 2) {
        drop(it);
        ctx.label_if(hand.held.len() > 1, "references outlive the iterator");
    }
    after(hand, m, src, ctx, what)
}
fn after<'a, E: Elem>(hand: &mut Hand<'a, E>, m: &mut [M], src: &mut Src, ctx: &mut Ctx, what: &str) -> Res {
    if !src.exhaustive() {
        let mut k = 0;
        while src.more(k, 12, 3) {
            k += 1;
            hand.write(src, m, ctx, what)?;
        }
    }
    hand.look(m, what)
}
fn kind(src: &mut Src, names: &[&'static str]) -> (usize, &'static str) {
    let k = src.int(names.len());
    (k, names[k])
}
fn draw<E: Elem>(len: usize) -> Vec<M> {
    let mut uid = 0;
    items::<E>(len, &mut uid, |i| 1 + (i as u32) % 60)
}
fn same(got: Vec<M>, want: &[M], what: &str) -> Res {
    ensure!(got == want, "{}: afterwards the container holds {:?}, expected {:?}", what, got, want);
    Ok(())
}
fn span(a: usize, b: usize) -> Vec<usize> {
    (a..b).collect()
}

fn chunk_case<E: Elem, const N: usize>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (len, off, via) = draw_chunk::<N>(src);
    let mut m = draw::<E>(len);
    let (k, name) = kind(src, &["iter_mut", "&mut into_iter", "split_at_mut", "as_mut", "first and last", "iter_mut after push"]);
    src.shard_here()?;
    let what = format!("Chunk<{}, {}> of {} items from slot {}, {}", E::NAME, N, len, off, name);
    tr!(ctx, "{}", what);
    let mut c: Chunk<E, N> = chunk_at(&m, off, via);
    if k == 5 && len < N {
        let v = E::norm(M { key: 50, uid: 500 });
        c.push_front(E::make(v));
        m.insert(0, v);
    }
    let len = m.len();
    {
        let mut h = Hand::new();
        match k {
            0 | 5 => play(Both(c.iter_mut()), &span(0, len), &mut h, &mut m, src, ctx, &what)?,
            1 => play(Both((&mut c).into_iter()), &span(0, len), &mut h, &mut m, src, ctx, &what)?,
            2 => {
                let i = src.upto(len);
                let (x, y) = c.split_at_mut(i);
                play(Both(y.iter_mut()), &span(i, len), &mut h, &mut m, src, ctx, &what)?;
                play(Both(x.iter_mut()), &span(0, i), &mut h, &mut m, src, ctx, &what)?;
            }
            3 => {
                let s: &mut [E] = c.as_mut();
                play(Both(s.iter_mut()), &span(0, len), &mut h, &mut m, src, ctx, &what)?
            }
            _ => {
                if let [x, .., y] = c.as_mut_slice() {
                    h.take(0, x, &m, &what)?;
                    h.take(len - 1, y, &m, &what)?;
                }
                after(&mut h, &mut m, src, ctx, &what)?
            }
        }
    }
    same(c.iter().map(|x| x.m()).collect(), &m, &what)
}

#[cfg(feature = "rb")]
fn ring_case<E: Elem, const N: usize>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (len, off, via) = draw_ring::<N>(src);
    let mut m = draw::<E>(len);
    // the halves of one split share the buffer: recorded as a known finding
    // under the aliasing model, judged here by the values they show
    let names: &[&'static str] = if cfg!(miri) {
        &["iter_mut", "&mut into_iter", "slice_mut.iter_mut", "&mut slice_mut into_iter", "sub-slice iter_mut", "one half iter_mut"]
    } else {
        &["iter_mut", "&mut into_iter", "slice_mut.iter_mut", "&mut slice_mut into_iter", "sub-slice iter_mut", "one half iter_mut", "both halves"]
    };
    let (k, name) = kind(src, names);
    src.shard_here()?;
    let what = format!("RingBuffer<{}, {}> of {} items from slot {}, {}", E::NAME, N, len, off, name);
    tr!(ctx, "{}", what);
    ctx.label_if(wraps(len, off, N), "wrapped buffer");
    let mut c: RingBuffer<E, N> = ring_at(&m, off, via);
    let a = if k >= 2 { src.upto(len) } else { 0 };
    let b = if k >= 2 { a + src.upto(len - a) } else { len };
    {
        let mut h = Hand::new();
        match k {
            0 => play(Both(c.iter_mut()), &span(0, len), &mut h, &mut m, src, ctx, &what)?,
            1 => play(Both((&mut c).into_iter()), &span(0, len), &mut h, &mut m, src, ctx, &what)?,
            2 => {
                let mut s = c.slice_mut(a..b);
                play(Both(s.iter_mut()), &span(a, b), &mut h, &mut m, src, ctx, &what)?
            }
            3 => {
                let mut s = c.slice_mut(a..b);
                play(Both((&mut s).into_iter()), &span(a, b), &mut h, &mut m, src, ctx, &what)?
            }
            4 => {
                let i = src.upto(b - a);
                let mut s = c.slice_mut(a..b).slice(i..);
                play(Both(s.iter_mut()), &span(a + i, b), &mut h, &mut m, src, ctx, &what)?
            }
            5 => {
                let i = src.upto(b - a);
                let (mut l, mut r) = c.slice_mut(a..b).split_at(i);
                if src.flag(1, 2) {
                    drop(r);
                    play(Both(l.iter_mut()), &span(a, a + i), &mut h, &mut m, src, ctx, &what)?
                } else {
                    drop(l);
                    play(Both(r.iter_mut()), &span(a + i, b), &mut h, &mut m, src, ctx, &what)?
                }
            }
            _ => {
                let i = src.upto(b - a);
                let (mut l, mut r) = c.slice_mut(a..b).split_at(i);
                play(Both(r.iter_mut()), &span(a + i, b), &mut h, &mut m, src, ctx, &what)?;
                play(Both(l.iter_mut()), &span(a, a + i), &mut h, &mut m, src, ctx, &what)?
            }
        }
    }
    same(c.iter().map(|x| x.m()).collect(), &m, &what)
}

fn inline_case<E: Elem, T>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cap = InlineArray::<E, T>::CAPACITY.min(7);
    let len = src.upto(cap);
    let mut m = draw::<E>(len);
    let (k, name) = kind(src, &["iter_mut", "&mut into_iter", "split_at_mut", "as_mut"]);
    src.shard_here()?;
    let what = format!("InlineArray<{}, {}> of {} items, {}", E::NAME, std::any::type_name::<T>(), len, name);
    tr!(ctx, "{}", what);
    let mut c = InlineArray::<E, T>::new();
    for x in &m {
        c.push(E::make(*x));
    }
    {
        let mut h = Hand::new();
        match k {
            0 => play(Both(c.iter_mut()), &span(0, len), &mut h, &mut m, src, ctx, &what)?,
            1 => play(Both((&mut c).into_iter()), &span(0, len), &mut h, &mut m, src, ctx, &what)?,
            2 => {
                let i = src.upto(len);
                let (x, y) = c.split_at_mut(i);
                play(Both(y.iter_mut()), &span(i, len), &mut h, &mut m, src, ctx, &what)?;
                play(Both(x.iter_mut()), &span(0, i), &mut h, &mut m, src, ctx, &what)?;
            }
            _ => {
                let s: &mut [E] = c.as_mut();
                play(Both(s.iter_mut()), &span(0, len), &mut h, &mut m, src, ctx, &what)?
            }
        }
    }
    same(c.iter().map(|x| x.m()).collect(), &m, &what)
}

fn sparse_case<E: Elem, const N: usize>(src: &mut Src, ctx: &mut Ctx) -> Res
where
    BitsImpl<N>: Bits,
{
    let mut slots: Vec<Option<M>> = vec![None; N];
    let mut c = SparseChunk::<E, N>::new();
    let mut put = |i: usize, c: &mut SparseChunk<E, N>| {
        let v = E::norm(M { key: 1 + (i as u32) % 60, uid: 1 + i as u32 });
        c.insert(i, E::make(v));
        slots[i] = Some(v);
    };
    if src.exhaustive() {
        for i in 0..N {
            if src.int(2) == 1 {
                put(i, &mut c)
            }
        }
    } else {
        for _ in 0..src.int(8) {
            let i = match src.int(3) {
                0 => src.int(N),
                1 => N - 1 - src.int(N.min(3)),
                _ => (N - 1).min(61 + src.int(6)),
            };
            put(i, &mut c)
        }
    }
    let (k, name) = kind(src, &["iter_mut", "option_iter_mut"]);
    src.shard_here()?;
    let at: Vec<usize> = (0..N).filter(|i| slots[*i].is_some()).collect();
    let what = format!("SparseChunk<{}, {}> at {:?}, {}", E::NAME, N, at, name);
    tr!(ctx, "{}", what);
    ctx.label_if(at.iter().any(|i| *i >= 64), "index 64 or more");
    let mut m: Vec<M> = slots.iter().map(|x| x.unwrap_or(M { key: 0, uid: 0 })).collect();
    {
        let mut h = Hand::new();
        match k {
            0 => play(Fwd(c.iter_mut()), &at, &mut h, &mut m, src, ctx, &what)?,
            _ => play(Fwd(c.option_iter_mut().flatten()), &at, &mut h, &mut m, src, ctx, &what)?,
        }
    }
    for i in 0..N {
        let want = slots[i].map(|_| m[i]);
        ensure!(c.get(i).map(|x| x.m()) == want, "{}: afterwards index {} holds {:?}, expected {:?}", what, i, c.get(i).map(|x| x.m()), want);
    }
    Ok(())
}

pub fn chunk<E: Elem>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cap = if src.exhaustive() { src.int(5) } else { *src.pick(&[1, 2, 3, 4, 6]) };
    with_cap!(cap, [0, 1, 2, 3, 4, 6], chunk_case, [E], (src, ctx))
}
#[cfg(feature = "rb")]
pub fn ring<E: Elem>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cap = if src.exhaustive() { src.int(5) } else { *src.pick(&[1, 2, 3, 4, 6, 8]) };
    with_cap!(cap, [0, 1, 2, 3, 4, 6, 8], ring_case, [E], (src, ctx))
}
pub fn inline<E: Elem>(src: &mut Src, ctx: &mut Ctx) -> Res {
    match src.int(4) {
        0 => inline_case::<E, [usize; 9]>(src, ctx),
        1 => inline_case::<E, [usize; 3]>(src, ctx),
        2 => inline_case::<E, [u8; 43]>(src, ctx),
        _ => inline_case::<E, [crate::inlineworld::H64; 4]>(src, ctx),
    }
}
pub fn sparse<E: Elem>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cap = if src.exhaustive() { 1 + src.int(4) } else { *src.pick(&[2, 3, 4, 8, 65, 129]) };
    with_cap!(cap, [1, 2, 3, 4, 8, 65, 129], sparse_case, [E], (src, ctx))
}

/// Only replayed under the interpreter, see known_findings.txt.
#[cfg(feature = "rb")]
pub fn known_halves(src: &mut Src, _: &mut Ctx) -> Res {
    let v = src.int(2) as u32;
    let mut c: RingBuffer<u32, 4> = (0..4).collect();
    let (mut l, mut r) = c.slice_mut(..).split_at(2);
    let x = &mut l[0];
    *x = 8 + v;
    let y = &mut r[0];
    *y = 7 + v;
    *x += 1;
    ensure!(l[0] == 9 + v && r[0] == 7 + v, "values lost");
    Ok(())
}

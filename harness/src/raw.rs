//! Lean histories: direct calls on the containers, no reference model.
//!
//! Every returned value and every visible item goes into the transcript. Two
//! properties are judged with these: under an interpreter or sanitizer they
//! are the workload (C18), and their transcripts are compared between builds
//! of the crate (C22).

use crate::elem::{Elem, M};
use crate::engine::{Ctx, Res, Src};
use crate::fault::{self, catch};
use crate::feed::{Claim, Feed};
use crate::mk::*;
use crate::seq::hash_of;
use crate::seqworld::pack;
use crate::{tr, with_cap};
use bitmaps::{Bits, BitsImpl};
#[cfg(feature = "rb")]
use array_ops::{Array, ArrayMut, HasLength};
#[cfg(feature = "rb")]
use sized_chunks::RingBuffer;
use sized_chunks::{Chunk, InlineArray, SparseChunk};

#[derive(Clone, Copy)]
pub struct Raw {
    /// Average number of operations.
    pub ops: u64,
    /// Out-of-contract arguments (in 1/16).
    pub wild: u64,
    /// Panicking user code (in 1/16).
    pub fuse: u64,
    /// Dishonest iterators (in 1/16).
    pub lies: u64,
    /// Observe Debug output and hashes too.
    pub text: bool,
    /// Halves of a mutable slice may be used together (two references to one
    /// buffer, see DESIGN.md).
    pub halves: bool,
}

/// What a history carries along.
struct Bag<'s> {
    src: &'s mut Src,
    ctx: &'s mut Ctx,
    cfg: Raw,
    uid: u32,
}
impl<'s> Bag<'s> {
    fn fresh<E: Elem>(&mut self) -> E {
        E::make(self.model::<E>())
    }
    fn model<E: Elem>(&mut self) -> M {
        self.uid += 1;
        let key = self.src.int(6) as u32;
        E::norm(M { key, uid: self.uid })
    }
    /// An index up to `max`, sometimes beyond.
    fn upto(&mut self, max: usize, cap: usize) -> usize {
        if self.cfg.wild > 0 && self.src.flag(self.cfg.wild, 16) {
            self.ctx.label("argument out of contract");
            return *self.src.pick(&[max + 1, cap, cap + 1, cap + 2, usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1]);
        }
        self.src.int(max + 1)
    }
    fn below(&mut self, n: usize, cap: usize) -> usize {
        self.upto(n.max(1) - 1, cap)
    }
    fn feed<E: Elem>(&mut self, room: usize, cap: usize) -> Feed {
        let n = if self.cfg.wild > 0 && self.src.flag(self.cfg.wild, 16) { self.src.int(cap + 3) } else { self.src.int(room + 1) };
        let items = (0..n).map(|_| self.model::<E>()).collect();
        let claim = if self.cfg.lies > 0 && self.src.flag(self.cfg.lies, 16) {
            self.ctx.label("dishonest iterator");
            let k = 1 + self.src.int(3);
            Claim::Lies((0..k).map(|_| *self.src.pick(&[0, 1, n, n + 1, n + 2, n.saturating_sub(1), room, room + 1, cap, usize::MAX])).collect())
        } else {
            Claim::Honest
        };
        Feed { items, claim }
    }
    fn see<E: Elem>(&mut self, x: &E) {
        self.ctx.observe(pack(x.m()) ^ ((x.intact() as u64) << 63));
    }
    fn one<E: Elem>(&mut self, x: E) {
        self.see(&x);
    }
    fn opt<E: Elem>(&mut self, x: Option<E>) {
        match x {
            Some(x) => self.one(x),
            None => self.ctx.observe(u64::MAX),
        }
    }
    fn num(&mut self, x: usize) {
        self.ctx.observe(x as u64)
    }
    fn text<T: std::fmt::Debug + ?Sized>(&mut self, x: &T) {
        if self.cfg.text {
            let s = format!("{:?}", x);
            self.ctx.observe(crate::engine::fnv(7, s.as_bytes()))
        }
    }
    fn items<'a, E: Elem>(&mut self, it: impl Iterator<Item = &'a E>) {
        let mut n = 0;
        for x in it {
            self.see(x);
            n += 1
        }
        self.num(n)
    }
    /// Consume an iterator by a drawn mixture of steps, then drop or forget it.
    fn walk<E, I: DoubleEndedIterator<Item = E> + ExactSizeIterator>(&mut self, mut it: I, view: &mut dyn FnMut(&mut Self, E)) {
        let steps = self.src.int(it.len() + 3);
        for _ in 0..steps {
            self.num(it.len());
            let x = if self.src.flag(1, 2) { it.next() } else { it.next_back() };
            match x {
                Some(x) => view(self, x),
                None => self.ctx.observe(u64::MAX),
            }
        }
        let (lo, hi) = it.size_hint();
        self.num(lo);
        self.num(hi.unwrap_or(usize::MAX));
        match self.src.weighted(&[6, 1, 1]) {
            0 => {}
            1 => std::mem::forget(it),
            _ => {
                while let Some(x) = it.next() {
                    view(self, x)
                }
            }
        }
    }
    fn walk1<E, I: Iterator<Item = E>>(&mut self, mut it: I, view: &mut dyn FnMut(&mut Self, E)) {
        let steps = self.src.int(8);
        for _ in 0..steps {
            match it.next() {
                Some(x) => view(self, x),
                None => self.ctx.observe(u64::MAX),
            }
        }
        let (lo, hi) = it.size_hint();
        self.num(lo);
        self.num(hi.unwrap_or(usize::MAX));
        match self.src.weighted(&[6, 1, 3]) {
            0 => {}
            1 => std::mem::forget(it),
            _ => {
                while let Some(x) = it.next() {
                    view(self, x)
                }
            }
        }
    }
    fn arm(&mut self) {
        if self.cfg.fuse > 0 && self.src.flag(self.cfg.fuse, 16) {
            let n = 1 + self.src.int(6) as u64;
            let mask = *self.src.pick(&[0xff, 0xff, 1 << fault::Hook::Drop as u8, 1 << fault::Hook::Clone as u8, 1 << fault::Hook::Cmp as u8, 1 << fault::Hook::Iter as u8]);
            fault::arm(n, mask);
        }
    }
    /// One operation: what happened goes into the transcript.
    fn call(&mut self, f: &mut dyn FnMut(&mut Self)) {
        self.arm();
        let r = catch(|| f(self));
        let fired = fault::disarm();
        if fired {
            self.ctx.label("user panic injected");
        }
        if r.is_err() && !fired {
            self.ctx.label("refused");
        }
        tr!(self.ctx, "  {}", if fired { "user code panicked" } else if r.is_err() { "refused" } else { "done" });
        self.ctx.observe(if r.is_ok() { 1 } else { 2 });
        self.ctx.nontrivial = true;
    }
}

/// What `Chunk` and `RingBuffer` have in common.
macro_rules! common {
    ($case:ident, $step:ident, $T:ident, $at:ident, $draw:ident, $pop:ident, $extra:ident, $nextra:expr) => {
        pub fn $case<E: Elem, const N: usize>(src: &mut Src, ctx: &mut Ctx, cfg: Raw) -> Res {
            let (la, oa, va) = $draw::<N>(src);
            let (lb, ob, vb) = $draw::<N>(src);
            let mut uid = 0;
            let ma = items::<E>(la, &mut uid, |i| 1 + i as u32 % 5);
            let mb = items::<E>(lb, &mut uid, |i| 1 + i as u32 % 5);
            tr!(ctx, "{}<{}, {}>: {} items from slot {} and {} from {}", stringify!($T), E::NAME, N, la, oa, lb, ob);
            let mut a: $T<E, N> = $at(&ma, oa, va);
            let mut b: $T<E, N> = $at(&mb, ob, vb);
            let mut g = Bag { src, ctx, cfg, uid };
            let mut n = 0;
            while g.src.more(n, 60, cfg.ops) {
                n += 1;
                let op = g.src.int(33 + $nextra);
                tr!(g.ctx, "op {}", op);
                g.call(&mut |g| $step(g, op, &mut a, &mut b));
                for c in [&a, &b] {
                    g.num(c.len());
                    g.num(c.is_empty() as usize + 2 * c.is_full() as usize);
                    g.items(c.iter());
                }
                if g.src.flag(1, 4) {
                    std::mem::swap(&mut a, &mut b)
                }
            }
            g.ctx.label_if(n >= 8, "8+ operations");
            g.arm();
            let r = catch(move || {
                drop(a);
                drop(b)
            });
            fault::disarm();
            g.ctx.observe(r.is_ok() as u64);
            Ok(())
        }

        fn $step<E: Elem, const N: usize>(g: &mut Bag, op: usize, a: &mut $T<E, N>, b: &mut $T<E, N>) {
            let len = a.len();
            let room = N - len.min(N);
            match op {
                0 => a.push_back(g.fresh()),
                1 => a.push_front(g.fresh()),
                2 => g.$pop(a.pop_back()),
                3 => g.$pop(a.pop_front()),
                4 | 5 => {
                    let i = g.upto(len, N);
                    let x = g.fresh();
                    a.insert(i, x)
                }
                6 | 7 => {
                    let i = g.upto(len, N);
                    let f = g.feed::<E>(room, N);
                    tr!(g.ctx, "insert_from({}, {:?})", i, f);
                    a.insert_from(i, f.iter::<E>())
                }
                8 => a.insert_ordered(g.fresh()),
                9 | 10 => {
                    let i = g.below(len, N);
                    let x = a.remove(i);
                    g.one(x)
                }
                11 => {
                    let i = g.upto(len, N);
                    a.drop_left(i)
                }
                12 => {
                    let i = g.upto(len, N);
                    a.drop_right(i)
                }
                13 => {
                    let i = g.upto(len, N);
                    *b = a.split_off(i)
                }
                14 => a.append(b),
                15 => {
                    let n = g.upto(b.len().min(room), N);
                    a.drain_from_front(b, n)
                }
                16 => {
                    let n = g.upto(b.len().min(room), N);
                    a.drain_from_back(b, n)
                }
                17 => {
                    let n = g.upto(len, N);
                    *b = $T::from_front(a, n)
                }
                18 => {
                    let n = g.upto(len, N);
                    *b = $T::from_back(a, n)
                }
                19 => *b = $T::drain_from(a),
                20 => {
                    let f = g.feed::<E>(N, N);
                    let n = g.upto(f.items.len().min(N), N);
                    let mut it = f.iter::<E>();
                    *b = $T::collect_from(&mut it, n);
                    g.num(it.count())
                }
                21 => {
                    let f = g.feed::<E>(N, N);
                    *b = f.iter::<E>().collect()
                }
                22 => {
                    let f = g.feed::<E>(room, N);
                    a.extend(f.iter::<E>())
                }
                23 => a.clear(),
                24 => g.walk(a.drain(), &mut |g, x| g.one(x)),
                25 => {
                    let c = std::mem::take(a);
                    g.walk(c.into_iter(), &mut |g, x| g.one(x))
                }
                26 => *b = $T::unit(g.fresh()),
                27 => {
                    let x = g.fresh();
                    let y = g.fresh();
                    *b = $T::pair(x, y)
                }
                28 => *b = a.clone(),
                29 => b.clone_from(a),
                30 => {
                    let mut c = Box::new(std::mem::take(a));
                    if N > 0 && c.is_empty() {
                        c.push_back(g.fresh())
                    }
                    *a = *c
                }
                31 => {
                    let mut all: Vec<&mut E> = Vec::new();
                    for x in a.iter_mut() {
                        all.push(x)
                    }
                    for x in all.into_iter().rev() {
                        let v = g.model::<E>();
                        x.write(v)
                    }
                }
                32 => {
                    g.num((*a == *b) as usize);
                    g.ctx.observe(Ord::cmp(a, b) as i8 as u64);
                    let h = hash_of(a);
                    g.ctx.observe(h);
                    g.text(a)
                }
                n => $extra(g, n - 33, a, b),
            }
        }
    };
}

common!(chunk_case, chunk_step, Chunk, chunk_at, draw_chunk, one, chunk_extra, 9);
#[cfg(feature = "rb")]
common!(ring_case, ring_step, RingBuffer, ring_at, draw_ring, opt, ring_extra, 14);

fn chunk_extra<E: Elem, const N: usize>(g: &mut Bag, op: usize, a: &mut Chunk<E, N>, b: &mut Chunk<E, N>) {
    let len = a.len();
    match op {
        0 => {
            let i = g.below(len, N);
            let x = g.fresh();
            let y = a.set(i, x);
            g.one(y)
        }
        1 => {
            let i = g.below(len, N);
            g.see(&a[i]);
            let v = g.model::<E>();
            a[i].write(v)
        }
        2 => {
            let i = g.upto(len, N);
            let j = g.upto(len, N);
            g.items(a[i..j].iter());
            for x in a[i..].iter_mut() {
                let v = g.model::<E>();
                x.write(v)
            }
        }
        3 => a.as_mut_slice().sort_unstable(),
        4 => a.reverse(),
        5 => {
            let i = g.below(len, N);
            let j = g.below(len, N);
            a.swap(i, j)
        }
        6 => {
            let mut arr = InlineArray::<E, [usize; 9]>::new();
            while !arr.is_full() && arr.len() < N {
                arr.push(g.fresh())
            }
            *b = if g.src.flag(1, 2) { Chunk::from(&mut arr) } else { Chunk::from(arr) }
        }
        7 => {
            let (x, y) = a.split_at(len / 2);
            g.items(x.iter());
            g.items(y.iter());
            g.num((*a == b.as_slice()) as usize)
        }
        _ => {
            let src: Vec<E> = (0..g.src.int(N - len + 2)).map(|_| g.fresh()).collect();
            let took = E::chunk_extend_ref(a, &src);
            g.num(took as usize)
        }
    }
}

#[cfg(feature = "rb")]
fn ring_extra<E: Elem, const N: usize>(g: &mut Bag, op: usize, a: &mut RingBuffer<E, N>, b: &mut RingBuffer<E, N>) {
    let len = a.len();
    let (i, j) = (g.upto(len, N), g.upto(len, N));
    let (i, j) = if i > j && g.src.flag(7, 8) { (j, i) } else { (i, j) };
    match op {
        0 => {
            let x = g.below(len, N);
            let v = g.fresh();
            let y = std::mem::replace(&mut a[x], v);
            g.one(y)
        }
        1 => {
            let x = g.below(len, N);
            g.see(&a[x]);
            let v = g.model::<E>();
            a[x].write(v)
        }
        2 => match a.get_mut(i) {
            Some(x) => {
                g.see(x);
                x.write(M { key: 1, uid: 1 })
            }
            None => g.num(0),
        },
        3 => g.walk(a.slice(i..j).iter(), &mut |g, x| g.see(x)),
        4 => {
            let mut s = a.slice_mut(i..j);
            let mut all: Vec<&mut E> = s.iter_mut().collect();
            for x in all.iter_mut() {
                let v = g.model::<E>();
                x.write(v)
            }
        }
        5 => *b = a.slice(i..=j).to_owned(),
        6 => {
            let s = a.slice_mut(..j);
            g.num(s.len());
            let n = s.len();
            let k = g.upto(n, N);
            let s = s.slice(k..);
            for x in 0..s.len() {
                g.see(&s[x])
            }
            let c = s.to_owned();
            *b = c
        }
        7 => {
            let s = a.slice(i..);
            let n = s.len();
            let k = g.upto(n, N);
            let (l, r) = s.split_at(k);
            g.items(l.iter());
            g.items(r.iter());
            g.num((l == r) as usize);
            g.ctx.observe(l.cmp(&r) as i8 as u64);
            let h = hash_of(&r);
            g.ctx.observe(h);
            g.text(&l)
        }
        8 => {
            let s = a.slice_mut(i..);
            let n = s.len();
            let k = g.upto(n, N);
            if g.cfg.halves {
                let (mut l, mut r) = s.split_at(k);
                for x in l.iter_mut() {
                    let v = g.model::<E>();
                    x.write(v)
                }
                if let Some(x) = r.get_mut(0) {
                    x.write(M { key: 2, uid: 2 })
                }
                g.items(l.iter());
                g.items(r.iter());
                g.num((l == r) as usize)
            }
        }
        9 => {
            let mut s = a.slice_mut(i..j);
            let k = g.below(j.saturating_sub(i), N);
            let v = g.fresh();
            let y = std::mem::replace(&mut s[k], v);
            g.one(y);
            g.items(s.unmut().iter())
        }
        10 => {
            let s = a.slice(i..j);
            let k = g.src.int(N + 1);
            g.see(&s[k])
        }
        11 => {
            g.num(a.get(i).is_some() as usize);
            let s = a.slice(..);
            g.num((s.first().is_some()) as usize + 2 * (s.last() == s.get(len.wrapping_sub(1))) as usize)
        }
        12 => {
            let x: E = g.fresh();
            g.num(match a.binary_search(&x) {
                Ok(n) => n,
                Err(n) => 1000 + n,
            })
        }
        _ => {
            let src: Vec<E> = (0..g.src.int(N - len + 2)).map(|_| g.fresh()).collect();
            a.extend(src.iter())
        }
    }
}

pub fn inline_case<E: Elem, T>(src: &mut Src, ctx: &mut Ctx, cfg: Raw) -> Res {
    let cap = InlineArray::<E, T>::CAPACITY.min(20);
    let mut a = InlineArray::<E, T>::new();
    let mut b = InlineArray::<E, T>::new();
    let mut g = Bag { src, ctx, cfg, uid: 0 };
    for c in [&mut a, &mut b] {
        for _ in 0..g.src.int(cap.min(8) + 1) {
            c.push(g.fresh())
        }
    }
    tr!(g.ctx, "InlineArray<{}, {}> (capacity {}): {} and {} items", E::NAME, std::any::type_name::<T>(), InlineArray::<E, T>::CAPACITY, a.len(), b.len());
    let mut n = 0;
    while g.src.more(n, 60, cfg.ops) {
        n += 1;
        let op = g.src.int(25);
        tr!(g.ctx, "op {}", op);
        g.call(&mut |g| inline_step(g, op, cap, &mut a, &mut b));
        for c in [&a, &b] {
            g.num(c.len());
            g.num(c.is_empty() as usize + 2 * c.is_full() as usize);
            g.items(c.iter());
        }
        if g.src.flag(1, 4) {
            std::mem::swap(&mut a, &mut b)
        }
    }
    g.ctx.label_if(n >= 8, "8+ operations");
    g.arm();
    let r = catch(move || {
        drop(a);
        drop(b)
    });
    fault::disarm();
    g.ctx.observe(r.is_ok() as u64);
    Ok(())
}
fn inline_step<E: Elem, T>(g: &mut Bag, op: usize, cap: usize, a: &mut InlineArray<E, T>, b: &mut InlineArray<E, T>) {
    let len = a.len();
    let room = cap - len.min(cap);
    match op {
        0..=2 => {
            // unlimited for zero-sized items: keep it short
            if len < 40 {
                a.push(g.fresh())
            }
        }
        3 => g.opt(a.pop()),
        4 | 5 => {
            let i = g.upto(len, cap);
            let x = g.fresh();
            a.insert(i, x)
        }
        6 | 7 => {
            let i = g.below(len, cap);
            let x = a.remove(i);
            g.opt(x)
        }
        8 => {
            let i = g.upto(len, cap);
            *b = a.split_off(i)
        }
        9 => a.clear(),
        10 => g.walk(a.drain(), &mut |g, x| g.one(x)),
        11 => {
            let c = std::mem::take(a);
            g.walk(c.into_iter(), &mut |g, x| g.one(x))
        }
        12 => {
            let f = g.feed::<E>(cap, cap);
            *b = f.iter::<E>().collect()
        }
        13 => {
            let f = g.feed::<E>(room, cap);
            a.extend(f.iter::<E>())
        }
        14 => *b = a.clone(),
        15 => b.clone_from(a),
        16 => {
            let c = Box::new(std::mem::take(a));
            let o = Some(*c);
            *a = o.unwrap()
        }
        17 => {
            let all: Vec<&mut E> = a.iter_mut().collect();
            for x in all.into_iter().rev() {
                let v = g.model::<E>();
                x.write(v)
            }
        }
        18 => {
            g.num((*a == *b) as usize);
            g.ctx.observe(Ord::cmp(a, b) as i8 as u64);
            let h = hash_of(a);
            g.ctx.observe(h);
            g.text(a)
        }
        19 => {
            let i = g.below(len, cap);
            g.see(&a[i]);
            let v = g.model::<E>();
            a[i].write(v)
        }
        20 => a.sort_unstable(),
        21 => {
            let i = g.upto(len, cap);
            let (x, y) = a.split_at_mut(i);
            if let (Some(x), Some(y)) = (x.last_mut(), y.first_mut()) {
                std::mem::swap(x, y)
            }
        }
        22 => {
            let c: Chunk<E, 20> = Chunk::from(&mut *a);
            g.items(c.iter())
        }
        23 => {
            let src: Vec<E> = (0..g.src.int(room.min(8) + 2)).map(|_| g.fresh()).collect();
            let took = E::inline_extend_ref(a, &mut src.iter());
            g.num(took as usize)
        }
        _ => {
            let c: Chunk<E, 40> = Chunk::from(std::mem::take(a));
            g.items(c.iter())
        }
    }
}

pub fn sparse_case<E: Elem, const N: usize>(src: &mut Src, ctx: &mut Ctx, cfg: Raw) -> Res
where
    BitsImpl<N>: Bits,
{
    let mut a = SparseChunk::<E, N>::new();
    let mut b = SparseChunk::<E, N>::new();
    let mut g = Bag { src, ctx, cfg, uid: 0 };
    for c in [&mut a, &mut b] {
        for _ in 0..g.src.int(N.min(5) + 1) {
            let i = spot::<N>(&mut g);
            let x = g.fresh();
            if i < N {
                c.insert(i, x);
            }
        }
    }
    tr!(g.ctx, "SparseChunk<{}, {}> with {} and {} items", E::NAME, N, a.len(), b.len());
    let mut n = 0;
    while g.src.more(n, 60, cfg.ops) {
        n += 1;
        let op = g.src.int(26);
        tr!(g.ctx, "op {}", op);
        g.call(&mut |g| sparse_step(g, op, &mut a, &mut b));
        for c in [&a, &b] {
            g.num(c.len());
            g.num(c.is_empty() as usize + 2 * c.is_full() as usize);
            for (i, x) in c.entries() {
                g.num(i);
                g.see(x)
            }
        }
        if g.src.flag(1, 4) {
            std::mem::swap(&mut a, &mut b)
        }
    }
    g.ctx.label_if(n >= 8, "8+ operations");
    g.arm();
    let r = catch(move || {
        drop(a);
        drop(b)
    });
    fault::disarm();
    g.ctx.observe(r.is_ok() as u64);
    Ok(())
}
/// An index, often near a word boundary of the bitmap or the end.
fn spot<const N: usize>(g: &mut Bag) -> usize {
    match g.src.int(4) {
        0 => g.below(N, N),
        1 => (N - 1).min(62 + g.src.int(4)),
        2 => N - 1 - g.src.int(N.min(3)),
        _ => g.src.int(N.min(6)),
    }
}
fn sparse_step<E: Elem, const N: usize>(g: &mut Bag, op: usize, a: &mut SparseChunk<E, N>, b: &mut SparseChunk<E, N>)
where
    BitsImpl<N>: Bits,
{
    let i = spot::<N>(g);
    match op {
        0..=3 => {
            let x = g.fresh();
            let y = a.insert(i, x);
            g.opt(y)
        }
        4..=6 => {
            let y = a.remove(i);
            g.opt(y)
        }
        7 => {
            // an inhabited one
            if let Some(i) = a.first_index() {
                let y = a.remove(i);
                g.opt(y)
            }
        }
        8 => {
            let y = a.pop();
            g.opt(y)
        }
        9 => match a.get(i) {
            Some(x) => g.see(x),
            None => g.num(0),
        },
        10 => {
            let v = g.model::<E>();
            if let Some(x) = a.get_mut(i) {
                x.write(v)
            }
        }
        11 => g.see(&a[i]),
        12 => {
            let v = g.model::<E>();
            a[i].write(v)
        }
        13 => *b = SparseChunk::unit(i, g.fresh()),
        14 => {
            let j = spot::<N>(g);
            let x = g.fresh();
            let y = g.fresh();
            *b = SparseChunk::pair(i, x, j, y)
        }
        15 => {
            for i in a.indices() {
                g.num(i)
            }
            g.num(a.first_index().unwrap_or(usize::MAX))
        }
        16 => g.walk1(a.iter(), &mut |g, x| g.see(x)),
        17 => {
            let all: Vec<&mut E> = a.iter_mut().collect();
            for x in all.into_iter().rev() {
                let v = g.model::<E>();
                x.write(v)
            }
        }
        18 => {
            let c = std::mem::take(a);
            g.walk1(c.drain(), &mut |g, x| g.one(x))
        }
        19 => {
            let c = std::mem::take(a);
            g.walk1(c.into_iter(), &mut |g, x| g.one(x))
        }
        20 => {
            let c = std::mem::take(a);
            g.walk1(c.option_drain(), &mut |g, x| g.opt(x))
        }
        21 => g.walk1(a.option_iter(), &mut |g, x| match x {
            Some(x) => g.see(x),
            None => g.num(1),
        }),
        22 => {
            let all: Vec<&mut E> = a.option_iter_mut().flatten().collect();
            for x in all.into_iter().rev() {
                let v = g.model::<E>();
                x.write(v)
            }
        }
        23 => *b = a.clone(),
        24 => {
            let n = g.src.int(N.min(12) + 2);
            let v: Vec<Option<E>> = (0..n).map(|_| if g.src.flag(1, 2) { Some(g.fresh()) } else { None }).collect();
            *b = v.into_iter().collect()
        }
        _ => {
            g.num((*a == *b) as usize);
            g.text(a);
            let c = Box::new(std::mem::take(a));
            *a = *c
        }
    }
}

macro_rules! entry {
    ($name:ident, $case:ident, $caps:expr, $lits:tt) => {
        pub fn $name<E: Elem>(src: &mut Src, ctx: &mut Ctx, cfg: Raw) -> Res {
            let caps: &[usize] = $caps;
            let cap = *src.pick(caps);
            with_cap!(cap, $lits, $case, [E], (src, ctx, cfg))
        }
    };
}
entry!(chunk, chunk_case, &[0, 1, 2, 3, 3, 4, 4, 5, 5, 8], [0, 1, 2, 3, 4, 5, 8]);
#[cfg(feature = "rb")]
entry!(ring, ring_case, &[0, 1, 2, 3, 3, 4, 4, 5, 5, 8], [0, 1, 2, 3, 4, 5, 8]);
entry!(sparse, sparse_case, &[1, 2, 3, 5, 8, 9, 33, 64, 65, 129], [1, 2, 3, 5, 8, 9, 33, 64, 65, 129]);
pub fn inline<E: Elem>(src: &mut Src, ctx: &mut Ctx, cfg: Raw) -> Res {
    match src.int(8) {
        0 => inline_case::<E, [usize; 9]>(src, ctx, cfg),
        1 => inline_case::<E, [usize; 5]>(src, ctx, cfg),
        2 => inline_case::<E, [usize; 3]>(src, ctx, cfg),
        3 => inline_case::<E, [usize; 1]>(src, ctx, cfg),
        4 => inline_case::<E, [u8; 100]>(src, ctx, cfg),
        5 => inline_case::<E, [u8; 43]>(src, ctx, cfg),
        6 => inline_case::<E, [crate::inlineworld::H64; 4]>(src, ctx, cfg),
        _ => inline_case::<E, [u32; 13]>(src, ctx, cfg),
    }
}

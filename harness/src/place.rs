//! Where items live: inside the container, without heap memory (C20), and
//! at an unchanged address over constant-time operations (C21).

use crate::engine::{Ctx, Res, Src};
use crate::{bad, ensure, tr};
#[cfg(feature = "rb")]
use array_ops::{Array, ArrayMut, HasLength};
use bitmaps::{Bits, BitsImpl};
#[cfg(feature = "rb")]
use sized_chunks::RingBuffer;
use sized_chunks::{Chunk, InlineArray, SparseChunk};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::mem::{align_of, size_of};
use std::num::NonZeroU32;
use std::rc::Rc;

pub struct Counting;
thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
fn called() {
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
}
// SAFETY: passes everything on to the system allocator
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        called();
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        called();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        called();
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
pub fn allocations() -> u64 {
    CALLS.with(|c| c.get())
}

/// Hashes without any memory of its own.
#[derive(Default)]
struct Sum(u64);
impl Hasher for Sum {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_mul(31).wrapping_add(*x as u64)
        }
    }
}

/// Items which tell who they are. Cloning, comparing and dropping them takes
/// no new memory.
pub trait Thing: Clone + Ord + Hash + Debug + 'static {
    const NAME: &'static str;
    fn mk(uid: u32) -> Self;
    fn uid(&self) -> u32;
}
macro_rules! things {
    ($($t:ident, $uid:ident => $mk:expr, $x:ident => $get:expr;)*) => {$(
        impl Thing for $t {
            const NAME: &'static str = stringify!($t);
            fn mk($uid: u32) -> Self { $mk }
            fn uid(&self) -> u32 { let $x = self; $get }
        }
    )*};
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Words(u64, [u64; 3]);
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(align(32))]
pub struct Wide(u32);
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Niche(NonZeroU32);
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Odd([u8; 5]);
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Shared(Rc<u32>);
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Nothing;
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Padded(u8, u32);
things! {
    u16, uid => uid as u16, x => *x as u32;
    u64, uid => uid as u64, x => *x as u32;
    Words, uid => Words(uid as u64, [uid as u64; 3]), x => if x.1 == [x.0; 3] { x.0 as u32 } else { u32::MAX };
    Wide, uid => Wide(uid), x => x.0;
    Niche, uid => Niche(NonZeroU32::new(uid + 1).unwrap()), x => x.0.get() - 1;
    Odd, uid => { let b = uid.to_le_bytes(); Odd([b[0], b[1], b[2], b[3], 7]) }, x => u32::from_le_bytes([x.0[0], x.0[1], x.0[2], x.0[3]]);
    Shared, uid => Shared(Rc::new(uid)), x => *x.0;
    Nothing, _uid => Nothing, _x => 0;
    Padded, uid => Padded(uid as u8, uid), x => x.1;
}

#[derive(Clone, Copy, PartialEq)]
pub enum Judge {
    /// Storage inside the container, no allocation, relocation.
    Inside,
    /// Addresses over constant-time operations.
    Still,
}
/// What has to stay where it is.
#[derive(Clone, Copy)]
enum Stay {
    Free,
    All,
    /// Everything before, or everything from, this position.
    Side(usize),
    /// Everything before this position.
    Before(usize),
}
type At = Vec<(u32, usize)>;

/// A container whose items can be located.
trait Store: Sized + 'static {
    type E: Thing;
    fn walk(&self) -> Vec<&Self::E>;
    /// Every other way to reach the items gives the same places.
    fn ways(&self, at: &[&Self::E]) -> Result<(), String>;
}
fn same<T>(a: Option<&T>, b: Option<&&T>) -> bool {
    a.map(|x| x as *const T) == b.map(|x| *x as *const T)
}
fn located<C: Store>(c: &C) -> At {
    let base = c as *const C as usize;
    c.walk().iter().map(|x| (x.uid(), (*x as *const C::E as usize).wrapping_sub(base))).collect()
}
fn uids(a: &At) -> Vec<u32> {
    a.iter().map(|x| x.0).collect()
}
fn inside<C: Store>(c: &C, what: &str) -> Res<At> {
    let at = located(c);
    let s = size_of::<C::E>();
    for (uid, o) in &at {
        ensure!(*o <= size_of::<C>() && size_of::<C>() - *o >= s, "{}: item {} is not inside the container (at offset {:#x})", what, uid, o);
        let a = (c as *const C as usize).wrapping_add(*o);
        ensure!(a % align_of::<C::E>() == 0, "{}: item {} is misaligned (at offset {})", what, uid, o);
    }
    let mut o: Vec<usize> = at.iter().map(|x| x.1).collect();
    o.sort_unstable();
    ensure!(s == 0 || o.windows(2).all(|w| w[1] - w[0] >= s), "{}: items overlap, at offsets {:?}", what, o);
    if let Err(e) = c.ways(&c.walk()) {
        bad!("{}: {}", what, e)
    }
    Ok(at)
}
fn still(before: &At, after: &At, stay: Stay, what: &str) -> Res {
    let moved = |part: &[(u32, usize)]| part.iter().find_map(|(u, o)| after.iter().find(|x| x.0 == *u && x.1 != *o).map(|x| (*u, *o, x.1)));
    let fail = |m: (u32, usize, usize)| format!("{}: item {} moved from offset {} to {}", what, m.0, m.1, m.2);
    match stay {
        Stay::Free => {}
        Stay::All => {
            if let Some(m) = moved(before) {
                bad!("{}", fail(m))
            }
        }
        Stay::Before(i) => {
            if let Some(m) = moved(&before[..i]) {
                bad!("{}", fail(m))
            }
        }
        Stay::Side(i) => {
            if let (Some(m), Some(n)) = (moved(&before[..i]), moved(&before[i..])) {
                bad!("{}, and on the other side {}", fail(m), fail(n))
            }
        }
    }
    Ok(())
}
fn gauge<R>(judge: Judge, what: &str, f: impl FnOnce() -> R) -> Res<R> {
    let n = allocations();
    let r = f();
    let n = allocations() - n;
    ensure!(judge != Judge::Inside || n == 0, "{}: allocated {} times", what, n);
    Ok(r)
}
/// Through several places in memory, and through wrappers that may use a niche.
#[inline(never)]
fn travel<C: Store>(b: Box<C>, k: usize, what: &str) -> Res<Box<C>> {
    let want = uids(&located(&*b));
    let b = match k {
        0 => Box::new(*b),
        1 => {
            let some = Some(*b);
            ensure!(some.is_some(), "{}: Some(container) is None", what);
            let mut some = Box::new(some);
            let c = some.take();
            ensure!(some.is_none(), "{}: None is some container", what);
            ensure!(c.is_some(), "{}: Some(container) moved is None", what);
            Box::new(c.unwrap())
        }
        2 => {
            let two: Option<Option<C>> = Some(Some(*b));
            ensure!(matches!(two, Some(Some(_))), "{}: Some(Some(container)) is another", what);
            let none: Option<Option<C>> = Some(None);
            ensure!(matches!(none, Some(None)), "{}: Some(None) is another", what);
            Box::new(two.unwrap().unwrap())
        }
        3 => {
            let ok: Result<C, u8> = Ok(*b);
            ensure!(ok.is_ok(), "{}: Ok(container) is an error", what);
            Box::new(ok.ok().unwrap())
        }
        _ => {
            let mut v = Vec::new();
            v.push((1u8, *b));
            v.reserve(50);
            Box::new(v.pop().unwrap().1)
        }
    };
    let got = uids(&inside(&*b, what)?);
    ensure!(got == want, "{}: after moving the container it holds {:?}, it held {:?}", what, got, want);
    Ok(b)
}

macro_rules! seq_store {
    ($C:ident, $ways:expr) => {
        impl<E: Thing, const N: usize> Store for $C<E, N> {
            type E = E;
            fn walk(&self) -> Vec<&E> {
                self.iter().collect()
            }
            fn ways(&self, at: &[&E]) -> Result<(), String> {
                for i in 0..at.len() {
                    if !same(self.get(i), at.get(i)) {
                        return Err(format!("get({}) gives another place than iteration", i));
                    }
                    if !std::ptr::eq(&self[i], at[i]) {
                        return Err(format!("[{}] gives another place than iteration", i));
                    }
                }
                $ways(self, at)
            }
        }
    };
}
seq_store!(Chunk, |c: &Chunk<E, N>, at: &[&E]| {
    let s = c.as_slice();
    if s.len() != at.len() || (!at.is_empty() && !std::ptr::eq(&s[0], at[0])) {
        return Err("the slice view is at another place than iteration".to_string());
    }
    Ok(())
});
#[cfg(feature = "rb")]
seq_store!(RingBuffer, |c: &RingBuffer<E, N>, at: &[&E]| {
    let s = c.slice(..);
    for (i, w) in at.iter().enumerate() {
        if !s.get(i).map_or(false, |x| std::ptr::eq(x, *w)) {
            return Err(format!("slice get({}) gives another place than iteration", i));
        }
    }
    Ok(())
});
impl<E: Thing, T: 'static> Store for InlineArray<E, T> {
    type E = E;
    fn walk(&self) -> Vec<&E> {
        self.iter().collect()
    }
    fn ways(&self, at: &[&E]) -> Result<(), String> {
        for i in 0..at.len() {
            if !same(self.get(i), at.get(i)) {
                return Err(format!("get({}) gives another place than iteration", i));
            }
        }
        Ok(())
    }
}
impl<E: Thing, const N: usize> Store for SparseChunk<E, N>
where
    BitsImpl<N>: Bits,
{
    type E = E;
    fn walk(&self) -> Vec<&E> {
        self.iter().collect()
    }
    fn ways(&self, at: &[&E]) -> Result<(), String> {
        let mut n = 0;
        for i in 0..N {
            if let Some(x) = self.get(i) {
                if !same(Some(x), at.get(n)) || !std::ptr::eq(&self[i], x) {
                    return Err(format!("get({}) gives another place than iteration", i));
                }
                n += 1;
            }
        }
        Ok(())
    }
}

/// Hands out items. Collecting it into a vector takes new memory, as with
/// most iterators (and other than with a vector's own iterator).
struct Feed<T>(std::vec::IntoIter<T>);
impl<T> Iterator for Feed<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<T> ExactSizeIterator for Feed<T> {}

struct Uids(u32);
impl Uids {
    fn feed<E: Thing>(&mut self, n: usize) -> Feed<E> {
        Feed(self.many(n).into_iter())
    }
    fn one<E: Thing>(&mut self) -> E {
        self.0 += 1;
        E::mk(self.0)
    }
    fn many<E: Thing>(&mut self, n: usize) -> Vec<E> {
        (0..n).map(|_| self.one()).collect()
    }
}

/// First and last place in the storage of a chunk.
fn ends<E: Thing, const N: usize>(what: &str) -> Res<(usize, usize)> {
    let mut b = Box::new(Chunk::<E, N>::new());
    let mut f = Box::new(Chunk::<E, N>::new());
    let (mut bat, mut fat) = (At::new(), At::new());
    for i in 0..N {
        b.push_back(E::mk(i as u32));
        f.push_front(E::mk(i as u32));
        let (bn, fn_) = (located(&*b), located(&*f));
        still(&bat, &bn, Stay::All, &format!("{}: repeated push_back", what))?;
        still(&fat, &fn_, Stay::All, &format!("{}: repeated push_front", what))?;
        bat = bn;
        fat = fn_;
    }
    Ok(match (bat.first(), bat.last()) {
        (Some(a), Some(b)) => (a.1, b.1),
        _ => (0, 0),
    })
}

macro_rules! seq_case {
    ($name:ident, $C:ident, $chunk:literal, $pop:expr, $set:expr, $edit:expr, $search:expr) => {
        #[inline(never)]
        fn $name<E: Thing, const N: usize>(judge: Judge, src: &mut Src, ctx: &mut Ctx) -> Res {
            type C<E, const N: usize> = $C<E, N>;
            let ty = format!("{}<{}, {}>", stringify!($C), E::NAME, N);
            tr!(ctx, "{}", ty);
            let mut new = Uids(0);
            let zst = size_of::<E>() == 0;
            if $chunk {
                let (w, a) = (2 * size_of::<usize>(), align_of::<E>().max(align_of::<usize>()));
                let (lo, hi) = (w + N * size_of::<E>(), (w + align_of::<E>() + N * size_of::<E>() + a - 1) / a * a);
                let got = size_of::<C<E, N>>();
                ensure!(judge == Judge::Still || (lo <= got && got <= hi), "{}: takes {} bytes, expected {} plus padding", ty, got, lo);
            }
            let (lo, hi) = if $chunk && !zst { ends::<E, N>(&ty)? } else { (0, 0) };
            let mut s: [Option<Box<C<E, N>>>; 2] = [Some(Box::new(C::new())), Some(Box::new(C::new()))];
            // pushed to one side only since it was empty
            let mut streak: [Option<bool>; 2] = [None, None];
            let mut done = 0;
            while src.more(done, 100, 18) {
                done += 1;
                let x = src.int(2);
                let mut a = s[x].take().expect("a container");
                let mut b = s[1 - x].take().expect("a container");
                let before = located(&*a);
                let before_b = located(&*b);
                let len = before.len();
                let room = N - len;
                let blen = before_b.len();
                ctx.label_if(room == 0 && N > 0, "on a full container");
                let what;
                let mut stay = Stay::Free;
                let mut fresh = None;
                let mut next_streak = None;
                match src.weighted(&[10, 10, 5, 5, 5, 2, 2, 4, 3, 3, 3, 3, 2, 3, 3, 2, 2, 1, 2, 1, 2, 2, 2, 4, 1, 1, 2, 2]) {
                    0 if room > 0 => {
                        what = "push_back";
                        let v = new.one();
                        gauge(judge, what, || a.push_back(v))?;
                        next_streak = Some(true);
                        let one_side = len == 0 || streak[x] == Some(true);
                        if !$chunk || one_side || before.last().map_or(true, |l| l.1 < hi) {
                            stay = Stay::All;
                        }
                        if !one_side {
                            next_streak = None
                        }
                    }
                    1 if room > 0 => {
                        what = "push_front";
                        let v = new.one();
                        gauge(judge, what, || a.push_front(v))?;
                        next_streak = Some(false);
                        let one_side = len == 0 || streak[x] == Some(false);
                        if !$chunk || one_side || before.first().map_or(true, |l| l.1 > lo) {
                            stay = Stay::All;
                        }
                        if !one_side {
                            next_streak = None
                        }
                    }
                    2 if len > 0 => {
                        what = "pop_back";
                        let _v: Option<E> = gauge(judge, what, || $pop(&mut *a, true))?;
                        stay = Stay::All;
                    }
                    3 if len > 0 => {
                        what = "pop_front";
                        let _v: Option<E> = gauge(judge, what, || $pop(&mut *a, false))?;
                        stay = Stay::All;
                    }
                    4 if room > 0 => {
                        what = "insert";
                        let v = new.one();
                        let i = src.upto(len);
                        gauge(judge, what, || a.insert(i, v))?;
                        stay = Stay::Side(i);
                        ctx.label_if(i > 0 && i < len, "insert/remove in the middle");
                    }
                    5 => {
                        what = "insert_from";
                        let v: Feed<E> = new.feed(src.upto(room));
                        let i = src.upto(len);
                        gauge(judge, what, || a.insert_from(i, v))?;
                    }
                    6 if room > 0 => {
                        what = "insert_ordered";
                        let v = new.one();
                        gauge(judge, what, || a.insert_ordered(v))?;
                    }
                    7 if len > 0 => {
                        what = "remove";
                        let i = src.upto(len - 1);
                        let _v = gauge(judge, what, || a.remove(i))?;
                        stay = Stay::Side(i);
                        ctx.label_if(i > 0 && i + 1 < len, "insert/remove in the middle");
                    }
                    8 if len > 0 => {
                        what = "set";
                        let i = src.upto(len - 1);
                        let v = new.one();
                        let _v: Option<E> = gauge(judge, what, || $set(&mut *a, i, v))?;
                        stay = Stay::All;
                        if judge == Judge::Still {
                            let now = located(&*a);
                            ensure!(now.get(i).map(|x| x.1) == Some(before[i].1), "{}: set {} put the item elsewhere", ty, i);
                        }
                    }
                    9 => {
                        what = "drop_left";
                        let i = src.upto(len);
                        gauge(judge, what, || a.drop_left(i))?;
                        stay = Stay::All;
                    }
                    10 => {
                        what = "drop_right";
                        let i = src.upto(len);
                        gauge(judge, what, || a.drop_right(i))?;
                        stay = Stay::All;
                    }
                    11 => {
                        what = "split_off";
                        let i = src.upto(len);
                        fresh = Some(gauge(judge, what, || a.split_off(i))?);
                        stay = Stay::All;
                    }
                    12 if blen <= room => {
                        what = "append";
                        gauge(judge, what, || a.append(&mut b))?;
                        ctx.label_if(len > 0 && blen > 0, "bulk move between non-empty containers");
                    }
                    13 => {
                        what = "drain_from_front";
                        let n = src.upto(room.min(blen));
                        gauge(judge, what, || a.drain_from_front(&mut b, n))?;
                        ctx.label_if(len > 0 && blen > n, "bulk move between non-empty containers");
                    }
                    14 => {
                        what = "drain_from_back";
                        let n = src.upto(room.min(blen));
                        gauge(judge, what, || a.drain_from_back(&mut b, n))?;
                        ctx.label_if(len > 0 && blen > n, "bulk move between non-empty containers");
                    }
                    15 => {
                        what = "from_front";
                        let n = src.upto(len);
                        fresh = Some(gauge(judge, what, || C::from_front(&mut a, n))?);
                        stay = Stay::All;
                    }
                    16 => {
                        what = "from_back";
                        let n = src.upto(len);
                        fresh = Some(gauge(judge, what, || C::from_back(&mut a, n))?);
                        stay = Stay::All;
                    }
                    17 => {
                        what = "drain_from";
                        fresh = Some(gauge(judge, what, || C::drain_from(&mut a))?);
                    }
                    18 => {
                        what = "extend";
                        let v: Feed<E> = new.feed(src.upto(room));
                        gauge(judge, what, || a.extend(v))?;
                    }
                    19 => {
                        what = "clear";
                        gauge(judge, what, || a.clear())?;
                    }
                    20 => {
                        what = "drain";
                        let n = src.upto(len);
                        let back = src.flag(1, 2);
                        let k = gauge(judge, what, || {
                            let mut d = a.drain();
                            let mut k = 0;
                            for _ in 0..n {
                                let v = if back { d.next_back() } else { d.next() };
                                k += v.is_some() as usize;
                            }
                            k
                        })?;
                        ensure!(k == n, "{}: drain gave {} of {}", ty, k, n);
                        stay = Stay::All;
                    }
                    21 => {
                        what = "clone";
                        let mut f = gauge(judge, what, || (*a).clone())?;
                f.iter_mut().for_each(|v| *v = new.one());
                fresh = Some(f);
                        stay = Stay::All;
                    }
                    22 => {
                        what = "clone_from";
                        gauge(judge, what, || (*a).clone_from(&b))?;
                a.iter_mut().for_each(|v| *v = new.one());
                    }
                    23 => {
                        what = "reading";
                        stay = Stay::All;
                        let probe = E::mk(src.int(40) as u32);
                        gauge(judge, what, || {
                            let mut h = Sum::default();
                            a.hash(&mut h);
                            let mut n = h.finish() as usize & 1;
                            n += (*a == *b) as usize + ((*a).cmp(&*b).is_lt() as usize);
                            n += a.iter().rev().filter(|v| v.uid() > 3).count() + a.len() + a.is_full() as usize;
                            n += $search(&*a, &probe);
                            n += a.first().is_some() as usize + a.last().is_some() as usize;
                            n
                        })?;
                        if !zst {
                            ctx.nontrivial |= len > 1;
                        }
                    }
                    24 => {
                        what = "collect and consume";
                        let v: Feed<E> = new.feed(src.upto(N));
                        let n = v.len();
                        let take = src.upto(n);
                        let k = gauge(judge, what, || {
                            let c: C<E, N> = v.collect();
                            let mut it = c.into_iter();
                            let mut k = 0;
                            for _ in 0..take {
                                k += it.next_back().is_some() as usize;
                            }
                            k
                        })?;
                        ensure!(k == take, "{}: consumed {} of {}", ty, k, take);
                        stay = Stay::All;
                    }
                    25 if N >= 2 => {
                        what = "new, unit, pair, collect_from";
                        let mut v: Vec<E> = new.many(3);
                        let mut w: Feed<E> = new.feed(N);
                        let k = src.int(4);
                        fresh = Some(gauge(judge, what, || match k {
                            0 => C::new(),
                            1 => C::unit(v.pop().unwrap()),
                            2 => C::pair(v.pop().unwrap(), v.pop().unwrap()),
                            _ => C::collect_from(&mut w, N - 1),
                        })?);
                        stay = Stay::All;
                    }
                    26 if len > 0 => {
                        what = "editing";
                        let (i, j) = (src.upto(len - 1), src.upto(len - 1));
                        let v: Vec<E> = new.many(len);
                        gauge(judge, what, || {
                            $edit(&mut *a, i, j);
                            for (x, v) in a.iter_mut().zip(v) {
                                *x = v;
                            }
                        })?;
                        let now = located(&*a);
                        ensure!(judge == Judge::Inside || now.iter().zip(&before).all(|(x, y)| x.1 == y.1) && now.len() == before.len(), "{}: editing in place moved the storage", ty);
                    }
                    27 => {
                        what = "moving the container";
                        a = travel(a, src.int(5), &format!("{} moved", ty))?;
                        ctx.label("moved in memory");
                        stay = Stay::All;
                    }
                    _ => {
                        s[x] = Some(a);
                        s[1 - x] = Some(b);
                        continue;
                    }
                }
                tr!(ctx, "{} on #{} ({} items; other {})", what, x, len, blen);
                let label = format!("{}: {} on {} items", ty, what, len);
                if judge == Judge::Inside {
                    inside(&*a, &label)?;
                    inside(&*b, &label)?;
                    ctx.nontrivial |= len > 1 && !zst;
                } else if !zst {
                    let after = located(&*a);
                    still(&before, &after, stay, &label)?;
                    // whatever is left in the other container was not asked to move
                    still(&before_b, &located(&*b), Stay::All, &format!("{} (the other container)", label))?;
                    ctx.nontrivial |= matches!(stay, Stay::All | Stay::Side(_)) && len > 1;
                }
                if a.len() == 0 {
                    next_streak = None;
                }
                streak[x] = next_streak;
                if b.len() == 0 || b.len() != blen {
                    streak[1 - x] = None;
                }
                if let Some(f) = fresh {
                    let f = Box::new(f);
                    inside(&*f, &label)?;
                    if src.flag(1, 2) {
                        b = f;
                        streak[1 - x] = None;
                    }
                }
                s[x] = Some(a);
                s[1 - x] = Some(b);
            }
            Ok(())
        }
    };
}
seq_case!(
    chunk_case,
    Chunk,
    true,
    |c: &mut Chunk<E, N>, back: bool| Some(if back { c.pop_back() } else { c.pop_front() }),
    |c: &mut Chunk<E, N>, i, v| Some(c.set(i, v)),
    |c: &mut Chunk<E, N>, i, j| {
        c.swap(i, j);
        c.as_mut_slice().reverse();
        c.sort_unstable();
    },
    |c: &Chunk<E, N>, p: &E| c.binary_search(p).is_ok() as usize
);
#[cfg(feature = "rb")]
seq_case!(
    ring_case,
    RingBuffer,
    false,
    |c: &mut RingBuffer<E, N>, back: bool| if back { c.pop_back() } else { c.pop_front() },
    |c: &mut RingBuffer<E, N>, i, v| ArrayMut::set(c, i, v),
    |c: &mut RingBuffer<E, N>, i, j| {
        ArrayMut::swap(c, i, j);
        let n = c.len();
        let mut s = c.slice_mut(..n);
        if let Some(x) = s.get_mut(n / 2) {
            let v = x.clone();
            *x = v;
        }
    },
    |c: &RingBuffer<E, N>, p: &E| {
        let n = c.len();
        let s = c.slice(n / 2..);
        s.binary_search(p).is_ok() as usize + s.iter().count() + (s == c.slice(..)) as usize
    }
);

#[inline(never)]
fn inline_case<E: Thing, T: 'static>(judge: Judge, src: &mut Src, ctx: &mut Ctx) -> Res {
    type C<E, T> = InlineArray<E, T>;
    let cap = C::<E, T>::CAPACITY.min(60);
    let ty = format!("InlineArray<{}, {}>", E::NAME, std::any::type_name::<T>());
    tr!(ctx, "{}", ty);
    let mut new = Uids(0);
    let zst = size_of::<E>() == 0;
    let mut s = [Some(Box::new(C::<E, T>::new())), Some(Box::new(C::<E, T>::new()))];
    let mut done = 0;
    while src.more(done, 100, 18) {
        done += 1;
        let x = src.int(2);
        let mut a = s[x].take().expect("a container");
        let mut b = s[1 - x].take().expect("a container");
        let before = located(&*a);
        let len = before.len();
        let room = cap - len.min(cap);
        ctx.label_if(room == 0 && cap > 0, "on a full container");
        let what;
        let mut stay = Stay::Free;
        let mut fresh = None;
        match src.weighted(&[14, 6, 4, 4, 4, 2, 3, 1, 3, 3, 4, 1, 2, 2]) {
            0 if room > 0 => {
                what = "push";
                let v = new.one();
                gauge(judge, what, || a.push(v))?;
                stay = Stay::All;
            }
            1 => {
                what = "pop";
                let _v = gauge(judge, what, || a.pop())?;
                stay = Stay::All;
            }
            2 if room > 0 => {
                what = "insert";
                let v = new.one();
                let i = src.upto(len);
                gauge(judge, what, || a.insert(i, v))?;
                stay = Stay::Before(i);
                ctx.label_if(i > 0 && i < len, "insert/remove in the middle");
            }
            3 if len > 0 => {
                what = "remove";
                let i = src.upto(len - 1);
                let _v = gauge(judge, what, || a.remove(i))?;
                stay = Stay::Before(i);
                ctx.label_if(i > 0 && i + 1 < len, "insert/remove in the middle");
            }
            4 => {
                what = "split_off";
                let i = src.upto(len);
                fresh = Some(gauge(judge, what, || a.split_off(i))?);
                stay = Stay::All;
            }
            5 => {
                what = "extend";
                let v: Feed<E> = new.feed(src.upto(room));
                gauge(judge, what, || a.extend(v))?;
            }
            6 => {
                what = "drain";
                let n = src.upto(len);
                let k = gauge(judge, what, || {
                    let mut d = a.drain();
                    let mut k = 0;
                    for _ in 0..n {
                        k += d.next().is_some() as usize;
                    }
                    k
                })?;
                ensure!(k == n, "{}: drain gave {} of {}", ty, k, n);
            }
            7 => {
                what = "clear";
                gauge(judge, what, || a.clear())?;
            }
            8 => {
                what = "clone";
                let mut f = gauge(judge, what, || (*a).clone())?;
                f.iter_mut().for_each(|v| *v = new.one());
                fresh = Some(f);
                stay = Stay::All;
            }
            9 => {
                what = "reading";
                let probe = E::mk(src.int(40) as u32);
                gauge(judge, what, || {
                    let mut h = Sum::default();
                    a.hash(&mut h);
                    let mut n = h.finish() as usize & 1;
                    n += (*a == *b) as usize + ((*a).cmp(&*b).is_lt() as usize);
                    n += a.iter().filter(|v| v.uid() > 3).count() + a.len() + a.is_full() as usize;
                    n + a.binary_search(&probe).is_ok() as usize
                })?;
                stay = Stay::All;
            }
            10 => {
                what = "moving the container";
                a = travel(a, src.int(5), &format!("{} moved", ty))?;
                ctx.label("moved in memory");
                stay = Stay::All;
            }
            11 => {
                what = "collect and consume";
                let v: Feed<E> = new.feed(src.upto(cap));
                let take = src.upto(v.len());
                let k = gauge(judge, what, || {
                    let c: C<E, T> = v.collect();
                    let mut it = c.into_iter();
                    let mut k = 0;
                    for _ in 0..take {
                        k += it.next().is_some() as usize;
                    }
                    k
                })?;
                ensure!(k == take, "{}: consumed {} of {}", ty, k, take);
                stay = Stay::All;
            }
            12 if len > 0 => {
                what = "editing";
                let (i, j) = (src.upto(len - 1), src.upto(len - 1));
                let v = new.one();
                gauge(judge, what, || {
                    a.swap(i, j);
                    a.reverse();
                    a.sort_unstable();
                    a[i] = v;
                })?;
                let now = located(&*a);
                ensure!(judge == Judge::Inside || now.len() == before.len() && now.iter().zip(&before).all(|(x, y)| x.1 == y.1), "{}: editing in place moved the storage", ty);
            }
            13 if len <= 64 => {
                what = "conversion to a chunk";
                let drained = src.flag(1, 2);
                let old = if drained { None } else { Some(*std::mem::replace(&mut a, Box::new(C::new()))) };
                let c = gauge(judge, what, || match old {
                    None => Chunk::<E, 64>::from(&mut *a),
                    Some(old) => Chunk::<E, 64>::from(old),
                })?;
                let c = Box::new(c);
                let got = uids(&inside(&*c, what)?);
                ensure!(got == uids(&before), "{}: {} gives {:?}, expected {:?}", ty, what, got, uids(&before));
            }
            _ => {
                s[x] = Some(a);
                s[1 - x] = Some(b);
                continue;
            }
        }
        tr!(ctx, "{} on #{} ({} items)", what, x, len);
        let label = format!("{}: {} on {} items", ty, what, len);
        if judge == Judge::Inside {
            inside(&*a, &label)?;
            inside(&*b, &label)?;
            ctx.nontrivial |= len > 1 && !zst;
        } else if !zst {
            still(&before, &located(&*a), stay, &label)?;
            ctx.nontrivial |= matches!(stay, Stay::All | Stay::Before(_)) && len > 1;
        }
        if let Some(f) = fresh {
            let f = Box::new(f);
            inside(&*f, &label)?;
            if src.flag(1, 2) {
                b = f;
            }
        }
        s[x] = Some(a);
        s[1 - x] = Some(b);
    }
    Ok(())
}

#[inline(never)]
fn sparse_case<E: Thing, const N: usize>(judge: Judge, src: &mut Src, ctx: &mut Ctx) -> Res
where
    BitsImpl<N>: Bits,
{
    type C<E, const N: usize> = SparseChunk<E, N>;
    let ty = format!("SparseChunk<{}, {}>", E::NAME, N);
    tr!(ctx, "{}", ty);
    let mut new = Uids(0);
    let zst = size_of::<E>() == 0;
    let mut s = [Some(Box::new(C::<E, N>::new())), Some(Box::new(C::<E, N>::new()))];
    let mut done = 0;
    while src.more(done, 100, 20) {
        done += 1;
        let x = src.int(2);
        let mut a = s[x].take().expect("a container");
        let mut b = s[1 - x].take().expect("a container");
        let before = located(&*a);
        let len = before.len();
        ctx.label_if(len == N, "on a full container");
        let what;
        let mut stay = Stay::All;
        let mut fresh = None;
        match src.weighted(&[20, 5, 3, 3, 3, 1, 3, 3, 1, 1, 2]) {
            0 => {
                what = "insert";
                let v = new.one();
                let i = src.upto(N - 1);
                let old = a.get(i).map(|x| x as *const E as usize);
                let _v = gauge(judge, what, || a.insert(i, v))?;
                let now = a.get(i).map(|x| x as *const E as usize);
                ensure!(old.is_none() || judge == Judge::Inside || now == old, "{}: replacing index {} put the item elsewhere", ty, i);
            }
            1 => {
                what = "remove";
                let i = src.upto(N - 1);
                let _v = gauge(judge, what, || a.remove(i))?;
            }
            2 => {
                what = "pop";
                let _v = gauge(judge, what, || a.pop())?;
            }
            3 => {
                what = "reading";
                gauge(judge, what, || {
                    let mut n = a.iter().count() + a.indices().count() + a.entries().count() + a.option_iter().count();
                    n += (*a == *b) as usize + a.len() + a.is_full() as usize + a.first_index().unwrap_or(0);
                    n
                })?;
            }
            4 => {
                what = "clone";
                let mut f = gauge(judge, what, || (*a).clone())?;
                f.iter_mut().for_each(|v| *v = new.one());
                fresh = Some(f);
            }
            5 => {
                what = "draining";
                let n = src.upto(N);
                let old = *std::mem::replace(&mut a, Box::new(C::new()));
                let by = src.int(3);
                gauge(judge, what, || match by {
                    0 => old.into_iter().take(n).count(),
                    1 => old.drain().take(n).count(),
                    _ => old.option_drain().take(n).flatten().count(),
                })?;
            }
            6 => {
                what = "moving the container";
                a = travel(a, src.int(5), &format!("{} moved", ty))?;
                ctx.label("moved in memory");
            }
            7 => {
                what = "writing in place";
                let v: Vec<E> = new.many(len);
                let by = src.flag(1, 2);
                gauge(judge, what, || {
                    let mut v = v.into_iter();
                    if by {
                        for x in a.iter_mut() {
                            *x = v.next().unwrap();
                        }
                    } else {
                        for x in a.option_iter_mut().flatten() {
                            *x = v.next().unwrap();
                        }
                    }
                })?;
                let now = located(&*a);
                ensure!(judge == Judge::Inside || now.len() == before.len() && now.iter().zip(&before).all(|(x, y)| x.1 == y.1), "{}: writing in place moved the storage", ty);
            }
            8 => {
                what = "collecting";
                let v: Vec<Option<E>> = (0..src.upto(N)).map(|i| if i % 3 == 1 { None } else { Some(new.one()) }).collect();
                fresh = Some(gauge(judge, what, || Feed(v.into_iter()).collect::<C<E, N>>())?);
            }
            9 => {
                what = "new, unit, pair";
                let mut v: Vec<E> = new.many(4);
                let (i, j) = (src.upto(N - 1), src.upto(N - 1));
                let k = src.int(3);
                fresh = Some(gauge(judge, what, || match k {
                    0 => C::new(),
                    1 => C::unit(i, v.pop().unwrap()),
                    _ => C::pair(i, v.pop().unwrap(), j, v.pop().unwrap()),
                })?);
            }
            _ => {
                what = "clone_from";
                gauge(judge, what, || (*a).clone_from(&b))?;
                a.iter_mut().for_each(|v| *v = new.one());
                stay = Stay::Free;
            }
        }
        tr!(ctx, "{} on #{} ({} items)", what, x, len);
        let label = format!("{}: {} on {} items", ty, what, len);
        if judge == Judge::Inside {
            inside(&*a, &label)?;
            inside(&*b, &label)?;
            ctx.nontrivial |= len > 1 && !zst;
        } else if !zst {
            still(&before, &located(&*a), stay, &label)?;
            ctx.nontrivial |= len > 1;
        }
        if let Some(f) = fresh {
            let f = Box::new(f);
            inside(&*f, &label)?;
            if src.flag(1, 2) {
                b = f;
            }
        }
        s[x] = Some(a);
        s[1 - x] = Some(b);
    }
    Ok(())
}

type CaseFn = fn(Judge, &mut Src, &mut Ctx) -> Res;
macro_rules! table {
    ($name:ident, $f:ident, [$($E:ty => [$($n:tt),*]),* $(,)?]) => {
        #[inline]
        pub fn $name(judge: Judge, src: &mut Src, ctx: &mut Ctx) -> Res {
            const T: &[CaseFn] = &[$($($f::<$E, $n>,)*)*];
            src.pick(T)(judge, src, ctx)
        }
    };
}
table!(chunk, chunk_case, [u64 => [1, 2, 3, 4, 5, 8, 33], u16 => [0, 3, 7, 20], Wide => [1, 4, 9], Odd => [3, 6], Niche => [2, 5], Shared => [4, 6], Words => [3, 10], Padded => [5], Nothing => [4]]);
#[cfg(feature = "rb")]
table!(ring, ring_case, [u64 => [1, 2, 3, 4, 5, 8, 33], u16 => [0, 3, 7, 20], Wide => [1, 4, 9], Odd => [3, 6], Niche => [2, 5], Shared => [4, 6], Words => [3, 10], Padded => [5], Nothing => [4]]);
table!(sparse, sparse_case, [u64 => [1, 2, 5, 8, 33, 65, 130], u16 => [3, 16, 64], Wide => [4, 9], Odd => [6, 128], Niche => [5, 20], Shared => [6, 70], Words => [3], Padded => [5], Nothing => [4]]);
table!(inline, inline_case, [
    u64 => [usize, [u64; 2], [u64; 5], [u64; 12], [u32; 9], [u8; 50]],
    u16 => [usize, [u64; 2], [u8; 21], [u64; 9]],
    Wide => [[crate::inlineworld::H32; 4], [u64; 9]],
    Odd => [[u64; 4], [u8; 30]],
    Niche => [[u64; 3], [u64; 8]],
    Shared => [[u64; 6]],
    Words => [[u64; 14]],
    Padded => [[u64; 6]],
    Nothing => [usize],
]);

//! Equality, order, hash and debug of containers against plain sequences.

use crate::engine::{Ctx, Res, Src};
use crate::{ensure, ensure_eq, tr, with_cap};
#[cfg(feature = "rb")]
use array_ops::HasLength;
use bitmaps::{Bits, BitsImpl};
#[cfg(feature = "rb")]
use sized_chunks::RingBuffer;
use sized_chunks::{Chunk, InlineArray, SparseChunk};
use std::borrow::{Borrow, BorrowMut};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

/// Items to compare: printed as `<n>`.
pub trait Item: Clone + PartialEq + PartialOrd + Debug + 'static {
    const NAME: &'static str;
    fn mk(k: u32) -> Self;
}
/// Compares like a float: 3 is unequal to and unordered with everything.
#[derive(Clone)]
pub struct F(u32);
impl Item for F {
    const NAME: &'static str = "partial order";
    fn mk(k: u32) -> Self {
        F(k)
    }
}
impl PartialEq for F {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0 && self.0 != 3
    }
}
impl PartialOrd for F {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        if self.0 == 3 || o.0 == 3 {
            None
        } else {
            Some(self.0.cmp(&o.0))
        }
    }
}
/// Totally ordered; equality ignores the second half of the value.
#[derive(Clone)]
pub struct G(u32, u32);
impl Item for G {
    const NAME: &'static str = "total order";
    fn mk(k: u32) -> Self {
        G(k, HIDDEN.with(|h| h.replace(h.get() + 1)))
    }
}
thread_local! {
    static HIDDEN: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
impl PartialEq for G {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for G {}
impl PartialOrd for G {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for G {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.cmp(&o.0)
    }
}
impl Hash for G {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl Item for u8 {
    const NAME: &'static str = "u8";
    fn mk(k: u32) -> Self {
        k as u8
    }
}
impl Item for () {
    const NAME: &'static str = "zero-sized";
    fn mk(_: u32) -> Self {}
}
impl Debug for F {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<{}>", self.0)
    }
}
impl Debug for G {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<{}>", self.0)
    }
}

/// Sensitive to how the input is cut into calls, as fast hashers are.
#[derive(Default)]
struct Calls(u64);
impl Hasher for Calls {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        self.0 = crate::engine::fnv(self.0 ^ 0x9E37_79B9 ^ b.len() as u64, b);
    }
}
fn hashes<T: Hash + ?Sized>(t: &T) -> (u64, u64) {
    let mut a = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut a);
    let mut b = Calls::default();
    t.hash(&mut b);
    (a.finish(), b.finish())
}

/// Two key sequences, usually close to each other.
fn draw_keys(src: &mut Src, cap_a: usize, cap_b: usize) -> (Vec<u32>, Vec<u32>) {
    if src.exhaustive() {
        let mut one = |cap: usize| {
            let n = src.upto(cap);
            (0..n).map(|_| [1, 2, 3][src.int(if cap > 2 { 2 } else { 3 })]).collect::<Vec<u32>>()
        };
        let a = one(cap_a);
        let b = one(cap_b);
        return (a, b);
    }
    let n = src.upto(cap_a);
    let nan = src.flag(1, 3);
    let mut key = |src: &mut Src| if nan { src.int(5) as u32 } else { [0, 1, 2, 4, 5][src.int(5)] };
    let a: Vec<u32> = (0..n).map(|_| key(src)).collect();
    let mut b = a.clone();
    match src.weighted(&[4, 5, 2, 2, 2, 2, 2]) {
        0 => {}
        1 if n > 0 => {
            let i = src.int(n);
            b[i] = key(src);
        }
        2 if n > 0 => {
            b.remove(src.int(n));
        }
        3 => {
            let i = src.upto(n);
            b.insert(i, key(src));
        }
        4 => b.truncate(src.upto(n)),
        5 if n > 1 => {
            let (i, j) = (src.int(n), src.int(n));
            b.swap(i, j);
        }
        _ => {
            let k = src.upto(cap_b);
            b = (0..k).map(|_| key(src)).collect();
        }
    }
    b.truncate(cap_b);
    (a, b)
}
fn mk<E: Item>(k: &[u32]) -> Vec<E> {
    k.iter().map(|k| E::mk(*k)).collect()
}
fn note(ctx: &mut Ctx, a: &[u32], b: &[u32], eq: bool) {
    ctx.nontrivial = !a.is_empty() && !b.is_empty();
    ctx.label_if(eq && !a.is_empty(), "equal and not empty");
    ctx.label_if(!eq && a.len() == b.len(), "same length, different");
    ctx.label_if(a.len() != b.len() && (a.starts_with(b) || b.starts_with(a)), "one a prefix of the other");
    ctx.label_if(a == b && !eq, "incomparable item");
}
macro_rules! eqs {
    ($x:expr, $y:expr, $want:expr, $what:expr, $n:literal) => {
        ensure!(($x == $y) == $want && ($x != $y) == !$want, "{}: {} gives == {} and != {}, expected equality {}", $what, $n, $x == $y, $x != $y, $want)
    };
}
/// The items printed, in order.
fn printed(s: &str) -> Vec<u32> {
    let mut v = vec![];
    let mut rest = s;
    while let Some(i) = rest.find('<') {
        rest = &rest[i + 1..];
        if let Some(j) = rest.find('>') {
            if let Ok(n) = rest[..j].parse() {
                v.push(n)
            }
        }
    }
    v
}
fn debugs<E: Item, C: Debug + ?Sized>(c: &C, keys: &[u32], what: &str) -> Res {
    if E::NAME == "u8" || E::NAME == "zero-sized" {
        return Ok(());
    }
    for s in [format!("{:?}", c), format!("{:#?}", c), format!("{:4?}", c)] {
        ensure!(printed(&s) == keys, "{}: printed as {}", what, s);
    }
    Ok(())
}

// Chunks and inline arrays: everything a slice can be compared with ---------

fn chunk_of<E: Item, const N: usize>(v: &[E], src: &mut Src) -> Chunk<E, N> {
    let off = src.upto(N - v.len());
    let mut c = Chunk::new();
    for _ in 0..off {
        c.push_back(E::mk(9));
    }
    for x in v {
        c.push_back(x.clone());
    }
    c.drop_left(off);
    c
}
fn inline_of<E: Item, T>(v: &[E]) -> InlineArray<E, T> {
    let mut c = InlineArray::new();
    for x in v {
        c.push(x.clone());
    }
    c
}
fn views<E: Item, C: Borrow<[E]> + BorrowMut<[E]> + AsRef<[E]> + AsMut<[E]> + std::ops::DerefMut<Target = [E]>>(c: &mut C, k: usize, what: &str) -> Res {
    let at = (&**c).as_ptr() as usize;
    ensure_eq!((&**c).len(), k, "{}: deref", what);
    let others: [(usize, usize); 5] = [
        { let s: &[E] = (*c).borrow(); (s.as_ptr() as usize, s.len()) },
        { let s: &[E] = (*c).as_ref(); (s.as_ptr() as usize, s.len()) },
        { let s: &mut [E] = (*c).borrow_mut(); (s.as_ptr() as usize, s.len()) },
        { let s: &mut [E] = (*c).as_mut(); (s.as_ptr() as usize, s.len()) },
        { let s: &mut [E] = &mut **c; (s.as_ptr() as usize, s.len()) },
    ];
    for o in others {
        ensure!(o == (at, k), "{}: the slice views disagree: {:?} and {:?}", what, o, (at, k));
    }
    Ok(())
}
/// The comparison operators say what `partial_cmp` says.
fn ops<T: PartialOrd>(x: &T, y: &T, po: Option<Ordering>, what: &str, of: &str) -> Res {
    use Ordering::*;
    ensure_eq!(x.partial_cmp(y), po, "{}: partial_cmp of {}", what, of);
    ensure_eq!(
        (x < y, x <= y, x > y, x >= y),
        (po == Some(Less), matches!(po, Some(Less | Equal)), po == Some(Greater), matches!(po, Some(Greater | Equal))),
        "{}: the operators <, <=, >, >= of {}",
        what,
        of
    );
    ensure_eq!(y.partial_cmp(x), po.map(Ordering::reverse), "{}: partial_cmp of {}, reversed", what, of);
    Ok(())
}
fn total<T: Ord>(x: &T, y: &T, want: Ordering, what: &str, of: &str) -> Res {
    ensure_eq!(x.cmp(y), want, "{}: cmp of {}", what, of);
    ensure_eq!(y.cmp(x), want.reverse(), "{}: cmp of {}, reversed", what, of);
    ensure_eq!(x.cmp(x), Ordering::Equal, "{}: cmp of {} with itself", what, of);
    ops(x, y, Some(want), what, of)?;
    // of two equal ones, `max` gives the second and `min` the first
    let (hi, lo) = (x.max(y), x.min(y));
    ensure!(
        std::ptr::eq(hi, if want == Ordering::Greater { x } else { y }) && std::ptr::eq(lo, if want == Ordering::Greater { y } else { x }),
        "{}: max or min of {}",
        what,
        of
    );
    Ok(())
}
/// A value compared with itself: with partially ordered items it need not be equal.
fn own<T: PartialOrd>(x: &T, eq: bool, po: Option<Ordering>, what: &str, of: &str) -> Res {
    eqs!(*x, *x, eq, what, "a container with itself");
    ops(x, x, po, what, of)
}
fn flat_case<E: Item, const N: usize, const K: usize>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (ka, kb) = draw_keys(src, N, K);
    src.shard_here()?;
    let (a, b): (Vec<E>, Vec<E>) = (mk(&ka), mk(&kb));
    let (eq, po) = (a == b, a.partial_cmp(&b));
    note(ctx, &ka, &kb, eq);
    let what = format!("{:?} and {:?} ({}) in Chunk<{}>, Chunk<{}>", ka, kb, E::NAME, N, K);
    tr!(ctx, "{}", what);
    let mut x: Chunk<E, N> = chunk_of(&a, src);
    let mut y: Chunk<E, K> = chunk_of(&b, src);
    views::<E, _>(&mut x, a.len(), &what)?;
    views::<E, _>(&mut y, b.len(), &what)?;
    eqs!(x, y, eq, what, "chunk and chunk");
    eqs!(y, x, b == a, what, "chunk and chunk, reversed");
    eqs!(x, b, eq, what, "chunk and vector");
    eqs!(y, a, b == a, what, "chunk and vector");
    if let Ok(arr) = <Vec<E> as TryInto<[E; 2]>>::try_into(b.clone()) {
        eqs!(x, arr, eq, what, "chunk and array");
    }
    debugs::<E, _>(&x, &ka, "chunk")?;
    // the same storage on both sides
    #[allow(clippy::eq_op)]
    let (own_eq, own_po) = (a == a, a.partial_cmp(&a));
    ctx.label_if(!own_eq, "not equal to itself");
    own(&x, own_eq, own_po, &what, "a chunk and itself")?;
    eqs!(x, &x[..], own_eq, what, "chunk and its own slice");
    if !a.is_empty() {
        eqs!(x, &x[1..], false, what, "chunk and its own tail");
        eqs!(x, &x[..a.len() - 1], false, what, "chunk and its own beginning");
    }
    if b.len() <= N {
        let z: Chunk<E, N> = chunk_of(&b, src);
        eqs!(x, z, eq, what, "chunks of one capacity");
        ops(&x, &z, po, &what, "chunks")?;
    }
    // the same in inline arrays
    type Ha = [u64; 12];
    type Hb = [u64; 7];
    if a.len() <= InlineArray::<E, Ha>::CAPACITY && b.len() <= InlineArray::<E, Ha>::CAPACITY {
        let mut p: InlineArray<E, Ha> = inline_of(&a);
        let q: InlineArray<E, Ha> = inline_of(&b);
        views::<E, _>(&mut p, a.len(), "inline array")?;
        eqs!(p, q, eq, what, "inline arrays");
        eqs!(p, b, eq, what, "inline array and vector");
        eqs!(p, y, eq, what, "inline array and chunk");
        eqs!(y, p, b == a, what, "chunk and inline array");
        ops(&p, &q, po, &what, "inline arrays")?;
        debugs::<E, _>(&p, &ka, "inline array")?;
        own(&p, own_eq, own_po, &what, "an inline array and itself")?;
        eqs!(p, &p[..], own_eq, what, "inline array and its own slice");
        if !a.is_empty() {
            eqs!(p, &p[1..], false, what, "inline array and its own tail");
            eqs!(p, &p[..a.len() - 1], false, what, "inline array and its own beginning");
        }
        if b.len() <= InlineArray::<E, Hb>::CAPACITY {
            let r: InlineArray<E, Hb> = inline_of(&b);
            eqs!(p, r, eq, what, "inline arrays of two hosts");
            eqs!(r, p, b == a, what, "inline arrays of two hosts");
        }
    }
    Ok(())
}
fn flat_total<E: Item + Ord + Hash, const N: usize>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (ka, kb) = draw_keys(src, N, N);
    src.shard_here()?;
    let (a, b): (Vec<E>, Vec<E>) = (mk(&ka), mk(&kb));
    let want = a.cmp(&b);
    note(ctx, &ka, &kb, want == Ordering::Equal);
    let what = format!("{:?} and {:?} ({}) in Chunk<{}>", ka, kb, E::NAME, N);
    tr!(ctx, "{}", what);
    let x: Chunk<E, N> = chunk_of(&a, src);
    let y: Chunk<E, N> = chunk_of(&b, src);
    total(&x, &y, want, &what, "containers")?;
    ensure!(hashes(&x) == hashes(&a[..]), "{}: the chunk hashes differently from the slice", what);
    ensure!(want != Ordering::Equal || hashes(&x) == hashes(&y), "{}: equal chunks hash differently", what);
    let z = [x.clone(), y.clone()];
    ensure_eq!(hashes(&z[..]), hashes(&[&a[..], &b[..]][..]), "{}: hash of a sequence of chunks", what);
    type H = [u64; 12];
    if a.len() <= InlineArray::<E, H>::CAPACITY && b.len() <= InlineArray::<E, H>::CAPACITY {
        let p: InlineArray<E, H> = inline_of(&a);
        let q: InlineArray<E, H> = inline_of(&b);
        total(&p, &q, want, &what, "inline arrays")?;
        ensure!(hashes(&p) == hashes(&a[..]), "{}: the inline array hashes differently from the slice", what);
        ensure!(want != Ordering::Equal || hashes(&p) == hashes(&q), "{}: equal inline arrays hash differently", what);
    }
    Ok(())
}

// Ring buffers and their slices ---------------------------------------------

#[cfg(feature = "rb")]
fn ring_of<E: Item, const N: usize>(v: &[E], src: &mut Src) -> RingBuffer<E, N> {
    let off = if N == 0 { 0 } else { src.upto(N - 1) };
    let mut c = RingBuffer::new();
    for _ in 0..off {
        c.push_back(E::mk(9));
        c.pop_front();
    }
    for x in v {
        c.push_back(x.clone());
    }
    c
}
/// A buffer with the items somewhere in the middle: (buffer, start of window).
#[cfg(feature = "rb")]
fn window_of<E: Item, const N: usize>(v: &[E], src: &mut Src) -> (RingBuffer<E, N>, usize) {
    let before = src.upto(N - v.len());
    let after = src.upto(N - v.len() - before);
    let mut w: Vec<E> = (0..before).map(|i| E::mk(i as u32 % 3)).collect();
    w.extend(v.iter().cloned());
    w.extend((0..after).map(|i| E::mk(i as u32 % 3)));
    (ring_of(&w, src), before)
}
#[cfg(feature = "rb")]
fn ring_case<E: Item, const N: usize>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (ka, kb) = draw_keys(src, N, N);
    src.shard_here()?;
    let (a, b): (Vec<E>, Vec<E>) = (mk(&ka), mk(&kb));
    let (eq, po) = (a == b, a.partial_cmp(&b));
    note(ctx, &ka, &kb, eq);
    let what = format!("{:?} and {:?} ({}) in RingBuffer<{}>", ka, kb, E::NAME, N);
    tr!(ctx, "{}", what);
    let mut x: RingBuffer<E, N> = ring_of(&a, src);
    let mut y: RingBuffer<E, N> = ring_of(&b, src);
    eqs!(x, y, eq, what, "buffers");
    eqs!(y, x, b == a, what, "buffers, reversed");
    eqs!(x, b, eq, what, "buffer and vector");
    if b.len() <= 8 {
        let z: Chunk<E, 8> = chunk_of(&b, src);
        eqs!(x, z, eq, what, "buffer and chunk");
    }
    ops(&x, &y, po, &what, "buffers")?;
    debugs::<E, _>(&x, &ka, "ring buffer")?;
    // the same storage on both sides
    {
        #[allow(clippy::eq_op)]
        let (own_eq, own_po) = (a == a, a.partial_cmp(&a));
        ctx.label_if(!own_eq, "not equal to itself");
        own(&x, own_eq, own_po, &what, "a buffer and itself")?;
        let s = x.slice(..);
        own(&s, own_eq, own_po, &what, "a slice and itself")?;
        eqs!(x, s, own_eq, what, "buffer and a slice of all of it");
        eqs!(s, x, own_eq, what, "slice of all of a buffer and the buffer");
        // two windows of one buffer
        let n = a.len();
        let mut pairs = vec![];
        if !src.exhaustive() {
            let f = src.upto(n);
            let ft = f + src.upto(n - f);
            let g = if src.flag(1, 3) { f } else { src.upto(n) };
            let gt = if src.flag(1, 2) { (g + ft - f).min(n) } else { g + src.upto(n - g) };
            pairs.push((f, ft, g, gt))
        } else if b.is_empty() {
            // all of them, once for every buffer
            for f in 0..=n {
                for ft in f..=n {
                    for g in 0..=n {
                        for gt in g..=n {
                            pairs.push((f, ft, g, gt))
                        }
                    }
                }
            }
        }
        for (f, ft, g, gt) in pairs {
            let (u, v) = (&a[f..ft], &a[g..gt]);
            let (s, t) = (x.slice(f..ft), x.slice(g..gt));
            ctx.label_if(f < ft && f == g && ft == gt, "same window twice");
            ctx.label_if(f != g && f.max(g) < ft.min(gt), "overlapping windows");
            let of = format!("{}, windows {}..{} and {}..{}", what, f, ft, g, gt);
            eqs!(s, t, u == v, of, "two windows of one buffer");
            ops(&s, &t, u.partial_cmp(v), &of, "two windows of one buffer")?;
            eqs!(s, x, u == &a[..], of, "window and its own buffer");
            eqs!(x, s, u == &a[..], of, "buffer and a window of it");
        }
    }
    {
        let own_eq = a.clone() == a;
        let own_po = a.partial_cmp(&a.clone());
        let s = x.slice_mut(..);
        own(&s, own_eq, own_po, &what, "a mutable slice and itself")?;
    }
    let (mut p, pa) = window_of::<E, N>(&a, src);
    let (mut q, qb) = window_of::<E, N>(&b, src);
    let (pe, qe) = (pa + a.len(), qb + b.len());
    ctx.label_if(p.len() > a.len() || q.len() > b.len(), "window inside a larger buffer");
    {
        let (s, t) = (p.slice(pa..pe), q.slice(qb..qe));
        eqs!(s, t, eq, what, "slices");
        eqs!(t, s, b == a, what, "slices, reversed");
        eqs!(s, b, eq, what, "slice and vector");
        eqs!(s, y, eq, what, "slice and buffer");
        eqs!(y, s, b == a, what, "buffer and slice");
        ops(&s, &t, po, &what, "slices")?;
        debugs::<E, _>(&s, &ka, "slice")?;
        let full = y.slice(..);
        eqs!(s, full, eq, what, "slice and full slice");
    }
    {
        let ym = y.slice_mut(..);
        let s = p.slice(pa..pe);
        eqs!(s, ym, eq, what, "slice and mutable slice");
        eqs!(ym, s, b == a, what, "mutable slice and slice");
        eqs!(x, ym, eq, what, "buffer and mutable slice");
        eqs!(ym, x, b == a, what, "mutable slice and buffer");
    }
    {
        let (s, t) = (p.slice_mut(pa..pe), q.slice_mut(qb..qe));
        eqs!(s, t, eq, what, "mutable slices");
        eqs!(s, b, eq, what, "mutable slice and vector");
        eqs!(s, y, eq, what, "mutable slice and buffer");
        ops(&s, &t, po, &what, "mutable slices")?;
        debugs::<E, _>(&s, &ka, "mutable slice")?;
        let xm = x.slice_mut(..);
        eqs!(xm, t, eq, what, "mutable slices, one full");
    }
    Ok(())
}
#[cfg(feature = "rb")]
fn ring_total<E: Item + Ord + Hash, const N: usize>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (ka, kb) = draw_keys(src, N, N);
    src.shard_here()?;
    let (a, b): (Vec<E>, Vec<E>) = (mk(&ka), mk(&kb));
    let want = a.cmp(&b);
    let eq = want == Ordering::Equal;
    note(ctx, &ka, &kb, eq);
    let what = format!("{:?} and {:?} ({}) in RingBuffer<{}>", ka, kb, E::NAME, N);
    tr!(ctx, "{}", what);
    let x: RingBuffer<E, N> = ring_of(&a, src);
    let y: RingBuffer<E, N> = ring_of(&b, src);
    total(&x, &y, want, &what, "containers")?;
    ensure!(!eq || hashes(&x) == hashes(&y), "{}: equal buffers hash differently", what);
    let (mut p, pa) = window_of::<E, N>(&a, src);
    let (mut q, qb) = window_of::<E, N>(&b, src);
    let (pe, qe) = (pa + a.len(), qb + b.len());
    {
        let (s, t) = (p.slice(pa..pe), q.slice(qb..qe));
        total(&s, &t, want, &what, "slices")?;
        ensure!(!eq || hashes(&s) == hashes(&t), "{}: equal slices hash differently", what);
    }
    {
        let (s, t) = (p.slice_mut(pa..pe), q.slice_mut(qb..qe));
        total(&s, &t, want, &what, "mutable slices")?;
        ensure!(!eq || hashes(&s) == hashes(&t), "{}: equal mutable slices hash differently", what);
    }
    Ok(())
}

// Sparse chunks ---------------------------------------------------------------

fn sparse_of<E: Item, const N: usize>(m: &BTreeMap<usize, u32>, src: &mut Src) -> SparseChunk<E, N>
where
    BitsImpl<N>: Bits,
{
    let mut c = SparseChunk::new();
    // leave stale values in slots that are not inhabited
    let stale = if src.exhaustive() { 2 } else { src.upto(4) };
    for j in 0..stale {
        let i = if src.exhaustive() { j % N } else { src.int(N) };
        c.insert(i, E::mk(7));
    }
    for i in 0..N {
        if !m.contains_key(&i) {
            c.remove(i);
        }
    }
    for (i, k) in m {
        c.insert(*i, E::mk(*k));
    }
    c
}
fn sparse_case<E: Item, const N: usize>(src: &mut Src, ctx: &mut Ctx) -> Res
where
    BitsImpl<N>: Bits,
{
    let mut a: BTreeMap<usize, u32> = BTreeMap::new();
    let mut b;
    if src.exhaustive() {
        for i in 0..N {
            let k = src.int(4) as u32;
            if k > 0 {
                a.insert(i, k);
            }
        }
        b = BTreeMap::new();
        for i in 0..N {
            let k = src.int(4) as u32;
            if k > 0 {
                b.insert(i, k);
            }
        }
    } else {
        let n = src.upto(N.min(12));
        let nan = src.flag(1, 3);
        let key = |src: &mut Src| if nan { src.int(5) as u32 } else { [0, 1, 2, 4, 5][src.int(5)] };
        for _ in 0..n {
            let i = src.int(N);
            a.insert(i, key(src));
        }
        b = a.clone();
        let idx: Vec<usize> = a.keys().copied().collect();
        match src.weighted(&[4, 4, 3, 3, 3]) {
            1 if !idx.is_empty() => {
                b.insert(idx[src.int(idx.len())], key(src));
            }
            2 if !idx.is_empty() => {
                b.remove(&idx[src.int(idx.len())]);
            }
            3 => {
                b.insert(src.int(N), key(src));
            }
            4 if !idx.is_empty() => {
                // same values, one of them elsewhere
                let v = b.remove(&idx[src.int(idx.len())]).unwrap();
                b.insert(src.int(N), v);
            }
            _ => {}
        }
    }
    src.shard_here()?;
    let am: BTreeMap<usize, E> = a.iter().map(|(i, k)| (*i, E::mk(*k))).collect();
    let bm: BTreeMap<usize, E> = b.iter().map(|(i, k)| (*i, E::mk(*k))).collect();
    let eq = am == bm;
    ctx.nontrivial = !a.is_empty() && !b.is_empty();
    ctx.label_if(eq && !a.is_empty(), "equal and not empty");
    ctx.label_if(!eq && a.len() == b.len(), "same length, different");
    ctx.label_if(a == b && !eq, "incomparable item");
    let what = format!("{:?} and {:?} ({}) in SparseChunk<{}>", a, b, E::NAME, N);
    tr!(ctx, "{}", what);
    let x: SparseChunk<E, N> = sparse_of(&a, src);
    let y: SparseChunk<E, N> = sparse_of(&b, src);
    eqs!(x, y, eq, what, "chunks");
    eqs!(y, x, bm == am, what, "chunks, reversed");
    #[allow(clippy::eq_op)]
    let own_eq = am == am;
    ctx.label_if(!own_eq, "not equal to itself");
    eqs!(x, x, own_eq, what, "a chunk and itself");
    #[cfg(feature = "std")]
    {
        eqs!(x, bm, eq, what, "chunk and ordered map");
        eqs!(y, am, bm == am, what, "chunk and ordered map");
        let h: std::collections::HashMap<usize, E> = bm.iter().map(|(i, v)| (*i, v.clone())).collect();
        eqs!(x, h, eq, what, "chunk and hash map");
        // indices the chunk does not have
        let mut far = am.clone();
        if let Some((i, v)) = am.iter().next() {
            far.remove(i);
            far.insert(N + *i, v.clone());
            eqs!(x, far, false, what, "chunk and ordered map reaching past its capacity");
            let h: std::collections::HashMap<usize, E> = far.into_iter().collect();
            eqs!(x, h, false, what, "chunk and hash map reaching past its capacity");
        }
    }
    let ks: Vec<u32> = a.values().copied().collect();
    debugs::<E, _>(&x, &ks, "sparse chunk")
}

fn caps(src: &Src, ctx: &Ctx) -> &'static [usize] {
    match (src.exhaustive(), ctx.thorough) {
        (true, false) => &[0, 1, 2, 3],
        (true, true) => &[0, 1, 2, 3, 4],
        _ => &[1, 2, 3, 4, 8, 11, 32, 8, 11, 70, 300],
    }
}
pub fn flat<E: Item>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cap = *src.pick(caps(src, ctx));
    macro_rules! go { ($($n:literal),*) => { match cap { $($n => flat_case::<E, $n, { $n / 2 + 2 }>(src, ctx),)* _ => unreachable!() } } }
    go!(0, 1, 2, 3, 4, 8, 11, 32, 70, 300)
}
pub fn flat_ord<E: Item + Ord + Hash>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cap = *src.pick(caps(src, ctx));
    with_cap!(cap, [0, 1, 2, 3, 4, 8, 11, 32, 70, 300], flat_total, [E], (src, ctx))
}
#[cfg(feature = "rb")]
pub fn ring<E: Item>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cap = *src.pick(caps(src, ctx));
    with_cap!(cap, [0, 1, 2, 3, 4, 8, 11, 32, 70, 300], ring_case, [E], (src, ctx))
}
#[cfg(feature = "rb")]
pub fn ring_ord<E: Item + Ord + Hash>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cap = *src.pick(caps(src, ctx));
    with_cap!(cap, [0, 1, 2, 3, 4, 8, 11, 32, 70, 300], ring_total, [E], (src, ctx))
}
pub fn sparse<E: Item>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let caps: &[usize] = if src.exhaustive() { &[1, 2, 3] } else { &[1, 3, 8, 32, 33, 64, 65, 128, 129, 200] };
    let cap = *src.pick(caps);
    with_cap!(cap, [1, 2, 3, 8, 32, 33, 64, 65, 128, 129, 200], sparse_case, [E], (src, ctx))
}

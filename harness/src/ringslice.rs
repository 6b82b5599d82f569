//! Slices of ring buffers: reading, writing, nesting, splitting, refusing.

use crate::elem::*;
use crate::engine::{Ctx, Res, Src};
use crate::fault::{self, catch};
use crate::mk::*;
use crate::seq::hash_of;
use crate::{bad, ensure, ensure_eq, tr, with_cap};
use array_ops::{Array, ArrayMut, HasLength};
use sized_chunks::ring_buffer::{Slice, SliceMut};
use sized_chunks::{Chunk, RingBuffer};
use std::ops::Bound;

type Rg = (Bound<usize>, Bound<usize>);

/// The window a range selects out of `len` items, if it is possible at all.
pub fn window(r: &Rg, len: usize) -> Option<(usize, usize)> {
    let a = match r.0 {
        Bound::Unbounded => 0,
        Bound::Included(a) => a,
        Bound::Excluded(a) => a.checked_add(1)?,
    };
    let b = match r.1 {
        Bound::Unbounded => len,
        Bound::Included(b) => b.checked_add(1)?,
        Bound::Excluded(b) => b,
    };
    if a <= b && b <= len {
        Some((a, b))
    } else {
        None
    }
}

/// Ranges which start after an index may be refused (they are not
/// implemented); where they are not, they are held to what they say.
fn open(r: &Rg) -> bool {
    matches!(r.0, Bound::Excluded(_))
}

/// A possible range, in one of its spellings.
fn draw_range(src: &mut Src, len: usize) -> Rg {
    let a = src.upto(len);
    let b = a + src.upto(len - a);
    let lo = if a == 0 && src.flag(1, 3) { Bound::Unbounded } else { Bound::Included(a) };
    let hi = match src.int(3) {
        0 if b == len => Bound::Unbounded,
        1 if b > 0 && b > a => Bound::Included(b - 1),
        _ => Bound::Excluded(b),
    };
    (lo, hi)
}
/// A number around and beyond the edges of a window of `len` in a buffer of `cap`.
fn edge(src: &mut Src, len: usize, cap: usize) -> usize {
    let list = [0, len, len + 1, cap, cap.saturating_add(1), usize::MAX, usize::MAX - 1, usize::MAX - len, usize::MAX / 2 + 1, len / 2, len.saturating_sub(1), usize::MAX - cap];
    list[src.int(list.len())]
}
fn wild_range(src: &mut Src, len: usize, cap: usize) -> Rg {
    let a = edge(src, len, cap);
    let lo = match src.weighted(&[7, 2, 3]) {
        0 => Bound::Included(a),
        1 => Bound::Unbounded,
        _ => Bound::Excluded(a),
    };
    let b = edge(src, len, cap);
    let hi = match src.int(3) {
        0 => Bound::Included(b),
        1 => Bound::Excluded(b),
        _ => Bound::Unbounded,
    };
    (lo, hi)
}

fn keys(m: &[M]) -> Vec<u32> {
    m.iter().map(|x| x.key).collect()
}
fn models<'a, E: Elem>(it: impl Iterator<Item = &'a E>) -> Vec<M> {
    it.map(|x| x.m()).collect()
}

macro_rules! look_fn {
    ($name:ident, $T:ident, $slicer:ident) => {
        /// Everything that can be read through the slice agrees with `m`.
        pub fn $name<'a, E: Elem, const N: usize>(sl: &$T<'a, E, N>, m: &[M], deep: bool, src: &mut Src, what: &str) -> Res {
            let len = m.len();
            ensure!(sl.len() == len, "{}: len() is {}, expected {}", what, sl.len(), len);
            ensure!(sl.is_empty() == (len == 0), "{}: is_empty() is {} with {} items", what, sl.is_empty(), len);
            let got = models(sl.iter());
            ensure!(got == m, "{}: iteration gives {:?}, expected {:?}", what, got, m);
            let _w = fault::within(sl.iter().filter_map(|x| x.id()));
            for (i, x) in m.iter().enumerate() {
                ensure_eq!(sl.get(i).map(|v| v.m()), Some(*x), "{}: get({})", what, i);
                ensure_eq!(sl[i].m(), *x, "{}: [{}]", what, i);
                ensure!(sl[i].intact(), "{}: [{}] is not a live item", what, i);
                // SAFETY: in bounds
                ensure_eq!(unsafe { sl.get_unchecked(i) }.m(), *x, "{}: get_unchecked({})", what, i);
            }
            ensure_eq!(sl.first().map(|v| v.m()), m.first().copied(), "{}: first()", what);
            ensure_eq!(sl.last().map(|v| v.m()), m.last().copied(), "{}: last()", what);
            for i in [len, len + 1, N, N.saturating_add(1), usize::MAX, usize::MAX - 1, usize::MAX - N, usize::MAX / 2 + 1] {
                if i >= len {
                    ensure!(sl.get(i).is_none(), "{}: get({}) is Some with {} items", what, i, len);
                }
            }
            let out = edge(src, len, N);
            if out >= len {
                let r = catch(|| sl[out].m());
                if let Ok(v) = r {
                    bad!("{}: [{}] gives {:?} although the slice has {} items", what, out, v, len)
                }
            }
            if !deep {
                return Ok(());
            }
            // mixed-direction iteration
            {
                let mut it = sl.iter();
                let (mut a, mut b) = (0, len);
                for step in 0..len + 1 {
                    ensure_eq!(it.size_hint(), (b - a, Some(b - a)), "{}: size_hint", what);
                    ensure_eq!(it.len(), b - a, "{}: iter len", what);
                    let back = src.flag(1, 2);
                    let want = if a == b {
                        None
                    } else if back {
                        b -= 1;
                        Some(m[b])
                    } else {
                        a += 1;
                        Some(m[a - 1])
                    };
                    let got = if back { it.next_back() } else { it.next() };
                    ensure_eq!(got.map(|x| x.m()), want, "{}: iteration step {}", what, step);
                }
                ensure_eq!(models(sl.into_iter()), m.to_vec(), "{}: into_iter", what);
            }
            // copies and comparisons
            let copy: RingBuffer<E, N> = sl.to_owned();
            ensure_eq!(models(copy.iter()), m.to_vec(), "{}: to_owned()", what);
            ensure!(copy.iter().all(|x| x.intact()), "{}: to_owned() holds an item that is not live", what);
            let v: Vec<E> = make_all(m);
            let off = if N == 0 { 0 } else { src.int(N.min(300)) };
            let mut turned: RingBuffer<E, N> = ring_at(m, off, 0);
            ensure!(*sl == v, "{}: != the Vec of the same items", what);
            ensure!(*sl == turned, "{}: != a ring buffer of the same items", what);
            ensure!(turned == *sl, "{}: a ring buffer of the same items != it", what);
            ensure!(*sl == turned.slice(..) && turned.slice(..) == *sl, "{}: != a slice of the same items", what);
            ensure!(hash_of(sl) == hash_of(&turned) && hash_of(sl) == hash_of(&turned.slice(..)), "{}: hash differs from an equal buffer's", what);
            ensure_eq!(sl.cmp(sl), std::cmp::Ordering::Equal, "{}: cmp with itself", what);
            {
                let tm = turned.slice_mut(..);
                ensure!(*sl == tm, "{}: != a mutable slice of the same items", what);
                ensure!(hash_of(sl) == hash_of(&tm), "{}: hash differs from an equal mutable slice's", what);
            }
            let text = format!("{:?}", sl);
            let list = format!("{:?}", v);
            ensure!(text.ends_with(&list), "{}: debug is {:?}, expected to end with {:?}", what, text, list);
            // a different sequence
            let mut o: Vec<M> = m.to_vec();
            let kind = src.int(4);
            match kind {
                0 if len < N => o.push(E::norm(M { key: 1, uid: 9_000_000 })),
                1 if len > 0 => {
                    o.pop();
                }
                2 if len > 0 => {
                    let i = src.int(len);
                    o[i] = E::norm(M { key: o[i].key ^ 1, uid: 9_000_001 });
                }
                _ if len > 1 => {
                    let i = src.int(len - 1);
                    o.swap(i, i + 1);
                }
                _ => {}
            }
            let same = keys(&o) == keys(m);
            let ov: Vec<E> = make_all(&o);
            let mut ob: RingBuffer<E, N> = ring_at(&o, off, 1);
            ensure_eq!(*sl == ov, same, "{}: == {:?}", what, ov);
            ensure_eq!(*sl == ob, same, "{}: == {:?}", what, ob);
            ensure_eq!(ob == *sl, same, "{}: {:?} ==", what, ob);
            ensure_eq!(*sl == ob.slice(..), same, "{}: == slice of {:?}", what, ob);
            {
                let cmp = keys(m).cmp(&keys(&o));
                let got = sl.cmp(&ob.$slicer(..));
                ensure_eq!(sl.partial_cmp(&ob.$slicer(..)), Some(got), "{}: partial_cmp with {:?}", what, ov);
                ensure_eq!(got, cmp, "{}: cmp with {:?}", what, ov);
            }
            ensure_eq!(sl.contains(&E::make(E::norm(M { key: 3, uid: 0 }))), m.iter().any(|x| x.key == E::norm(M { key: 3, uid: 0 }).key), "{}: contains", what);
            Ok(())
        }
    };
}
look_fn!(look, Slice, slice);
look_fn!(look_mut, SliceMut, slice_mut);

struct Walk<'c> {
    ctx: &'c mut Ctx,
    uid: u32,
    keys: usize,
    max: usize,
}

fn read_tree<E: Elem, const N: usize>(sl: Slice<'_, E, N>, m: &[M], src: &mut Src, w: &mut Walk<'_>, depth: usize) -> Res {
    look(&sl, m, src.flag(1, 2), src, "slice")?;
    if depth >= w.max {
        return Ok(());
    }
    match src.int(6) {
        0 | 1 => {
            let r = draw_range(src, m.len());
            let (a, b) = window(&r, m.len()).unwrap();
            tr!(w.ctx, "{}slice({:?}) of {} items", "  ".repeat(depth), r, m.len());
            let sub = match catch(|| sl.clone().slice(r)) {
                Ok(s) => s,
                Err(e) => bad!("slice({:?}) of a slice of {} items panicked: {}", r, m.len(), e),
            };
            w.ctx.label_if(b - a > 0, "nested non-empty slice");
            read_tree(sub, &m[a..b], src, w, depth + 1)?;
            look(&sl, m, false, src, "the outer slice")
        }
        2 | 3 => {
            let i = src.upto(m.len());
            tr!(w.ctx, "{}split_at({}) of {} items", "  ".repeat(depth), i, m.len());
            let (l, r) = match catch(|| sl.split_at(i)) {
                Ok(x) => x,
                Err(e) => bad!("split_at({}) of a slice of {} items panicked: {}", i, m.len(), e),
            };
            look(&r, &m[i..], false, src, "right half")?;
            w.ctx.label_if(i > 0 && i < m.len(), "split in the middle");
            read_tree(l, &m[..i], src, w, depth + 1)?;
            read_tree(r, &m[i..], src, w, depth + 1)
        }
        4 => {
            let r = wild_range(src, m.len(), N);
            refuse_read(&sl, m, r)?;
            read_tree(sl, m, src, w, depth + 1)
        }
        _ => Ok(()),
    }
}

fn refuse_read<E: Elem, const N: usize>(sl: &Slice<'_, E, N>, m: &[M], r: Rg) -> Res {
    let want = window(&r, m.len());
    match (catch(|| sl.clone().slice(r)), want) {
        (Ok(s), Some((a, b))) => ensure_eq!(models(s.iter()), m[a..b].to_vec(), "slice({:?}) of {} items", r, m.len()),
        (Err(e), Some(_)) if !open(&r) => bad!("slice({:?}) of a slice of {} items panicked: {}", r, m.len(), e),
        (Ok(s), None) => bad!("slice({:?}) of a slice of {} items must be refused, gave {} items", r, m.len(), s.len()),
        (Err(_), _) => {}
    }
    Ok(())
}

/// Writes through the slice, mirrored in the model.
fn scribble<E: Elem, const N: usize>(sl: &mut SliceMut<'_, E, N>, m: &mut [M], src: &mut Src, w: &mut Walk<'_>) -> Res {
    let len = m.len();
    let _w = fault::within(sl.iter().filter_map(|x| x.id()));
    w.uid += 1;
    let v = E::norm(M { key: src.int(w.keys) as u32, uid: w.uid });
    let how = src.int(11);
    if len == 0 && how < 8 {
        return Ok(());
    }
    let i = if how < 6 { src.upto(len - 1) } else { 0 };
    tr!(w.ctx, "    write {} at {} of {}: {:?}", how, i, len, v);
    match how {
        0 => {
            sl[i] = E::make(v);
            m[i] = v;
        }
        1 => {
            sl[i].write(v);
            m[i] = v;
        }
        2 => {
            match sl.get_mut(i) {
                Some(x) => x.write(v),
                None => bad!("get_mut({}) of a slice of {} items is None", i, len),
            }
            m[i] = v;
        }
        3 => {
            let old = sl.set(i, E::make(v));
            ensure_eq!(old.map(|x| x.m()), Some(m[i]), "set({}) of a slice of {} items", i, len);
            m[i] = v;
        }
        4 => {
            // SAFETY: in bounds
            unsafe { sl.get_unchecked_mut(i) }.write(v);
            m[i] = v;
        }
        5 => {
            let j = src.upto(len - 1);
            sl.swap(i, j);
            m.swap(i, j);
        }
        6 => {
            if let (Some(a), true) = (sl.first_mut(), len > 0) {
                a.write(v);
                m[0] = v;
            }
            w.uid += 1;
            let v = E::norm(M { key: v.key, uid: w.uid });
            if let (Some(b), true) = (sl.last_mut(), len > 0) {
                b.write(v);
                m[len - 1] = v;
            }
        }
        7 | 8 => {
            // several references out of one mutable iterator, both directions
            let mut it = sl.iter_mut();
            let (mut a, mut b) = (0, len);
            let n = src.upto(len);
            let mut held: Vec<(&mut E, usize)> = Vec::new();
            for _ in 0..n {
                ensure_eq!(it.size_hint(), (b - a, Some(b - a)), "iter_mut size_hint");
                let back = src.flag(1, 2);
                let at = if back {
                    b -= 1;
                    b
                } else {
                    a += 1;
                    a - 1
                };
                let got = if back { it.next_back() } else { it.next() };
                match got {
                    Some(x) => {
                        ensure_eq!(x.m(), m[at], "iter_mut item {} of {}", at, len);
                        held.push((x, at));
                    }
                    None => bad!("iter_mut ended after {} of {} items", held.len(), len),
                }
            }
            for (x, at) in held.into_iter().rev() {
                w.uid += 1;
                let v = E::norm(M { key: (w.uid % 7) % w.keys as u32, uid: w.uid });
                x.write(v);
                m[at] = v;
            }
        }
        9 => {
            // out of bounds: refused, nothing written
            let out = edge(src, len, N);
            if out >= len {
                ensure!(sl.get_mut(out).is_none(), "get_mut({}) of a slice of {} items is Some", out, len);
                let r = catch(|| sl[out].write(v));
                ensure!(r.is_err(), "writing [{}] of a slice of {} items is not refused", out, len);
                let r = catch(|| sl.set(out, E::make(v)).is_none());
                ensure!(matches!(r, Ok(true)), "set({}) of a slice of {} items is not refused with None", out, len);
            }
        }
        _ => {
            // array-ops sorts arrays of distinct items only
            let mut ks = keys(m);
            ks.sort();
            ks.dedup();
            if ks.len() == len && len > 0 {
                sl.sort_unstable();
                m.sort_by_key(|x| x.key);
            }
        }
    }
    Ok(())
}

fn write_tree<E: Elem, const N: usize>(mut sl: SliceMut<'_, E, N>, m: &mut [M], src: &mut Src, w: &mut Walk<'_>, depth: usize) -> Res {
    for _ in 0..1 + src.int(2) {
        scribble(&mut sl, m, src, w)?;
        look_mut(&sl, m, src.flag(1, 4), src, "mutable slice")?;
    }
    if depth >= w.max {
        return Ok(());
    }
    match src.int(7) {
        0 | 1 => {
            let r = draw_range(src, m.len());
            let (a, b) = window(&r, m.len()).unwrap();
            tr!(w.ctx, "{}slice_mut({:?}) of {} items", "  ".repeat(depth), r, m.len());
            let len = m.len();
            let sub = match catch(|| sl.slice(r)) {
                Ok(s) => s,
                Err(e) => bad!("slice({:?}) of a mutable slice of {} items panicked: {}", r, len, e),
            };
            w.ctx.label_if(b - a > 0, "nested non-empty slice");
            write_tree(sub, &mut m[a..b], src, w, depth + 1)
        }
        2 | 3 => {
            let i = src.upto(m.len());
            tr!(w.ctx, "{}split_at({}) of {} items", "  ".repeat(depth), i, m.len());
            let len = m.len();
            let (mut l, mut r) = match catch(|| sl.split_at(i)) {
                Ok(x) => x,
                Err(e) => bad!("split_at({}) of a mutable slice of {} items panicked: {}", i, len, e),
            };
            w.ctx.label_if(i > 0 && i < len, "split in the middle");
            let (ml, mr) = m.split_at_mut(i);
            scribble(&mut l, ml, src, w)?;
            scribble(&mut r, mr, src, w)?;
            look_mut(&l, ml, false, src, "left half")?;
            look_mut(&r, mr, false, src, "right half")?;
            write_tree(l, ml, src, w, depth + 1)?;
            look_mut(&r, mr, false, src, "right half")?;
            write_tree(r, mr, src, w, depth + 1)
        }
        4 => {
            let r = wild_range(src, m.len(), N);
            refuse_write(sl, m, r)
        }
        5 => read_tree(sl.unmut(), m, src, w, depth + 1),
        _ => {
            let s: Slice<'_, E, N> = sl.into();
            look(&s, m, true, src, "downgraded slice")
        }
    }
}

fn refuse_write<E: Elem, const N: usize>(sl: SliceMut<'_, E, N>, m: &[M], r: Rg) -> Res {
    let want = window(&r, m.len());
    match (catch(|| sl.slice(r)), want) {
        (Ok(s), Some((a, b))) => ensure_eq!(models(s.iter()), m[a..b].to_vec(), "slice({:?}) of {} items", r, m.len()),
        (Err(e), Some(_)) if !open(&r) => bad!("slice({:?}) of a mutable slice of {} items panicked: {}", r, m.len(), e),
        (Ok(s), None) => bad!("slice({:?}) of a mutable slice of {} items must be refused, gave {} items", r, m.len(), s.len()),
        (Err(_), _) => {}
    }
    Ok(())
}

fn settled<E: Elem, const N: usize>(c: &RingBuffer<E, N>, m: &[M]) -> Res {
    let got = models(c.iter());
    ensure!(got == m, "the buffer holds {:?}, expected {:?}", got, m);
    ensure!(c.len() == m.len() && c.iter().all(|x| x.intact()), "the buffer holds items that are not live");
    Ok(())
}
fn ended<E: Elem>() -> Res {
    if let Some(e) = fault::errors() {
        bad!("{}", e)
    }
    if E::TRACKED {
        ensure!(fault::live_count() == 0 && fault::zst_live() == 0, "{} items alive at the end", fault::live_count() + fault::zst_live());
    }
    Ok(())
}

fn tree_case<E: Elem, const N: usize>(src: &mut Src, ctx: &mut Ctx, max: usize, keyn: usize, write: bool) -> Res {
    let (len, off, via) = draw_ring::<N>(src);
    let mut uid = 0;
    let mut m = items::<E>(len, &mut uid, |_| src.int(keyn) as u32);
    tr!(ctx, "RingBuffer<{}, {}>: {} items from slot {} (via {}): {:?}", E::NAME, N, len, off, via, keys(&m));
    {
        let mut c = ring_at::<E, N>(&m, off, via);
        settled(&c, &m)?;
        fault::set_base(c.iter().filter_map(|x| x.id()));
        ctx.label_if(wraps(len, off, N), "wrapped buffer");
        let r = draw_range(src, len);
        let (a, b) = window(&r, len).unwrap();
        ctx.nontrivial = b - a >= 1 && (a > 0 || b < len) || wraps(len, off, N);
        ctx.label_if(a > 0 && b < len, "window strictly inside");
        let mut w = Walk { ctx, uid: 1000, keys: keyn, max };
        tr!(w.ctx, "{}({:?})", if write { "slice_mut" } else { "slice" }, r);
        if write {
            let before = m.clone();
            {
                let sl = match catch(|| c.slice_mut(r)) {
                    Ok(s) => s,
                    Err(e) => bad!("slice_mut({:?}) of {} items panicked: {}", r, len, e),
                };
                write_tree(sl, &mut m[a..b], src, &mut w, 0)?;
            }
            ensure!(before[..a] == m[..a] && before[b..] == m[b..], "model error");
        } else {
            let sl = match catch(|| c.slice(r)) {
                Ok(s) => s,
                Err(e) => bad!("slice({:?}) of {} items panicked: {}", r, len, e),
            };
            read_tree(sl, &m[a..b], src, &mut w, 0)?;
        }
        settled(&c, &m)?;
        // the whole thing as a slice, and the buffer still works
        look(&Slice::from(&c), &m, true, src, "From<&RingBuffer>")?;
        look_mut(&SliceMut::from(&mut c), &m, true, src, "From<&mut RingBuffer>")?;
        if len < N {
            let v = E::norm(M { key: 1, uid: 77 });
            c.push_back(E::make(v));
            m.push(v);
            settled(&c, &m)?;
        }
    }
    ended::<E>()
}

pub fn read_history<E: Elem>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cap = *src.pick(&[8usize, 5, 4, 3, 2, 1, 0, 16, 17, 33, 64]);
    with_cap!(cap, [0, 1, 2, 3, 4, 5, 8, 16, 17, 33, 64], tree_case, [E], (src, ctx, 4, 5, false))
}
pub fn write_history<E: Elem>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cap = *src.pick(&[8usize, 5, 4, 3, 2, 1, 0, 16, 17, 33, 64]);
    with_cap!(cap, [0, 1, 2, 3, 4, 5, 8, 16, 17, 33, 64], tree_case, [E], (src, ctx, 4, 40, true))
}

/// Capacities past 8 bits, and capacities no memory could hold.
pub fn large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let write = src.flag(2, 3);
    let keyn = if write { 40 } else { 5 };
    let kind = src.int(6);
    ctx.label_if(kind >= 3, "capacity no memory could hold");
    match kind {
        0 => tree_case::<KV, 255>(src, ctx, 4, keyn, write),
        1 => tree_case::<KV, 257>(src, ctx, 4, keyn, write),
        2 => tree_case::<KV, 300>(src, ctx, 4, keyn, write),
        3 => tree_case::<Zd, { isize::MAX as usize }>(src, ctx, 4, keyn, write),
        4 => tree_case::<Zd, { isize::MAX as usize + 1 }>(src, ctx, 4, keyn, write),
        _ => tree_case::<Zd, { usize::MAX }>(src, ctx, 4, keyn, write),
    }
}

/// Every buffer arrangement, every window, every window of that window.
fn windows_case<E: Elem, const N: usize>(src: &mut Src, ctx: &mut Ctx, mutable: bool) -> Res {
    let (len, off, _) = draw_ring::<N>(src);
    src.shard_here()?;
    let a = src.int(len + 1);
    let b = a + src.int(len - a + 1);
    let a2 = src.int(b - a + 1);
    let b2 = a2 + src.int(b - a - a2 + 1);
    let mut uid = 0;
    let m = items::<E>(len, &mut uid, |i| i as u32 * 2);
    tr!(ctx, "RingBuffer<{}, {}>: {} items from slot {}; [{}..{}][{}..{}]", E::NAME, N, len, off, a, b, a2, b2);
    ctx.nontrivial = b2 > a2 && (a + a2 > 0 || wraps(len, off, N));
    ctx.label_if(wraps(len, off, N), "wrapped buffer");
    let mut c = ring_at::<E, N>(&m, off, 0);
    let sub = &m[a..b][a2..b2];
    if mutable {
        let mut m2 = m.clone();
        {
            let mut sl = c.slice_mut(a..b).slice(a2..b2);
            for i in 0..sub.len() {
                let v = E::norm(M { key: 100 + i as u32, uid: 500 + i as u32 });
                sl[i].write(v);
                m2[a + a2 + i] = v;
            }
            look_mut(&sl, &m2[a..b][a2..b2], false, src, "mutable slice")?;
        }
        settled(&c, &m2)?;
    } else {
        let sl = c.slice(a..b).slice(a2..b2);
        look(&sl, sub, false, src, "slice")?;
        for i in 0..=sub.len() {
            let (l, r) = sl.clone().split_at(i);
            ensure_eq!(models(l.iter()), sub[..i].to_vec(), "left half at {}", i);
            ensure_eq!(models(r.iter()), sub[i..].to_vec(), "right half at {}", i);
        }
        // every probe: found iff there, else the place to insert
        for k in 0..2 * len as u32 + 1 {
            let r = sl.binary_search(&E::make(E::norm(M { key: k, uid: 0 })));
            let want = match sub.iter().position(|x| x.key >= k) {
                Some(i) if sub[i].key == k => Ok(i),
                Some(i) => Err(i),
                None => Err(sub.len()),
            };
            ensure_eq!(r, want, "search for {} in {:?}", k, keys(sub));
        }
        settled(&c, &m)?;
    }
    Ok(())
}
pub fn every_window<E: Elem>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let caps: &[usize] = if ctx.thorough { &[0, 1, 2, 3, 4, 5, 6, 7, 8] } else { &[0, 1, 2, 3, 4, 5] };
    let cap = *src.pick(caps);
    let mutable = src.int(2) == 1;
    with_cap!(cap, [0, 1, 2, 3, 4, 5, 6, 7, 8], windows_case, [E], (src, ctx, mutable))
}

/// Impossible ranges, split points and indices on buffers and their slices.
fn wild_case<E: Elem, const N: usize>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (len, off, _) = draw_ring::<N>(src);
    src.shard_here()?;
    let mut uid = 0;
    let m = items::<E>(len, &mut uid, |i| i as u32);
    let mut c = ring_at::<E, N>(&m, off, 0);
    // the window the refusal is asked of
    let a = src.int(len + 1);
    let b = a + src.int(len - a + 1);
    let sub = &m[a..b];
    let mut nums = vec![0, 1, sub.len(), sub.len() + 1, len, len + 1, N + 1, usize::MAX, usize::MAX - 1, usize::MAX - a, usize::MAX - b, usize::MAX / 2 + 1];
    nums.retain(|x| *x <= N + 1 || *x > 1000);
    let num = |src: &mut Src| nums[src.int(nums.len())];
    let what = src.int(5);
    let mut none = false;
    match what {
        0 | 1 => {
            let lo = match src.int(3) {
                0 => Bound::Unbounded,
                1 => Bound::Included(num(src)),
                _ => Bound::Excluded(num(src)),
            };
            let hi = match src.int(3) {
                0 => Bound::Unbounded,
                1 => Bound::Included(num(src)),
                _ => Bound::Excluded(num(src)),
            };
            none = window(&(lo, hi), sub.len()).is_none();
            tr!(ctx, "RingBuffer<{}, {}>: {} items from slot {}, window {}..{}: slice({:?})", E::NAME, N, len, off, a, b, (lo, hi));
            if what == 0 {
                refuse_read(&c.slice(a..b), sub, (lo, hi))?;
                if a == 0 && b == len {
                    let w = window(&(lo, hi), len);
                    match (catch(|| models(c.slice((lo, hi)).iter())), w) {
                        (Ok(v), Some((x, y))) => ensure_eq!(v, m[x..y].to_vec(), "slice({:?})", (lo, hi)),
                        (Err(e), Some(_)) if !open(&(lo, hi)) => bad!("slice({:?}) of {} items panicked: {}", (lo, hi), len, e),
                        (Ok(v), None) => bad!("slice({:?}) of {} items must be refused, gave {:?}", (lo, hi), len, v),
                        (Err(_), _) => {}
                    }
                }
            } else {
                refuse_write(c.slice_mut(a..b), sub, (lo, hi))?;
                if a == 0 && b == len {
                    let w = window(&(lo, hi), len);
                    match (catch(|| models(c.slice_mut((lo, hi)).iter())), w) {
                        (Ok(v), Some((x, y))) => ensure_eq!(v, m[x..y].to_vec(), "slice_mut({:?})", (lo, hi)),
                        (Err(e), Some(_)) if !open(&(lo, hi)) => bad!("slice_mut({:?}) of {} items panicked: {}", (lo, hi), len, e),
                        (Ok(v), None) => bad!("slice_mut({:?}) of {} items must be refused, gave {:?}", (lo, hi), len, v),
                        (Err(_), _) => {}
                    }
                }
            }
        }
        2 => {
            let i = num(src);
            none = i > sub.len();
            tr!(ctx, "RingBuffer<{}, {}>: {} items from slot {}, window {}..{}: split_at({})", E::NAME, N, len, off, a, b, i);
            let r = catch(|| c.slice(a..b).split_at(i)).map(|(l, r)| (models(l.iter()), models(r.iter())));
            let r2 = catch(|| {
                let (l, r) = c.slice_mut(a..b).split_at(i);
                (models(l.iter()), models(r.iter()))
            });
            for r in [r, r2] {
                match r {
                    Ok((l, r)) if i <= sub.len() => ensure!(l == sub[..i] && r == sub[i..], "split_at({}) gave {:?} and {:?}", i, l, r),
                    Ok(x) => bad!("split_at({}) of {} items must be refused, gave {:?}", i, sub.len(), x),
                    Err(e) if i <= sub.len() => bad!("split_at({}) of {} items panicked: {}", i, sub.len(), e),
                    Err(_) => {}
                }
            }
        }
        3 => {
            let i = num(src);
            none = i >= sub.len();
            tr!(ctx, "RingBuffer<{}, {}>: {} items from slot {}, window {}..{}: [{}]", E::NAME, N, len, off, a, b, i);
            let want = sub.get(i).copied();
            ensure_eq!(catch(|| c.slice(a..b)[i].m()).ok(), want, "slice[{}] of {} items", i, sub.len());
            ensure_eq!(catch(|| c.slice_mut(a..b)[i].m()).ok(), want, "slice_mut[{}] of {} items", i, sub.len());
            ensure_eq!(c.slice(a..b).get(i).map(|x| x.m()), want, "get({}) of {} items", i, sub.len());
        }
        _ => {
            let i = num(src);
            none = i >= sub.len();
            tr!(ctx, "RingBuffer<{}, {}>: {} items from slot {}, window {}..{}: [{}] = _", E::NAME, N, len, off, a, b, i);
            let v = E::norm(M { key: 50, uid: 50 });
            let r = catch(|| c.slice_mut(a..b)[i] = E::make(v));
            ensure!(r.is_ok() == (i < sub.len()), "writing [{}] of a slice of {} items: {:?}", i, sub.len(), r);
            let mut m2 = m.clone();
            if i < sub.len() {
                m2[a + i] = v;
            }
            settled(&c, &m2)?;
            if i < sub.len() {
                c[a + i] = E::make(m[a + i]);
            }
        }
    }
    ctx.label_if(none, "refused");
    ctx.nontrivial = none;
    settled(&c, &m)?;
    drop(c);
    ended::<E>()
}
pub fn wild_ranges(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cap = *src.pick(&[0usize, 1, 2, 3, 4]);
    with_cap!(cap, [0, 1, 2, 3, 4], wild_case, [Tk], (src, ctx))
}

// Sorted contents -----------------------------------------------------------

/// Every sorted key sequence over a small alphabet, every probe.
fn sorted_keys(src: &mut Src, len: usize, alphabet: usize) -> Vec<u32> {
    let mut v = Vec::new();
    let mut k = 0;
    for _ in 0..len {
        k += src.int(alphabet - k);
        v.push(k as u32);
    }
    v
}
fn judge_search(r: Result<usize, usize>, m: &[M], key: u32, what: &str) -> Res {
    let lo = m.iter().take_while(|x| x.key < key).count();
    let hi = m.iter().take_while(|x| x.key <= key).count();
    match r {
        Ok(i) => ensure!(i >= lo && i < hi, "{}: search for {} in {:?} found index {}", what, key, keys(m), i),
        Err(i) => ensure!(lo == hi && i == lo, "{}: search for {} in {:?} gave Err({})", what, key, keys(m), i),
    }
    Ok(())
}
fn judge_ordered(now: &[M], m: &[M], v: M) -> Res {
    ensure!(now.len() == m.len() + 1, "insert_ordered({:?}) into {:?} left {:?}", v, m, now);
    let fits = (0..now.len()).any(|i| now[i] == v && now[..i] == m[..i] && now[i + 1..] == m[i..]);
    ensure!(fits, "insert_ordered({:?}) into {:?} left {:?}", v, m, now);
    if m.windows(2).all(|w| w[0].key <= w[1].key) {
        ensure!(now.windows(2).all(|w| w[0].key <= w[1].key), "insert_ordered({:?}) into sorted {:?} left {:?}", v, keys(m), keys(now));
    }
    Ok(())
}
fn sorted_ring_case<E: Elem, const N: usize>(src: &mut Src, ctx: &mut Ctx, alphabet: usize) -> Res {
    let (len, off, _) = draw_ring::<N>(src);
    src.shard_here()?;
    let ks = sorted_keys(src, len, alphabet);
    let mut uid = 0;
    let m = items::<E>(len, &mut uid, |i| ks[i] * 2 + 1);
    tr!(ctx, "RingBuffer<{}, {}>: {:?} from slot {}", E::NAME, N, keys(&m), off);
    ctx.nontrivial = len > 0;
    ctx.label_if(wraps(len, off, N), "wrapped buffer");
    let mut dup = ks.clone();
    dup.dedup();
    ctx.label_if(dup.len() < len, "equal items");
    let c = ring_at::<E, N>(&m, off, 0);
    for k in 0..2 * alphabet as u32 + 1 {
        let p = E::make(M { key: k, uid: 0 });
        judge_search(c.binary_search(&p), &m, k, "buffer")?;
        judge_search(c.binary_search_by(|x| x.cmp(&p)), &m, k, "buffer by")?;
        judge_search(c.binary_search_by_key(&k, |x| x.m().key), &m, k, "buffer by key")?;
        for a in 0..=len {
            for b in a..=len {
                judge_search(c.slice(a..b).binary_search(&p), &m[a..b], k, "slice")?;
            }
        }
        ensure_eq!(c.contains(&p), m.iter().any(|x| x.key == k), "contains {} in {:?}", k, keys(&m));
        if len < N {
            let mut d = c.clone();
            let v = M { key: k, uid: 999 };
            if let Err(e) = catch(|| d.insert_ordered(E::make(v))) {
                bad!("insert_ordered({}) into {:?} panicked: {}", k, keys(&m), e)
            }
            judge_ordered(&models(d.iter()), &m, v)?;
        }
    }
    ensure!(c.is_sorted(), "{:?} is not reported as sorted", keys(&m));
    settled(&c, &m)
}
fn sorted_chunk_case<E: Elem, const N: usize>(src: &mut Src, ctx: &mut Ctx, alphabet: usize) -> Res {
    let (len, off, _) = draw_chunk::<N>(src);
    src.shard_here()?;
    let ks = sorted_keys(src, len, alphabet);
    let mut uid = 0;
    let m = items::<E>(len, &mut uid, |i| ks[i] * 2 + 1);
    tr!(ctx, "Chunk<{}, {}>: {:?} from slot {}", E::NAME, N, keys(&m), off);
    ctx.nontrivial = len > 0;
    let mut dup = ks.clone();
    dup.dedup();
    ctx.label_if(dup.len() < len, "equal items");
    let c: Chunk<E, N> = chunk_at(&m, off, 0);
    for k in 0..2 * alphabet as u32 + 1 {
        let p = E::make(M { key: k, uid: 0 });
        judge_search(c.binary_search(&p), &m, k, "chunk")?;
        if len < N {
            let mut d = c.clone();
            let v = M { key: k, uid: 999 };
            if let Err(e) = catch(|| d.insert_ordered(E::make(v))) {
                bad!("insert_ordered({}) into {:?} panicked: {}", k, keys(&m), e)
            }
            judge_ordered(&models(d.iter()), &m, v)?;
        }
    }
    Ok(())
}
pub fn sorted_ring(src: &mut Src, ctx: &mut Ctx) -> Res {
    let caps: &[usize] = if ctx.thorough { &[0, 1, 2, 3, 4, 5, 6, 7, 8] } else { &[0, 1, 2, 3, 4, 5, 6] };
    let cap = *src.pick(caps);
    let alphabet = if ctx.thorough { 4 } else { 3 };
    with_cap!(cap, [0, 1, 2, 3, 4, 5, 6, 7, 8], sorted_ring_case, [KV], (src, ctx, alphabet))
}
pub fn sorted_chunk(src: &mut Src, ctx: &mut Ctx) -> Res {
    let caps: &[usize] = if ctx.thorough { &[0, 1, 2, 3, 4, 5, 6, 7, 8] } else { &[0, 1, 2, 3, 4, 5, 6, 7] };
    let cap = *src.pick(caps);
    let alphabet = if ctx.thorough { 4 } else { 3 };
    with_cap!(cap, [0, 1, 2, 3, 4, 5, 6, 7, 8], sorted_chunk_case, [KV], (src, ctx, alphabet))
}

/// Searching windows of larger sorted buffers, also by reversed and partial orders.
fn search_case<E: Elem, const N: usize>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (len, off, via) = draw_ring::<N>(src);
    let keyn = 1 + src.int(2 * N + 2);
    let mut ks: Vec<u32> = (0..len).map(|_| src.int(keyn) as u32).collect();
    let desc = src.flag(1, 4);
    ks.sort();
    if desc {
        ks.reverse();
    }
    let mut uid = 0;
    let m = items::<E>(len, &mut uid, |i| ks[i]);
    tr!(ctx, "RingBuffer<{}, {}>: {:?} from slot {} via {}", E::NAME, N, keys(&m), off, via);
    let c = ring_at::<E, N>(&m, off, via);
    let r = draw_range(src, len);
    let (a, b) = window(&r, len).unwrap();
    let sub = &m[a..b];
    let sl = c.slice(r);
    ctx.nontrivial = sub.len() >= 2;
    ctx.label_if(wraps(len, off, N), "wrapped buffer");
    ctx.label_if(desc, "descending order");
    for _ in 0..4 {
        let k = src.int(keyn + 1) as u32;
        let p = E::make(E::norm(M { key: k, uid: 0 }));
        tr!(ctx, "search {} in {}..{}", k, a, b);
        if desc {
            let rev: Vec<M> = sub.iter().map(|x| M { key: 10_000 - x.key, uid: x.uid }).collect();
            judge_search(sl.binary_search_by(|x| p.cmp(x)), &rev, 10_000 - k, "descending slice")?;
        } else {
            judge_search(sl.binary_search(&p), sub, k, "slice")?;
            judge_search(sl.binary_search_by_key(&k, |x| x.m().key), sub, k, "slice by key")?;
            judge_search(c.binary_search(&p), &m, k, "buffer")?;
            // an order that ignores part of the item
            let coarse: Vec<M> = sub.iter().map(|x| M { key: x.key / 2, uid: x.uid }).collect();
            judge_search(sl.binary_search_by_key(&(k / 2), |x| x.m().key / 2), &coarse, k / 2, "slice by half key")?;
            ctx.label_if(sub.iter().any(|x| x.key == k), "search found");
        }
    }
    Ok(())
}
pub fn search(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cap = *src.pick(&[8usize, 5, 4, 3, 2, 1, 16, 17, 33, 64, 100]);
    with_cap!(cap, [1, 2, 3, 4, 5, 8, 16, 17, 33, 64, 100], search_case, [KV], (src, ctx))
}

//! Clones, pooled copies and defaults: equal, complete, independent.

use crate::acts::Acts;
use crate::elem::{Elem, M};
use crate::engine::{Ctx, Res, Src};
use crate::fault;
use crate::{bad, ensure, tr};
#[cfg(feature = "pool")]
use refpool::{PoolClone, PoolDefault};
use std::mem::{ManuallyDrop, MaybeUninit};

type List = Vec<(usize, M)>;

/// Somewhere a container can live, surrounded by guards and full of old bytes.
#[repr(C)]
struct Place<C> {
    before: [u64; 4],
    mem: MaybeUninit<C>,
    after: [u64; 4],
}
const GUARD: u64 = 0x5AA5_1234_ABCD_EF01;
impl<C> Place<C> {
    fn fill(byte: u8) -> Box<Self> {
        let mut p = Box::new(Place { before: [GUARD; 4], mem: MaybeUninit::uninit(), after: [GUARD; 4] });
        // SAFETY: MaybeUninit may hold any bytes
        unsafe { std::ptr::write_bytes(p.mem.as_mut_ptr() as *mut u8, byte, std::mem::size_of::<C>()) };
        p
    }
    fn intact(&self) -> bool {
        self.before == [GUARD; 4] && self.after == [GUARD; 4]
    }
}

fn draw<E: Elem>(src: &mut Src, uid: &mut u32) -> M {
    *uid += 1;
    E::norm(M { key: 1 + src.int(20) as u32, uid: *uid })
}
fn act<E: Elem, C: Acts<E>>(c: &mut C, m: &mut List, src: &mut Src, uid: &mut u32, grow: bool) {
    let how = if grow { src.weighted(&[4, 2, 4, 2, 2, 3, 2, 1, 0]) } else { src.int(9) };
    let at = src.int(C::CAP.max(1) + 2);
    let v = draw::<E>(src, uid);
    c.act(m, how, at, v);
}
fn see<E: Elem, C: Acts<E>>(c: &C, m: &List, what: &str) -> Res {
    let got = c.list();
    ensure!(got == *m, "{} shows {:?}, expected {:?}", what, got, m);
    ensure!(c.live(), "{} shows items that are not live", what);
    if let Some(e) = fault::errors() {
        bad!("{}: {}", what, e)
    }
    Ok(())
}
fn alive<E: Elem>(n: usize, what: &str) -> Res {
    if E::TRACKED {
        let live = if E::ZST { fault::zst_live() } else { fault::live_count() };
        ensure!(live == n as i64, "{}: {} items alive, {} held", what, live, n);
    }
    Ok(())
}
/// Fill a container up to its capacity and look at it.
fn fill<E: Elem, C: Acts<E>>(c: &mut C, m: &mut List, uid: &mut u32, what: &str) -> Res {
    for i in 0..C::CAP {
        *uid += 1;
        let v = E::norm(M { key: 30, uid: *uid });
        if C::NAME != "SparseChunk" {
            c.act(m, 0, i, v)
        } else if m.iter().all(|x| x.0 != i) {
            c.act(m, 0, i, v)
        }
    }
    ensure!(m.len() == C::CAP, "{}: model of {} items", what, m.len());
    see(c, m, &format!("{} filled up", what))
}

/// The two stay apart whatever happens to either; then both end.
fn apart<E: Elem, C: Acts<E>>(src: &mut Src, a: &mut C, am: &mut List, b: &mut C, bm: &mut List, uid: &mut u32, intact: &dyn Fn() -> bool) -> Res {
    let n = 2 + src.upto(8);
    for _ in 0..n {
        if src.flag(1, 2) {
            act::<E, C>(a, am, src, uid, false);
        } else {
            act::<E, C>(b, bm, src, uid, false);
        }
        see(a, am, "the original")?;
        see(b, bm, "the copy")?;
        ensure!(intact(), "memory next to the copy was overwritten");
        alive::<E>(am.len() + bm.len(), "after an operation on one of the two")?;
    }
    if src.flag(1, 2) {
        fill::<E, C>(b, bm, uid, "the copy")?;
    } else {
        fill::<E, C>(a, am, uid, "the original")?;
    }
    ensure!(intact(), "memory next to the copy was overwritten");
    see(a, am, "the original")?;
    see(b, bm, "the copy")?;
    alive::<E>(am.len() + bm.len(), "at the end")
}
fn grown<E: Elem, C: Acts<E>>(src: &mut Src, uid: &mut u32) -> (C, List) {
    let mut c = C::mk();
    let mut m = List::new();
    let n = src.upto((2 * C::CAP).min(30));
    for _ in 0..n {
        act::<E, C>(&mut c, &mut m, src, uid, true);
    }
    (c, m)
}
fn cloned<E: Elem>(before: u64, n: usize, what: &str) -> Res {
    if E::COUNTED {
        let k = fault::clones() - before;
        ensure!(k == n as u64, "{}: {} items were copied with {} calls of clone", what, n, k);
    }
    Ok(())
}

pub fn plain<E: Elem, C: Acts<E>>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut uid = 0;
    let (mut a, mut am) = grown::<E, C>(src, &mut uid);
    ctx.nontrivial = am.len() >= 2;
    ctx.label_if(am.len() == C::CAP, "full original");
    let before = fault::clones();
    let mut b;
    if src.flag(1, 4) {
        let mut bm;
        (b, bm) = grown::<E, C>(src, &mut uid);
        tr!(ctx, "{}<{}> (capacity {}): {:?}.clone_from({:?})", C::NAME, E::NAME, C::CAP, bm, am);
        let before = fault::clones();
        b.clone_from(&a);
        bm.clear();
        cloned::<E>(before, am.len(), "clone_from")?;
    } else {
        tr!(ctx, "{}<{}> (capacity {}): clone of {:?}", C::NAME, E::NAME, C::CAP, am);
        b = a.clone();
        cloned::<E>(before, am.len(), "clone")?;
    }
    let mut bm = am.clone();
    see(&a, &am, "the original")?;
    see(&b, &bm, "the copy")?;
    ensure!(a == b && b == a, "the copy of {:?} is not equal to it", am);
    alive::<E>(am.len() + bm.len(), "after copying")?;
    if src.flag(1, 4) {
        drop(a);
        see(&b, &bm, "the copy, after dropping the original")?;
        alive::<E>(bm.len(), "after dropping the original")?;
        act::<E, C>(&mut b, &mut bm, src, &mut uid, false);
        see(&b, &bm, "the copy, after dropping the original")?;
    } else {
        apart(src, &mut a, &mut am, &mut b, &mut bm, &mut uid, &|| true)?;
        drop(a);
        see(&b, &bm, "the copy, after dropping the original")?;
    }
    drop(b);
    alive::<E>(0, "after dropping both")
}

/// `PoolClone` and `PoolDefault` straight into memory full of old bytes.
#[cfg(feature = "pool")]
pub fn poisoned<E: Elem, C: Acts<E> + PoolClone + PoolDefault>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut uid = 0;
    let (a, mut am) = grown::<E, C>(src, &mut uid);
    let mut a = ManuallyDrop::new(a);
    let byte = *src.pick(&[0xA5u8, 0xFF, 0x01, 0x00, 0x80]);
    let mut p = Place::<C>::fill(byte);
    if src.flag(1, 3) {
        // the remains of another container instead
        ctx.label("remains of another container");
        let (c, m) = grown::<E, C>(src, &mut uid);
        tr!(ctx, "memory held {:?}", m);
        p.mem.write(c);
        // SAFETY: just written
        unsafe { std::ptr::drop_in_place(p.mem.as_mut_ptr()) };
    }
    let clone = src.flag(3, 5);
    let mut bm = List::new();
    if clone {
        tr!(ctx, "{}<{}> (capacity {}): clone_uninit of {:?} over {:#x}", C::NAME, E::NAME, C::CAP, am, byte);
        let before = fault::clones();
        // SAFETY: the memory is ours; it is initialised afterwards
        unsafe { a.clone_uninit(&mut p.mem) };
        cloned::<E>(before, am.len(), "clone_uninit")?;
        bm = am.clone();
        ctx.nontrivial = am.len() >= 2;
        ctx.label_if(am.len() >= 2, "cloned into used memory");
    } else {
        tr!(ctx, "{}<{}> (capacity {}): default_uninit over {:#x}", C::NAME, E::NAME, C::CAP, byte);
        // SAFETY: as above
        unsafe { C::default_uninit(&mut p.mem) };
        ctx.nontrivial = true;
        ctx.label("default in used memory");
    }
    ensure!(p.intact(), "memory next to the copy was overwritten");
    {
        let (before, after) = (&p.before as *const [u64; 4], &p.after as *const [u64; 4]);
        // SAFETY: initialised above; the guards are read through their own pointers
        let b = unsafe { &mut *p.mem.as_mut_ptr() };
        see(&*a, &am, "the original")?;
        see(b, &bm, "the copy")?;
        if clone {
            ensure!(*a == *b && *b == *a, "the copy of {:?} is not equal to it", am);
        } else {
            ensure!(*b == C::mk(), "a default container is not equal to a new one");
        }
        alive::<E>(am.len() + bm.len(), "after copying")?;
        apart(src, &mut *a, &mut am, b, &mut bm, &mut uid, &|| unsafe { *before == [GUARD; 4] && *after == [GUARD; 4] })?;
        // SAFETY: not used again
        unsafe { std::ptr::drop_in_place(b) };
    }
    see(&*a, &am, "the original, after dropping the copy")?;
    drop(ManuallyDrop::into_inner(a));
    alive::<E>(0, "after dropping both")
}

#[cfg(feature = "rb")]
pub fn windows<E: Elem, const N: usize>(src: &mut Src, ctx: &mut Ctx) -> Res {
    use crate::mk::*;
    use sized_chunks::RingBuffer;
    let mut uid = 0;
    let (len, off, via) = draw_ring::<N>(src);
    let m = items::<E>(len, &mut uid, |i| i as u32 + 1);
    let mut a: RingBuffer<E, N> = ring_at(&m, off, via);
    let mut am: List = m.iter().copied().enumerate().collect();
    let s = src.upto(len);
    let e = s + src.upto(len - s);
    src.shard_here()?;
    ctx.nontrivial = e - s >= 2;
    ctx.label_if(wraps(len, off, N), "wrapped buffer");
    ctx.label_if(e - s >= 2 && e - s < len, "window strictly inside");
    let mutable = src.flag(1, 2);
    tr!(ctx, "RingBuffer<{}, {}> of {} items from slot {}: to_owned of window {}..{}{}", E::NAME, N, len, off, s, e, if mutable { ", mutable" } else { "" });
    let before = fault::clones();
    let mut b: RingBuffer<E, N> = if mutable { a.slice_mut(s..e).to_owned() } else { a.slice(s..e).to_owned() };
    cloned::<E>(before, e - s, "to_owned")?;
    let mut bm: List = m[s..e].iter().copied().enumerate().collect();
    see(&a, &am, "the original")?;
    see(&b, &bm, "the copy")?;
    ensure!(b == a.slice(s..e) && a.slice(s..e) == b, "the copy of {:?} is not equal to the window", bm);
    alive::<E>(am.len() + bm.len(), "after copying")?;
    apart(src, &mut a, &mut am, &mut b, &mut bm, &mut uid, &|| true)?;
    drop(a);
    see(&b, &bm, "the copy, after dropping the original")?;
    drop(b);
    alive::<E>(0, "after dropping both")
}

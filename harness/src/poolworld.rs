//! Containers held in refpool memory: histories of handles over a small pool,
//! so that memory is reused, compared with plain reference sequences.

use crate::acts::Acts;
use crate::elem::{Elem, M};
use crate::engine::{Ctx, Res, Src};
use crate::fault::{self, catch};
use crate::{bad, ensure, tr};
use refpool::{Pool, PoolBox, PoolClone, PoolDefault, PoolRef};
use sized_chunks::{Chunk, RingBuffer, SparseChunk};
use std::mem::ManuallyDrop;

/// Containers that can be made in pool memory.
pub trait Held<E: Elem>: Acts<E> + PoolDefault + PoolClone {}
impl<E: Elem, C: Acts<E> + PoolDefault + PoolClone> Held<E> for C {}

enum Handle<C> {
    None,
    Ref(PoolRef<C>, usize),
    Box(PoolBox<C>, usize),
}

struct PoolWorld<E: Elem, C: Held<E>> {
    pool: ManuallyDrop<Pool<C>>,
    h: ManuallyDrop<Vec<Handle<C>>>,
    /// Values: contents and number of handles; None once unknown.
    vals: Vec<Vec<(usize, M)>>,
    uid: u32,
    _e: std::marker::PhantomData<E>,
}

impl<E: Elem, C: Held<E>> PoolWorld<E, C> {
    fn value(&mut self, m: Vec<(usize, M)>) -> usize {
        self.vals.push(m);
        self.vals.len() - 1
    }
    fn users(&self, v: usize) -> usize {
        self.h.iter().filter(|h| matches!(h, Handle::Ref(_, x) | Handle::Box(_, x) if *x == v)).count()
    }
    fn see(&self, what: &str) -> Res {
        for (i, h) in self.h.iter().enumerate() {
            let (got, live, v) = match h {
                Handle::None => continue,
                Handle::Ref(r, v) => (r.list(), r.live(), *v),
                Handle::Box(b, v) => (b.list(), b.live(), *v),
            };
            ensure!(got == self.vals[v], "after {}: handle {} shows {:?}, expected {:?}", what, i, got, self.vals[v]);
            ensure!(live, "after {}: handle {} shows items that are not live", what, i);
        }
        if let Some(e) = fault::errors() {
            bad!("after {}: {}", what, e)
        }
        Ok(())
    }
    fn owned(&self, what: &str) -> Res {
        if !E::TRACKED {
            return Ok(());
        }
        let mut seen = Vec::new();
        let mut n = 0;
        for h in self.h.iter() {
            if let Handle::Ref(_, v) | Handle::Box(_, v) = h {
                if !seen.contains(v) {
                    seen.push(*v);
                    n += self.vals[*v].len() as i64;
                }
            }
        }
        let live = if E::ZST { fault::zst_live() } else { fault::live_count() };
        ensure!(live == n, "after {}: {} items alive, {} held", what, live, n);
        Ok(())
    }
}

fn run<E: Elem, C: Held<E>>(src: &mut Src, ctx: &mut Ctx, fuse: u64, owned: bool) -> Res {
    let size = src.int(4);
    let pool = Pool::<C>::new(size);
    if src.flag(1, 2) {
        pool.fill();
    }
    const SLOTS: usize = 4;
    let mut w = PoolWorld::<E, C> {
        pool: ManuallyDrop::new(pool),
        h: ManuallyDrop::new((0..SLOTS).map(|_| Handle::None).collect()),
        vals: Vec::new(),
        uid: 0,
        _e: std::marker::PhantomData,
    };
    tr!(ctx, "pool of {} x {}<{}, {}>", size, C::NAME, E::NAME, C::CAP);
    let mut done = 0;
    let mut loose = false;
    let mut reused = false;
    while src.more(done, 80, 16) {
        done += 1;
        let s = src.int(SLOTS);
        let how = src.weighted(&[4, 2, 2, 5, 16, 3, 3, 3, 4, 2]);
        let armed = if fuse > 0 && src.flag(fuse, 16) { Some(1 + src.upto(2 * C::CAP.min(10)) as u64) } else { None };
        let boxed = src.flag(1, 4);
        let name;
        let pool: Pool<C> = (*w.pool).clone();
        let fresh = w.pool.get_pool_size() > 0;
        // (operation on the real thing, what it gives, model of what it gives)
        match how {
            0 => {
                name = "default";
                tr!(ctx, "#{} = {} default", s, if boxed { "box" } else { "ref" });
                w.h[s] = Handle::None;
                let v = w.value(vec![]);
                w.h[s] = if boxed { Handle::Box(PoolBox::default(&pool), v) } else { Handle::Ref(PoolRef::default(&pool), v) };
                if fresh {
                    reused = true;
                }
            }
            1 => {
                name = "new";
                tr!(ctx, "#{} = {} new", s, if boxed { "box" } else { "ref" });
                w.h[s] = Handle::None;
                let mut m = Vec::new();
                let mut c = C::mk();
                for i in 0..src.upto(C::CAP.min(8)) {
                    w.uid += 1;
                    let v = E::norm(M { key: i as u32, uid: w.uid });
                    c.act(&mut m, 0, i, v);
                }
                let v = w.value(m);
                w.h[s] = if boxed { Handle::Box(PoolBox::new(&pool, c), v) } else { Handle::Ref(PoolRef::new(&pool, c), v) };
            }
            2 => {
                // a second handle on the same value
                name = "share";
                let t = src.int(SLOTS);
                tr!(ctx, "#{} = share #{}", s, t);
                let n = match &w.h[t] {
                    Handle::Ref(r, v) => Handle::Ref(r.clone(), *v),
                    _ => continue,
                };
                w.h[s] = n;
            }
            3 => {
                // clone into pool memory
                name = "clone";
                let t = src.int(SLOTS);
                tr!(ctx, "#{} = clone of #{}{}", s, t, if armed.is_some() { format!(" [panic at user call {}]", armed.unwrap()) } else { String::new() });
                let m = match &w.h[t] {
                    Handle::Ref(_, v) | Handle::Box(_, v) => w.vals[*v].clone(),
                    Handle::None => continue,
                };
                let len = m.len();
                let before = fault::clones();
                if let Some(n) = armed {
                    fault::arm(n, 0xff);
                }
                let got = catch(|| match &w.h[t] {
                    Handle::Ref(r, _) if boxed => Handle::Box(PoolBox::clone_from(&pool, &**r), 0),
                    Handle::Ref(r, _) => Handle::Ref(PoolRef::cloned(&pool, r), 0),
                    Handle::Box(b, _) if boxed => Handle::Box(b.clone(), 0),
                    Handle::Box(b, _) => Handle::Ref(PoolRef::clone_from(&pool, &**b), 0),
                    Handle::None => Handle::None,
                });
                let fired = fault::disarm();
                match got {
                    Ok(h) => {
                        if E::TRACKED {
                            ensure!(fault::clones() - before == len as u64, "cloning {} items cloned {} times", len, fault::clones() - before);
                        }
                        let v = w.value(m);
                        w.h[s] = match h {
                            Handle::Ref(r, _) => Handle::Ref(r, v),
                            Handle::Box(b, _) => Handle::Box(b, v),
                            Handle::None => Handle::None,
                        };
                        ctx.label_if(len > 0, "pooled clone of a non-empty container");
                        ctx.nontrivial |= len > 0;
                    }
                    Err(e) if !fired => bad!("cloning {:?} into the pool panicked: {}", m, e),
                    Err(_) => {
                        loose = true;
                        ctx.label("user panic injected");
                    }
                }
            }
            4 => {
                name = "operation";
                let k = src.int(9);
                let at = src.int(C::CAP.max(1) + 2);
                w.uid += 1;
                let v = E::norm(M { key: src.int(6) as u32, uid: w.uid });
                tr!(ctx, "#{} operation {} at {} with {:?}{}", s, k, at, v, if armed.is_some() { format!(" [panic at user call {}]", armed.unwrap()) } else { String::new() });
                let id = match &w.h[s] {
                    Handle::Ref(_, v) | Handle::Box(_, v) => *v,
                    Handle::None => continue,
                };
                let shared = w.users(id) > 1;
                let mut m = w.vals[id].clone();
                let before = m.clone();
                if let Some(n) = armed {
                    fault::arm(n, 0xff);
                }
                // the model is changed together with the real thing: taken over on success
                let r = catch(|| match &mut w.h[s] {
                    Handle::Ref(r, _) => PoolRef::make_mut(&pool, r).act(&mut m, k, at, v),
                    Handle::Box(b, _) => b.act(&mut m, k, at, v),
                    Handle::None => {}
                });
                let fired = fault::disarm();
                ctx.label_if(shared, "copy on write");
                match r {
                    Ok(()) => {
                        if shared {
                            let nv = w.value(m);
                            if let Handle::Ref(_, v) = &mut w.h[s] {
                                *v = nv;
                            }
                        } else {
                            w.vals[id] = m;
                        }
                    }
                    Err(e) if !fired => bad!("operation {} on {:?} panicked: {}", k, before, e),
                    Err(_) => {
                        loose = true;
                        ctx.label("user panic injected");
                        // valid: live items it held or was given, in its own copy or still shared
                        let (now, live) = match &w.h[s] {
                            Handle::Ref(r, _) => (r.list(), r.live()),
                            Handle::Box(b, _) => (b.list(), b.live()),
                            Handle::None => (vec![], true),
                        };
                        ensure!(live, "operation {} on {:?} panicked and left items that are not live: {:?}", k, before, now);
                        for x in &now {
                            ensure!(E::ZST || x.1 == v || before.iter().any(|y| y.1 == x.1), "operation {} on {:?} panicked and left {:?}", k, before, now);
                        }
                        if shared {
                            let nv = w.value(now);
                            let separate = w.h.iter().enumerate().all(|(i, h)| i == s || !matches!((h, &w.h[s]), (Handle::Ref(a, _), Handle::Ref(b, _)) if PoolRef::ptr_eq(a, b)));
                            if separate {
                                if let Handle::Ref(_, v) = &mut w.h[s] {
                                    *v = nv;
                                }
                            }
                        } else {
                            w.vals[id] = now;
                        }
                    }
                }
            }
            5 => {
                name = "get_mut";
                let id = match &w.h[s] {
                    Handle::Ref(_, v) => *v,
                    _ => continue,
                };
                let alone = w.users(id) == 1;
                w.uid += 1;
                let v = E::norm(M { key: 1, uid: w.uid });
                let mut m = std::mem::take(&mut w.vals[id]);
                if let Handle::Ref(r, _) = &mut w.h[s] {
                    match PoolRef::get_mut(r) {
                        Some(c) => c.act(&mut m, 2, 0, v),
                        None => ensure!(!alone, "get_mut refused on the only handle"),
                    }
                }
                w.vals[id] = m;
            }
            6 => {
                // move the container out of the pool and put it back
                name = "unwrap";
                let old = std::mem::replace(&mut w.h[s], Handle::None);
                if let Handle::Ref(r, v) = old {
                    tr!(ctx, "#{} unwrap", s);
                    match PoolRef::try_unwrap(r) {
                        Ok(c) => {
                            let got = c.list();
                            ensure!(got == w.vals[v], "unwrapped {:?}, expected {:?}", got, w.vals[v]);
                            let moved = Some(c);
                            w.h[s] = Handle::Ref(PoolRef::new(&pool, moved.unwrap()), v);
                        }
                        Err(r) => w.h[s] = Handle::Ref(r, v),
                    }
                } else {
                    w.h[s] = old;
                }
            }
            7 => {
                name = "compare";
                let t = src.int(SLOTS);
                if let (Handle::Ref(a, x), Handle::Ref(b, y)) = (&w.h[s], &w.h[t]) {
                    let ks = |m: &Vec<(usize, M)>| m.iter().map(|z| (z.0, z.1.key)).collect::<Vec<_>>();
                    let want = ks(&w.vals[*x]) == ks(&w.vals[*y]);
                    ensure!((**a == **b) == want, "{:?} == {:?} is {}", w.vals[*x], w.vals[*y], !want);
                }
            }
            8 => {
                name = "drop";
                tr!(ctx, "#{} drop", s);
                if let Some(n) = armed {
                    fault::arm(n, 0xff);
                }
                let old = std::mem::replace(&mut w.h[s], Handle::None);
                let r = catch(|| drop(old));
                let fired = fault::disarm();
                match r {
                    Err(e) if !fired => bad!("dropping a handle panicked: {}", e),
                    Err(_) => {
                        loose = true;
                        ctx.label("user panic injected");
                    }
                    Ok(()) => {}
                }
            }
            _ => {
                name = "unwrap_or_clone";
                let old = std::mem::replace(&mut w.h[s], Handle::None);
                if let Handle::Ref(r, v) = old {
                    let m = w.vals[v].clone();
                    let c = PoolRef::unwrap_or_clone(r);
                    ensure!(c.list() == m && c.live(), "unwrap_or_clone gave {:?}, expected {:?}", c.list(), m);
                    let nv = w.value(m);
                    w.h[s] = Handle::Box(PoolBox::new(&pool, c), nv);
                } else {
                    w.h[s] = old;
                }
            }
        }
        drop(pool);
        w.see(name)?;
        if owned && !loose {
            w.owned(name)?;
        }
    }
    ctx.label_if(reused, "default in pool memory");
    // SAFETY: taken once
    let (h, pool) = unsafe { (ManuallyDrop::take(&mut w.h), ManuallyDrop::take(&mut w.pool)) };
    drop(h);
    drop(pool);
    if let Some(e) = fault::errors() {
        bad!("at the end: {}", e)
    }
    if E::TRACKED && !loose {
        ensure!(fault::live_count() == 0 && fault::zst_live() == 0, "{} items alive at the end", fault::live_count() + fault::zst_live());
    }
    Ok(())
}

pub fn history<E: Elem>(src: &mut Src, ctx: &mut Ctx, fuse: u64, owned: bool) -> Res {
    match src.int(10) {
        0 => run::<E, Chunk<E, 1>>(src, ctx, fuse, owned),
        1 => run::<E, Chunk<E, 4>>(src, ctx, fuse, owned),
        2 | 3 => run::<E, Chunk<E, 8>>(src, ctx, fuse, owned),
        4 => run::<E, RingBuffer<E, 3>>(src, ctx, fuse, owned),
        5 | 6 => run::<E, RingBuffer<E, 8>>(src, ctx, fuse, owned),
        7 => run::<E, SparseChunk<E, 4>>(src, ctx, fuse, owned),
        8 => run::<E, SparseChunk<E, 8>>(src, ctx, fuse, owned),
        _ => run::<E, SparseChunk<E, 65>>(src, ctx, fuse, owned),
    }
}

//! Histories of operations over a pool of `InlineArray`s of one type.

use crate::elem::{Elem, M};
use crate::engine::{Ctx, Res, Src};
use crate::fault::{self, catch};
use crate::feed::{Claim, Feed};
use crate::seq::{hash_of, run_script, Edit, Guarded};
use crate::seqworld::{pack, Oracle};
use crate::{bad, ensure, ensure_eq, tr};
use sized_chunks::{Chunk, InlineArray};
use std::any::Any;
use std::cmp::Ordering;
use std::mem::ManuallyDrop;

pub type BoxIn<E> = Box<dyn In<E>>;

/// Capacities of the chunks conversions go to.
pub const CHUNK_TO: [usize; 8] = [0, 1, 2, 3, 4, 8, 16, 64];

/// Object-safe view of `InlineArray` that erases the host type.
pub trait In<E: Elem> {
    fn host(&self) -> &'static str;
    fn cap(&self) -> usize;
    fn intact(&self) -> bool;
    fn any(&self) -> &dyn Any;
    fn any_mut(&mut self) -> &mut dyn Any;
    fn mk_new(&self) -> BoxIn<E>;
    fn mk_default(&self) -> BoxIn<E>;
    fn mk_from_iter(&self, it: &mut dyn Iterator<Item = E>) -> BoxIn<E>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn is_full(&self) -> bool;
    fn slice(&self) -> &[E];
    fn slice_mut(&mut self) -> &mut [E];
    fn push(&mut self, a: E);
    fn pop(&mut self) -> Option<E>;
    fn insert(&mut self, i: usize, a: E);
    fn remove(&mut self, i: usize) -> Option<E>;
    fn split_off(&mut self, i: usize) -> BoxIn<E>;
    fn clear(&mut self);
    fn extend(&mut self, it: &mut dyn Iterator<Item = E>);
    fn extend_ref(&mut self, it: &mut dyn Iterator<Item = &E>) -> bool;
    fn drain(&mut self, script: &[bool], out: &mut Vec<Option<E>>);
    fn into_iter(self: Box<Self>, script: &[bool], out: &mut Vec<Option<E>>);
    fn each_mut(&mut self, f: &mut dyn FnMut(&mut E));
    fn clone_box(&self) -> BoxIn<E>;
    fn clone_from_other(&mut self, o: &dyn In<E>);
    fn relocate(self: Box<Self>) -> BoxIn<E>;
    fn swap_with(&mut self, o: &mut dyn In<E>);
    fn eq_other(&self, o: &dyn In<E>) -> bool;
    fn eq_slice(&self, o: &[E]) -> bool;
    fn cmp_other(&self, o: &dyn In<E>) -> (Ordering, Option<Ordering>);
    fn hash_it(&self) -> u64;
    fn debug(&self) -> String;
    /// Convert to a chunk: by draining (`by_ref`) or by value (of a clone-free
    /// moved-out array, leaving a new one). Contents of the chunk, in order.
    fn to_chunk(&mut self, to: usize, by_ref: bool) -> Vec<E>;
}

fn unload<E, const N: usize>(c: Chunk<E, N>) -> Vec<E> {
    let mut c = c;
    let mut v = Vec::new();
    assert!(c.len() == c.as_slice().len());
    while !c.is_empty() && v.len() <= N {
        v.push(c.pop_front())
    }
    v
}

impl<E: Elem, T: 'static> In<E> for Guarded<InlineArray<E, T>> {
    fn host(&self) -> &'static str {
        std::any::type_name::<T>()
    }
    fn cap(&self) -> usize {
        InlineArray::<E, T>::CAPACITY
    }
    fn intact(&self) -> bool {
        Guarded::intact(self)
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn mk_new(&self) -> BoxIn<E> {
        Box::new(Guarded::new(InlineArray::<E, T>::new()))
    }
    fn mk_default(&self) -> BoxIn<E> {
        Box::new(Guarded::new(InlineArray::<E, T>::default()))
    }
    fn mk_from_iter(&self, it: &mut dyn Iterator<Item = E>) -> BoxIn<E> {
        Box::new(Guarded::new(it.collect::<InlineArray<E, T>>()))
    }
    fn len(&self) -> usize {
        self.c.len()
    }
    fn is_empty(&self) -> bool {
        self.c.is_empty()
    }
    fn is_full(&self) -> bool {
        self.c.is_full()
    }
    fn slice(&self) -> &[E] {
        crate::views::view(&self.c)
    }
    fn slice_mut(&mut self) -> &mut [E] {
        crate::views::view_mut(&mut self.c)
    }
    fn push(&mut self, a: E) {
        self.c.push(a)
    }
    fn pop(&mut self) -> Option<E> {
        self.c.pop()
    }
    fn insert(&mut self, i: usize, a: E) {
        self.c.insert(i, a)
    }
    fn remove(&mut self, i: usize) -> Option<E> {
        self.c.remove(i)
    }
    fn split_off(&mut self, i: usize) -> BoxIn<E> {
        Box::new(Guarded::new(self.c.split_off(i)))
    }
    fn clear(&mut self) {
        self.c.clear()
    }
    fn extend_ref(&mut self, it: &mut dyn Iterator<Item = &E>) -> bool {
        E::inline_extend_ref(&mut self.c, it)
    }
    fn extend(&mut self, it: &mut dyn Iterator<Item = E>) {
        Extend::<E>::extend(&mut self.c, it)
    }
    fn drain(&mut self, script: &[bool], out: &mut Vec<Option<E>>) {
        run_script(&mut self.c.drain(), script, out)
    }
    fn into_iter(self: Box<Self>, script: &[bool], out: &mut Vec<Option<E>>) {
        let g = *self;
        let mut it = g.c.into_iter();
        run_script(&mut it, script, out)
    }
    fn each_mut(&mut self, f: &mut dyn FnMut(&mut E)) {
        for x in &mut self.c {
            f(x)
        }
    }
    fn clone_box(&self) -> BoxIn<E> {
        Box::new(Guarded::new(self.c.clone()))
    }
    fn clone_from_other(&mut self, o: &dyn In<E>) {
        self.c.clone_from(&o.any().downcast_ref::<Self>().unwrap().c)
    }
    fn relocate(self: Box<Self>) -> BoxIn<E> {
        let v = *self;
        let moved = Some(v);
        Box::new(moved.unwrap())
    }
    fn swap_with(&mut self, o: &mut dyn In<E>) {
        std::mem::swap(&mut self.c, &mut o.any_mut().downcast_mut::<Self>().unwrap().c)
    }
    fn eq_other(&self, o: &dyn In<E>) -> bool {
        self.c == o.any().downcast_ref::<Self>().unwrap().c
    }
    fn eq_slice(&self, o: &[E]) -> bool {
        let v: Vec<E> = o.to_vec();
        self.c == v
    }
    fn cmp_other(&self, o: &dyn In<E>) -> (Ordering, Option<Ordering>) {
        let o = &o.any().downcast_ref::<Self>().unwrap().c;
        (self.c.cmp(o), self.c.partial_cmp(o))
    }
    fn hash_it(&self) -> u64 {
        hash_of(&self.c)
    }
    fn debug(&self) -> String {
        format!("{:?}", self.c)
    }
    fn to_chunk(&mut self, to: usize, by_ref: bool) -> Vec<E> {
        macro_rules! conv {
            ($n:literal) => {
                if by_ref {
                    unload(Chunk::<E, $n>::from(&mut self.c))
                } else {
                    let a = std::mem::replace(&mut self.c, InlineArray::new());
                    unload(Chunk::<E, $n>::from(a))
                }
            };
        }
        match to {
            0 => conv!(0),
            1 => conv!(1),
            2 => conv!(2),
            3 => conv!(3),
            4 => conv!(4),
            8 => conv!(8),
            16 => conv!(16),
            _ => conv!(64),
        }
    }
}

/// Hosts without padding bytes (padding is not preserved by moves of the host).
#[repr(align(16))]
pub struct H16(#[allow(dead_code)] pub [u8; 16]);
#[repr(align(32))]
pub struct H32(#[allow(dead_code)] pub [u8; 32]);
#[repr(align(64))]
pub struct H64(#[allow(dead_code)] pub [u8; 64]);

macro_rules! hosts {
    ($E:ty, $i:expr, [$($n:literal => $T:ty),* $(,)?]) => { match $i { $($n => Box::new(Guarded::new(InlineArray::<$E, $T>::new())) as BoxIn<$E>,)* n => panic!("host {} not instantiated", n) } };
}
pub const HOSTS: usize = 20;
pub fn in_all<E: Elem>(i: usize) -> BoxIn<E> {
    hosts!(E, i, [
        0 => [usize; 1], 1 => [usize; 2], 2 => [usize; 3], 3 => [usize; 4], 4 => [usize; 5], 5 => [usize; 9], 6 => [usize; 33],
        7 => [u8; 8], 8 => [u8; 9], 9 => [u8; 10], 10 => [u8; 23], 11 => [u8; 64], 12 => [u16; 13], 13 => [u32; 7],
        14 => [u64; 16], 15 => [H16; 3], 16 => [H32; 5], 17 => [H64; 1], 18 => [H64; 4], 19 => [u8; 300],
    ])
}
pub const FEW_HOSTS: usize = 6;
pub fn in_few<E: Elem>(i: usize) -> BoxIn<E> {
    hosts!(E, i, [0 => [usize; 3], 1 => [usize; 5], 2 => [u8; 64], 3 => [u8; 300], 4 => [H64; 4], 5 => [usize; 33]])
}

pub const LARGE_HOSTS: usize = 4;
pub fn in_large<E: Elem>(i: usize) -> BoxIn<E> {
    hosts!(E, i, [0 => [u64; 300], 1 => [u16; 1300], 2 => [u8; 5000], 3 => [H64; 40]])
}
/// Room for more than 16 bits can count.
pub fn in_larger(i: usize) -> BoxIn<u8> {
    hosts!(u8, i, [0 => [u8; 70000], 1 => [u64; 8193], 2 => [u64; 8194], 3 => [u16; 16400]])
}

/// The whole observable state agrees with the model.
pub fn check_model<E: Elem>(s: &dyn In<E>, m: &[M], what: &dyn std::fmt::Display) -> Res {
    ensure!(s.intact(), "{}: memory next to the container was overwritten", what);
    ensure_eq!(s.len(), m.len(), "{}: len()", what);
    ensure_eq!(s.is_empty(), m.is_empty(), "{}: is_empty()", what);
    ensure_eq!(s.is_full(), m.len() == s.cap(), "{}: is_full() with {} of {}", what, m.len(), s.cap());
    let sl = s.slice();
    ensure_eq!(sl.len(), m.len(), "{}: slice length", what);
    for (i, (x, m)) in sl.iter().zip(m).enumerate() {
        ensure!(x.intact() && x.m() == *m, "{}: item {} is {:?}{}, expected {:?}", what, i, x.m(), if x.intact() { "" } else { " (not a live item)" }, m);
    }
    Ok(())
}
pub fn contents<E: Elem>(s: &dyn In<E>) -> Vec<M> {
    s.slice().iter().take(5000).map(|x| x.m()).collect()
}

#[derive(Clone)]
pub struct InCfg {
    pub wild: u64,
    pub fuse: u64,
    pub lies: u64,
    pub oracle: Oracle,
    pub keys: usize,
    pub max_ops: usize,
    pub avg_ops: u64,
    pub slots: usize,
}
impl InCfg {
    pub const fn model() -> Self {
        InCfg { wild: 0, fuse: 0, lies: 0, oracle: Oracle::Model, keys: 12, max_ops: 120, avg_ops: 14, slots: 3 }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Push(usize, M),
    Pop(usize),
    Insert(usize, usize, M),
    Remove(usize, usize),
    SplitOff(usize, usize, usize),
    Clear(usize),
    Extend(usize, Feed),
    FromIter(usize, Feed),
    Drain(usize, Vec<bool>),
    IntoIter(usize, Vec<bool>),
    Clone(usize, usize),
    CloneFrom(usize, usize),
    Relocate(usize),
    Swap(usize, usize),
    Fresh(usize, bool),
    IterMut(usize, Vec<M>),
    Write(usize, usize, M),
    Edit(usize, Edit),
    Compare(usize, usize),
    HashDebug(usize),
    ToChunk(usize, usize, bool),
}
const NOPS: usize = 21;
const W: [u32; NOPS] = [12, 8, 14, 12, 8, 1, 5, 3, 4, 2, 4, 1, 3, 2, 1, 2, 3, 3, 3, 1, 4];

struct Got<E> {
    vals: Vec<Option<E>>,
    newc: Option<BoxIn<E>>,
    nums: Vec<u64>,
}
fn gv<E>(vals: Vec<Option<E>>) -> Got<E> {
    Got { vals, newc: None, nums: vec![] }
}
fn gc<E>(c: BoxIn<E>) -> Got<E> {
    Got { vals: vec![], newc: Some(c), nums: vec![] }
}
fn gn<E>(nums: Vec<u64>) -> Got<E> {
    Got { vals: vec![], newc: None, nums }
}
enum Want {
    Ok(Vec<Option<M>>, Option<Vec<M>>, Vec<u64>),
    Refuse,
    /// Panics, keeping a prefix of what was offered.
    RefusePrefix(usize, Vec<M>),
}

pub struct InWorld<E: Elem> {
    pub slots: ManuallyDrop<Vec<(BoxIn<E>, Vec<M>)>>,
    pub next: u32,
    pub cap: usize,
    /// Bound used for generation (zero-sized items have no capacity bound).
    pub soft: usize,
    pub cfg: InCfg,
}

impl<E: Elem> InWorld<E> {
    pub fn new(cfg: InCfg, mk: fn(usize) -> BoxIn<E>, host: usize) -> Self {
        let slots: Vec<_> = (0..cfg.slots).map(|_| (mk(host), Vec::new())).collect();
        let cap = slots[0].0.cap();
        InWorld { slots: ManuallyDrop::new(slots), next: 1, cap, soft: cap.min(40), cfg }
    }
    fn fresh(&mut self, src: &mut Src) -> M {
        let key = src.int(self.cfg.keys) as u32;
        self.auto(key)
    }
    fn auto(&mut self, key: u32) -> M {
        let uid = self.next;
        self.next += 1;
        E::norm(M { key: key % self.cfg.keys as u32, uid })
    }
    pub fn arrange(&mut self, src: &mut Src, s: usize, ctx: &mut Ctx) {
        let top = if self.cap > 1 << 40 { self.soft } else { self.cap };
        let len = src.upto(top);
        tr!(ctx, "arrange slot {} len {}", s, len);
        for i in 0..len {
            let m = self.auto(i as u32 * 5);
            self.slots[s].0.push(E::make(m));
            self.slots[s].1.push(m);
        }
    }
    fn slot(&self, src: &mut Src) -> usize {
        if src.exhaustive() {
            0
        } else {
            src.int(self.cfg.slots)
        }
    }
    fn dest(&self, src: &mut Src) -> usize {
        if src.exhaustive() {
            1
        } else {
            src.int(self.cfg.slots)
        }
    }
    fn other(&self, src: &mut Src, a: usize) -> usize {
        let k = 1 + src.int(self.cfg.slots - 1);
        (a + k) % self.cfg.slots
    }
    fn wild(&self, src: &mut Src) -> bool {
        self.cfg.wild > 0 && src.flag(self.cfg.wild, 16)
    }
    fn arg(&self, src: &mut Src, max: usize) -> usize {
        if self.wild(src) {
            let c = self.cap;
            let l = [max.wrapping_add(1), max + 2, c.max(max + 1), c.saturating_add(1), usize::MAX, usize::MAX / 2 + 1, usize::MAX - max, 1 << 61, 1 << 62, 1 << 63];
            return l[src.int(l.len())].max(max + 1);
        }
        src.upto(max)
    }
    fn room(&self, s: usize) -> usize {
        let n = self.slots[s].1.len();
        (self.cap - n).min(if self.cap > 1 << 40 { 12 } else { usize::MAX })
    }
    fn feed(&mut self, src: &mut Src, room: usize) -> Feed {
        let n = if self.wild(src) && self.cap < 1 << 40 { room + 1 + src.int(3) } else { src.upto(room) };
        let items = (0..n).map(|i| self.auto(i as u32 * 3)).collect::<Vec<_>>();
        let claim = if self.cfg.lies > 0 && src.flag(self.cfg.lies, 16) {
            let l = [0, n + 1, n.saturating_sub(1), room + 1, usize::MAX, usize::MAX / 2, room];
            let k = 1 + src.int(3);
            Claim::Lies((0..k).map(|_| l[src.int(l.len())]).collect())
        } else if src.flag(1, 4) {
            Claim::Vague
        } else {
            Claim::Honest
        };
        Feed { items, claim }
    }
    fn script(&self, src: &mut Src, len: usize) -> Vec<bool> {
        let n = src.upto((len + 1).min(if src.exhaustive() { 4 } else { 20 }));
        let dir = src.int(3);
        (0..n).map(|_| match dir { 0 => false, 1 => true, _ => src.flag(1, 2) }).collect()
    }
    fn plan(&mut self, src: &mut Src) -> Option<Op> {
        let k = src.weighted(&W);
        let a = self.slot(src);
        let n = self.slots[a].1.len();
        let full = self.room(a) == 0;
        // refused calls only where they are asked for
        let over = full && !self.wild(src);
        Some(match k {
            0 => {
                if over {
                    return None;
                }
                Op::Push(a, self.fresh(src))
            }
            1 => Op::Pop(a),
            2 => {
                if over {
                    return None;
                }
                let i = self.arg(src, n);
                Op::Insert(a, i, self.fresh(src))
            }
            // out of bounds is part of the contract here: None
            3 => {
                let i = if src.flag(1, 12) { n + src.int(3) } else { self.arg(src, n.saturating_sub(1)) };
                Op::Remove(a, i)
            }
            4 => {
                let i = self.arg(src, n);
                Op::SplitOff(a, i, self.dest(src))
            }
            5 => Op::Clear(a),
            6 => {
                let r = self.room(a);
                Op::Extend(a, self.feed(src, r))
            }
            7 => {
                let d = self.dest(src);
                let top = self.cap.min(self.soft.max(1) * 4);
                Op::FromIter(d, self.feed(src, top.min(self.cap)))
            }
            8 => Op::Drain(a, self.script(src, n)),
            9 => Op::IntoIter(a, self.script(src, n)),
            10 => Op::Clone(a, self.dest(src)),
            11 => Op::CloneFrom(a, self.other(src, a)),
            12 => Op::Relocate(a),
            13 => Op::Swap(a, self.other(src, a)),
            14 => Op::Fresh(a, src.flag(1, 2)),
            15 => {
                let k = src.int(3) as u32;
                Op::IterMut(a, (0..n as u32).map(|i| self.auto(i * 3 + k)).collect())
            }
            16 => {
                if n == 0 {
                    return None;
                }
                let i = src.upto(n - 1);
                Op::Write(a, i, self.fresh(src))
            }
            17 => {
                let e = match src.int(4) {
                    0 if n > 0 && src.exhaustive() => Edit::Swap(src.upto(n - 1), [0, n - 1][src.int(2)]),
                    0 if n > 0 => Edit::Swap(src.upto(n - 1), src.upto(n - 1)),
                    1 => Edit::Reverse,
                    2 => Edit::RotateLeft(src.upto(n)),
                    _ => Edit::Sort,
                };
                Op::Edit(a, e)
            }
            18 => Op::Compare(a, self.other(src, a)),
            19 => Op::HashDebug(a),
            _ => {
                let fits: Vec<usize> = CHUNK_TO.iter().copied().filter(|c| *c >= n).collect();
                let to = if self.wild(src) { CHUNK_TO[src.int(CHUNK_TO.len())] } else if fits.is_empty() { return None } else { fits[src.int(fits.len())] };
                Op::ToChunk(a, to, src.flag(1, 2))
            }
        })
    }
    fn roles(op: &Op) -> (Vec<usize>, Option<usize>) {
        use Op::*;
        match op {
            Push(a, _) | Pop(a) | Insert(a, ..) | Remove(a, _) | Clear(a) | Extend(a, _) | Drain(a, _) | IntoIter(a, _) | Relocate(a) | Fresh(a, _) | IterMut(a, _) | Write(a, ..) | Edit(a, _)
            | ToChunk(a, ..) => (vec![*a], None),
            SplitOff(a, _, d) => (vec![*a], Some(*d)),
            FromIter(d, _) => (vec![], Some(*d)),
            Clone(_, d) => (vec![], Some(*d)),
            CloneFrom(a, _) => (vec![*a], None),
            Swap(a, b) => (vec![*a, *b], None),
            Compare(..) | HashDebug(_) => (vec![], None),
        }
    }
    fn pair_mut(&mut self, a: usize, b: usize) -> (&mut BoxIn<E>, &mut BoxIn<E>) {
        assert!(a != b);
        if a < b {
            let (x, y) = self.slots.split_at_mut(b);
            (&mut x[a].0, &mut y[0].0)
        } else {
            let (x, y) = self.slots.split_at_mut(a);
            (&mut y[0].0, &mut x[b].0)
        }
    }
    fn run(&mut self, op: &Op) -> Got<E> {
        use Op::*;
        match op {
            Push(a, m) => {
                self.slots[*a].0.push(E::make(*m));
                gn(vec![])
            }
            Pop(a) => gv(vec![self.slots[*a].0.pop()]),
            Insert(a, i, m) => {
                self.slots[*a].0.insert(*i, E::make(*m));
                gn(vec![])
            }
            Remove(a, i) => gv(vec![self.slots[*a].0.remove(*i)]),
            SplitOff(a, i, _) => gc(self.slots[*a].0.split_off(*i)),
            Clear(a) => {
                self.slots[*a].0.clear();
                gn(vec![])
            }
            Extend(a, f) => {
                // by reference every other time, if the items are `Copy`
                let by_ref = f.items.first().map_or(false, |m| m.key % 2 == 1);
                if by_ref && E::inline_extend_ref(&mut sized_chunks::InlineArray::<E, [u64; 2]>::new(), &mut [].iter()) {
                    let given: Vec<E> = f.iter::<E>().collect();
                    self.slots[*a].0.extend_ref(&mut given.iter());
                    return gn(vec![]);
                }
                let mut it = f.iter::<E>();
                self.slots[*a].0.extend(&mut it);
                gn(vec![])
            }
            FromIter(d, f) => {
                let mut it = f.iter::<E>();
                gc(self.slots[*d].0.mk_from_iter(&mut it))
            }
            Drain(a, s) => {
                let mut out = vec![];
                self.slots[*a].0.drain(s, &mut out);
                gv(out)
            }
            IntoIter(a, s) => {
                let mut out = vec![];
                let fresh = self.slots[*a].0.mk_new();
                let c = std::mem::replace(&mut self.slots[*a].0, fresh);
                c.into_iter(s, &mut out);
                gv(out)
            }
            Clone(a, _) => gc(self.slots[*a].0.clone_box()),
            CloneFrom(a, b) => {
                let (x, y) = self.pair_mut(*a, *b);
                x.clone_from_other(&**y);
                gn(vec![])
            }
            Relocate(a) => {
                let fresh = self.slots[*a].0.mk_new();
                let c = std::mem::replace(&mut self.slots[*a].0, fresh);
                self.slots[*a].0 = c.relocate();
                gn(vec![])
            }
            Swap(a, b) => {
                let (x, y) = self.pair_mut(*a, *b);
                x.swap_with(&mut **y);
                gn(vec![])
            }
            Fresh(a, d) => {
                let c = if *d { self.slots[*a].0.mk_default() } else { self.slots[*a].0.mk_new() };
                drop(std::mem::replace(&mut self.slots[*a].0, c));
                gn(vec![])
            }
            IterMut(a, ms) => {
                let mut k = 0;
                let mut seen = vec![];
                self.slots[*a].0.each_mut(&mut |x| {
                    seen.push(pack(x.m()));
                    if let Some(m) = ms.get(k) {
                        x.write(*m)
                    }
                    k += 1
                });
                gn(seen)
            }
            Write(a, i, m) => {
                self.slots[*a].0.slice_mut()[*i].write(*m);
                gn(vec![])
            }
            Edit(a, e) => {
                let s = self.slots[*a].0.slice_mut();
                match e {
                    self::Edit::Swap(i, j) => s.swap(*i, *j),
                    self::Edit::Reverse => s.reverse(),
                    self::Edit::RotateLeft(k) => s.rotate_left(*k),
                    self::Edit::Sort => s.sort(),
                }
                gn(vec![])
            }
            Compare(a, b) => {
                let x = &self.slots[*a].0;
                let y = &self.slots[*b].0;
                let (c, p) = x.cmp_other(&**y);
                gn(vec![x.eq_other(&**y) as u64, c as i8 as u64, p.map(|p| p as i8 as u64).unwrap_or(9)])
            }
            HashDebug(a) => {
                let x = &self.slots[*a].0;
                let items: Vec<E> = self.slots[*a].1.iter().map(|m| E::make(*m)).collect();
                gn(vec![(x.hash_it() == hash_of(&items[..])) as u64, x.debug().ends_with(&format!("{:?}", items)) as u64, x.eq_slice(&items) as u64])
            }
            ToChunk(a, to, by_ref) => gv(self.slots[*a].0.to_chunk(*to, *by_ref).into_iter().map(Some).collect()),
        }
    }
    fn predict(&mut self, op: &Op) -> Want {
        use Op::*;
        let cap = self.cap;
        let ok = || Want::Ok(vec![], None, vec![]);
        match op {
            Push(a, m) => {
                let v = &mut self.slots[*a].1;
                if v.len() >= cap {
                    return Want::Refuse;
                }
                v.push(*m);
                ok()
            }
            Pop(a) => Want::Ok(vec![self.slots[*a].1.pop()], None, vec![]),
            Insert(a, i, m) => {
                let v = &mut self.slots[*a].1;
                if v.len() >= cap || *i > v.len() {
                    return Want::Refuse;
                }
                v.insert(*i, *m);
                ok()
            }
            Remove(a, i) => {
                let v = &mut self.slots[*a].1;
                let r = if *i < v.len() { Some(v.remove(*i)) } else { None };
                Want::Ok(vec![r], None, vec![])
            }
            SplitOff(a, i, _) => {
                let v = &mut self.slots[*a].1;
                if *i > v.len() {
                    return Want::Refuse;
                }
                let t = v.split_off(*i);
                Want::Ok(vec![], Some(t), vec![])
            }
            Clear(a) => {
                self.slots[*a].1.clear();
                ok()
            }
            Extend(a, f) => {
                let v = &mut self.slots[*a].1;
                if f.items.len() > cap - v.len() {
                    return Want::RefusePrefix(*a, f.items.clone());
                }
                v.extend(&f.items);
                ok()
            }
            FromIter(_, f) => {
                if f.items.len() > cap {
                    return Want::Refuse;
                }
                Want::Ok(vec![], Some(f.items.clone()), vec![])
            }
            Drain(a, s) | IntoIter(a, s) => {
                let v = &mut self.slots[*a].1;
                let mut out = vec![];
                for b in s {
                    out.push(if v.is_empty() {
                        None
                    } else if *b {
                        v.pop()
                    } else {
                        Some(v.remove(0))
                    })
                }
                if matches!(op, IntoIter(..)) {
                    v.clear();
                }
                Want::Ok(out, None, vec![])
            }
            Clone(a, _) => Want::Ok(vec![], Some(self.slots[*a].1.clone()), vec![]),
            CloneFrom(a, b) => {
                self.slots[*a].1 = self.slots[*b].1.clone();
                ok()
            }
            Relocate(_) => ok(),
            Swap(a, b) => {
                let x = self.slots[*a].1.clone();
                self.slots[*a].1 = std::mem::replace(&mut self.slots[*b].1, x);
                ok()
            }
            Fresh(a, _) => {
                self.slots[*a].1.clear();
                ok()
            }
            IterMut(a, ms) => {
                let v = &mut self.slots[*a].1;
                let seen = v.iter().map(|m| pack(*m)).collect();
                v.clone_from(ms);
                Want::Ok(vec![], None, seen)
            }
            Write(a, i, m) => {
                self.slots[*a].1[*i] = *m;
                ok()
            }
            Edit(a, e) => {
                let v = &mut self.slots[*a].1;
                match e {
                    self::Edit::Swap(i, j) => v.swap(*i, *j),
                    self::Edit::Reverse => v.reverse(),
                    self::Edit::RotateLeft(k) => v.rotate_left(*k),
                    self::Edit::Sort => v.sort_by_key(|m| m.key),
                }
                ok()
            }
            Compare(a, b) => {
                let x: Vec<u32> = self.slots[*a].1.iter().map(|m| m.key).collect();
                let y: Vec<u32> = self.slots[*b].1.iter().map(|m| m.key).collect();
                let c = x.cmp(&y) as i8 as u64;
                Want::Ok(vec![], None, vec![(x == y) as u64, c, c])
            }
            HashDebug(_) => Want::Ok(vec![], None, vec![1, 1, 1]),
            ToChunk(a, to, _) => {
                let v = &mut self.slots[*a].1;
                if v.len() > *to {
                    return Want::Refuse;
                }
                Want::Ok(std::mem::take(v).into_iter().map(Some).collect(), None, vec![])
            }
        }
    }
    fn given(op: &Op) -> Vec<M> {
        use Op::*;
        match op {
            Push(_, m) | Insert(_, _, m) | Write(_, _, m) => vec![*m],
            Extend(_, f) | FromIter(_, f) => f.items.clone(),
            IterMut(_, m) => m.clone(),
            _ => vec![],
        }
    }
    pub fn step(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        let op = match self.plan(src) {
            Some(op) => op,
            None => return Ok(()),
        };
        let armed = if self.cfg.fuse > 0 && src.flag(self.cfg.fuse, 16) {
            Some((1 + src.upto(2 * self.cap.min(24) + 4) as u64, if src.flag(1, 2) { 1 << (src.int(5) as u8) } else { 0xff }))
        } else {
            None
        };
        self.apply(op, armed, ctx)
    }
    fn valid(&self, c: &dyn In<E>, held: &[M], what: &dyn std::fmt::Display) -> Res {
        ensure!(c.intact(), "{}: memory next to the container was overwritten", what);
        ensure!(c.len() <= self.cap, "{} left length {} over capacity {}", what, c.len(), self.cap);
        ensure!(c.is_empty() == (c.len() == 0) && c.is_full() == (c.len() == self.cap), "{}: is_empty/is_full disagree with len {}", what, c.len());
        for (i, x) in c.slice().iter().enumerate() {
            ensure!(x.intact(), "{}: item {} is not live", what, i);
            ensure!(E::ZST || held.contains(&x.m()), "{}: item {} is {:?}, which was neither held nor given", what, i, x.m());
            if i > 5000 {
                break;
            }
        }
        Ok(())
    }
    pub fn apply(&mut self, op: Op, armed: Option<(u64, u8)>, ctx: &mut Ctx) -> Res {
        tr!(ctx, "{:?}{}", op, match armed { Some((n, m)) => format!(" [panic at user call {} mask {:#x}]", n, m), None => String::new() });
        let before: Vec<Vec<M>> = self.slots.iter().map(|s| s.1.clone()).collect();
        let (changes, target) = Self::roles(&op);
        match &op {
            Op::Insert(a, i, _) | Op::Remove(a, i) | Op::SplitOff(a, i, _) => {
                let n = before[*a].len();
                if n >= 2 && *i < n && self.cap > 0 {
                    ctx.nontrivial = true;
                    ctx.label("insert/remove/split before the end");
                }
                ctx.label_if(n == self.cap && n > 0, "on a full array");
            }
            Op::ToChunk(a, to, _) => ctx.label_if(before[*a].len() == *to && *to > 0, "conversion that just fits"),
            _ => {}
        }
        // these look at contents through user code
        if matches!(op, Op::HashDebug(_)) && (self.cfg.fuse > 0 || self.cfg.oracle == Oracle::Owner) {
            return Ok(());
        }
        let want = self.predict(&op);
        if let Some((n, mask)) = armed {
            fault::arm(n, mask)
        }
        let got = catch(|| self.run(&op));
        let fired = fault::disarm();
        ctx.observe(got.is_ok() as u64);
        let what = format_args!("{:?} on {:?}", op, before);
        if fired {
            ctx.label("user panic injected");
            ctx.label_if(got.is_err(), "operation unwound");
            ctx.nontrivial = true;
            let mut held = Self::given(&op);
            if let Op::CloneFrom(_, b) = &op {
                held.extend(before[*b].iter().copied());
            }
            for s in &changes {
                held.extend(before[*s].iter().copied());
            }
            if let Some(to) = target {
                self.slots[to].1 = before[to].clone();
            }
            if let Ok(mut g) = got {
                if let (Some(c), Some(to)) = (g.newc.take(), target) {
                    let all: Vec<M> = before.iter().flatten().copied().chain(Self::given(&op)).collect();
                    self.valid(&*c, &all, &what)?;
                    let m = contents(&*c);
                    drop(std::mem::replace(&mut self.slots[to].0, c));
                    self.slots[to].1 = m;
                }
                g.vals.clear();
            }
            for s in 0..self.slots.len() {
                if changes.contains(&s) && target != Some(s) {
                    self.valid(&*self.slots[s].0, &held, &what)?;
                    let m = contents(&*self.slots[s].0);
                    self.slots[s].1 = m;
                } else {
                    if target != Some(s) {
                        self.slots[s].1 = before[s].clone();
                    } else if changes.contains(&s) {
                        let m = contents(&*self.slots[s].0);
                        self.slots[s].1 = m;
                    }
                    check_model(&*self.slots[s].0, &self.slots[s].1, &what)?;
                }
            }
            if let Some(e) = fault::errors() {
                bad!("{}: {}", what, e)
            }
            return self.distinct(&what);
        }
        let judge = self.cfg.oracle != Oracle::Owner;
        match (want, got) {
            (Want::Refuse, Ok(mut g)) => {
                ensure!(!judge, "{} (capacity {}) must be refused but completed", what, self.cap);
                if let (Some(c), Some(to)) = (g.newc.take(), target) {
                    drop(std::mem::replace(&mut self.slots[to].0, c));
                }
            }
            (Want::Refuse, Err(_)) => {
                ctx.label("refused");
                // by-value conversion: the array itself was given up
                if let Op::ToChunk(a, _, false) = &op {
                    self.slots[*a].1.clear();
                }
            }
            (Want::RefusePrefix(s, items), r) => {
                ensure!(!judge || r.is_err(), "{} (capacity {}) must be refused but completed", what, self.cap);
                ctx.label("refused");
                let now = contents(&*self.slots[s].0);
                if judge {
                    let b = &before[s];
                    let k = now.len().wrapping_sub(b.len());
                    ensure!(
                        now.len() >= b.len() && k <= items.len() && now[..b.len()] == b[..] && now[b.len()..] == items[..k],
                        "{} was refused but left {:?}", what, now
                    );
                }
                self.slots[s].1 = now;
            }
            (Want::Ok(..), Err(e)) => bad!("{} (capacity {}) panicked: {}", what, self.cap, e),
            (Want::Ok(vals, newm, nums), Ok(mut g)) => {
                let gvals: Vec<Option<M>> = g.vals.iter().map(|v| v.as_ref().map(|x| x.m())).collect();
                for v in g.vals.iter().flatten() {
                    ensure!(v.intact(), "{} returned an item that is not live", what);
                }
                for v in &gvals {
                    ctx.observe(v.map(pack).unwrap_or(u64::MAX));
                }
                for v in &g.nums {
                    ctx.observe(*v);
                }
                if judge {
                    ensure_eq!(gvals, vals, "{} returned", what);
                    ensure_eq!(g.nums, nums, "{} answered", what);
                }
                g.vals.clear();
                if let (Some(c), Some(to)) = (g.newc.take(), target) {
                    drop(std::mem::replace(&mut self.slots[to].0, c));
                    self.slots[to].1 = newm.unwrap();
                }
            }
        }
        for s in 0..self.slots.len() {
            if judge {
                check_model(&*self.slots[s].0, &self.slots[s].1, &format_args!("slot {} after {}", s, what))?;
            } else {
                ensure!(self.slots[s].0.intact(), "memory next to the container was overwritten by {}", what);
                let m = contents(&*self.slots[s].0);
                self.slots[s].1 = m;
            }
            if ctx.obs_on {
                ctx.observe(self.slots[s].1.len() as u64);
                for m in &self.slots[s].1 {
                    ctx.observe(pack(*m));
                }
            }
        }
        if E::TRACKED {
            if self.cfg.fuse > 0 {
                self.distinct(&what)?
            } else {
                self.ownership(&what)?
            }
        }
        Ok(())
    }
    fn ids(&self) -> Vec<u32> {
        self.slots.iter().flat_map(|s| s.0.slice().iter().take(5000).filter_map(|x| x.id()).collect::<Vec<_>>()).collect()
    }
    fn distinct(&self, what: &dyn std::fmt::Display) -> Res {
        let mut v = self.ids();
        let n = v.len();
        v.sort();
        v.dedup();
        ensure!(v.len() == n, "after {} the same item is visible in two places", what);
        Ok(())
    }
    fn ownership(&self, what: &dyn std::fmt::Display) -> Res {
        if let Some(e) = fault::errors() {
            bad!("{}: {}", what, e)
        }
        if E::ZST {
            let n: usize = self.slots.iter().map(|s| s.0.len()).sum();
            ensure_eq!(fault::zst_live(), n as i64, "after {}: zero-sized items alive", what);
            return Ok(());
        }
        for s in self.slots.iter() {
            ensure!(s.0.slice().iter().take(5000).all(|x| x.intact()), "after {} an array shows an item that is not live", what);
        }
        self.distinct(what)?;
        ensure_eq!(fault::live_count(), self.ids().len() as i64, "after {}: items alive against items held", what);
        Ok(())
    }
    pub fn finish(mut self, exact: bool) -> Res {
        // SAFETY: taken once, self.slots is not used again
        let slots = unsafe { ManuallyDrop::take(&mut self.slots) };
        drop(slots);
        if let Some(e) = fault::errors() {
            bad!("at the end: {}", e)
        }
        if E::TRACKED && exact {
            ensure!(fault::live_count() == 0 && fault::zst_live() == 0, "{} items still alive after every container was dropped", fault::live_count() + fault::zst_live());
        }
        Ok(())
    }
}

pub fn history<E: Elem>(src: &mut Src, ctx: &mut Ctx, cfg: InCfg, hosts: usize, mk: fn(usize) -> BoxIn<E>) -> Res {
    let mut host = src.int(hosts);
    // mostly hosts with room for something
    for _ in 0..4 {
        if mk(host).cap() > 0 {
            break;
        }
        host = src.int(hosts);
    }
    let exact = cfg.fuse == 0;
    let mut w = InWorld::<E>::new(cfg, mk, host);
    tr!(ctx, "InlineArray<{}, {}> capacity {}", E::NAME, w.slots[0].0.host(), w.cap);
    for s in 0..w.cfg.slots {
        if src.flag(3, 4) {
            w.arrange(src, s, ctx);
        }
    }
    let mut done = 0;
    let (max, avg) = (w.cfg.max_ops, w.cfg.avg_ops);
    while src.more(done, max, avg) {
        w.step(src, ctx)?;
        done += 1;
    }
    ctx.label_if(w.cap == 0, "zero capacity");
    ctx.label_if(w.cap > 1 << 8 && w.cap < 1 << 40 && done >= 2, "capacity past 8 bits");
    ctx.label_if(w.cap > 1 << 15 && w.cap < 1 << 40 && done >= 2, "capacity past 16 bits");
    w.finish(exact)
}

/// Every fill of a host, then `ops` operations with every argument.
pub fn small_scope<E: Elem>(src: &mut Src, ctx: &mut Ctx, mut cfg: InCfg, hosts: &[usize], mk: fn(usize) -> BoxIn<E>, ops: usize) -> Res {
    let host = *src.pick(hosts);
    cfg.slots = 2;
    cfg.keys = 1;
    let exact = cfg.fuse == 0;
    let mut w = InWorld::<E>::new(cfg, mk, host);
    tr!(ctx, "InlineArray<{}, {}> capacity {}", E::NAME, w.slots[0].0.host(), w.cap);
    w.soft = w.cap.min(8);
    w.arrange(src, 0, ctx);
    src.shard_here()?;
    for _ in 0..ops {
        w.step(src, ctx)?;
    }
    w.finish(exact)
}

/// Conversions into chunks of every instantiated capacity, after a short history.
pub fn conversions<E: Elem>(src: &mut Src, ctx: &mut Ctx, cfg: InCfg, hosts: usize, mk: fn(usize) -> BoxIn<E>) -> Res {
    let mut host = src.int(hosts);
    for _ in 0..4 {
        if mk(host).cap() > 0 {
            break;
        }
        host = src.int(hosts);
    }
    let mut w = InWorld::<E>::new(cfg, mk, host);
    tr!(ctx, "InlineArray<{}, {}> capacity {}", E::NAME, w.slots[0].0.host(), w.cap);
    for s in 0..w.cfg.slots {
        w.arrange(src, s, ctx);
    }
    let mut done = 0;
    while src.more(done, 20, 4) {
        if src.flag(1, 2) {
            w.step(src, ctx)?;
        } else {
            let a = src.int(w.cfg.slots);
            let to = CHUNK_TO[src.int(CHUNK_TO.len())];
            let by_value = src.flag(1, 2);
            w.apply(Op::ToChunk(a, to, by_value), None, ctx)?;
        }
        done += 1;
    }
    w.finish(true)
}

/// Every fill of every host, converted into every chunk capacity, both ways.
pub fn all_conversions<E: Elem>(src: &mut Src, ctx: &mut Ctx, mut cfg: InCfg, hosts: usize, mk: fn(usize) -> BoxIn<E>) -> Res {
    let host = src.int(hosts);
    cfg.slots = 2;
    let mut w = InWorld::<E>::new(cfg, mk, host);
    tr!(ctx, "InlineArray<{}, {}> capacity {}", E::NAME, w.slots[0].0.host(), w.cap);
    w.arrange(src, 0, ctx);
    src.shard_here()?;
    let to = CHUNK_TO[src.int(CHUNK_TO.len())];
    let by_value = src.flag(1, 2);
    w.apply(Op::ToChunk(0, to, by_value), None, ctx)?;
    // both sides stay usable
    let m = w.auto(1);
    if w.slots[0].1.len() < w.cap {
        w.apply(Op::Push(0, m), None, ctx)?;
    }
    w.finish(true)
}

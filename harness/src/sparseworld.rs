//! Histories of operations over a pool of `SparseChunk`s of one type.

use crate::elem::{Elem, M};
use crate::engine::{Ctx, Res, Src};
use crate::fault::{self, catch, Hook};
use crate::seq::Guarded;
use crate::seqworld::{pack, Oracle};
use crate::{bad, ensure, ensure_eq, tr};
use bitmaps::{Bits, BitsImpl};
use sized_chunks::SparseChunk;
use std::any::Any;
use std::collections::BTreeMap;
#[cfg(feature = "std")]
use std::collections::HashMap;
use std::mem::ManuallyDrop;

pub type BoxSp<E> = Box<dyn Sp<E>>;
pub type Map = BTreeMap<usize, M>;

/// Object-safe view of `SparseChunk` that erases the capacity.
pub trait Sp<E: Elem> {
    fn cap(&self) -> usize;
    fn intact(&self) -> bool;
    fn any(&self) -> &dyn Any;
    fn any_mut(&mut self) -> &mut dyn Any;
    fn mk_new(&self) -> BoxSp<E>;
    fn mk_default(&self) -> BoxSp<E>;
    fn mk_unit(&self, i: usize, a: E) -> BoxSp<E>;
    fn mk_pair(&self, i: usize, a: E, j: usize, b: E) -> BoxSp<E>;
    fn mk_collect(&self, it: &mut dyn Iterator<Item = Option<E>>) -> BoxSp<E>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn is_full(&self) -> bool;
    fn insert(&mut self, i: usize, a: E) -> Option<E>;
    fn remove(&mut self, i: usize) -> Option<E>;
    fn pop(&mut self) -> Option<E>;
    fn get(&self, i: usize) -> Option<&E>;
    fn get_mut(&mut self, i: usize) -> Option<&mut E>;
    fn index(&self, i: usize) -> &E;
    fn index_mut(&mut self, i: usize) -> &mut E;
    fn first_index(&self) -> Option<usize>;
    fn indices(&self) -> Vec<usize>;
    fn each(&self, f: &mut dyn FnMut(&E));
    fn each_mut(&mut self, f: &mut dyn FnMut(&mut E));
    fn entries(&self, f: &mut dyn FnMut(usize, &E));
    fn options(&self, f: &mut dyn FnMut(Option<&E>));
    fn options_mut(&mut self, f: &mut dyn FnMut(Option<&mut E>));
    fn drain(self: Box<Self>, steps: usize, via_into: bool, out: &mut Vec<Option<E>>);
    fn option_drain(self: Box<Self>, steps: usize, out: &mut Vec<Option<Option<E>>>);
    fn clone_box(&self) -> BoxSp<E>;
    fn clone_from_other(&mut self, o: &dyn Sp<E>);
    fn pool_clone(&self) -> Option<BoxSp<E>>;
    fn relocate(self: Box<Self>) -> BoxSp<E>;
    fn swap_with(&mut self, o: &mut dyn Sp<E>);
    fn eq_other(&self, o: &dyn Sp<E>) -> bool;
    fn eq_btree(&self, o: &BTreeMap<usize, E>) -> bool;
    fn eq_hash(&self, o: &BTreeMap<usize, E>) -> bool;
    fn debug(&self) -> String;
}

impl<E: Elem, const N: usize> Sp<E> for Guarded<SparseChunk<E, N>>
where
    BitsImpl<N>: Bits,
    <BitsImpl<N> as Bits>::Store: 'static,
{
    fn cap(&self) -> usize {
        SparseChunk::<E, N>::CAPACITY
    }
    fn intact(&self) -> bool {
        Guarded::intact(self)
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn mk_new(&self) -> BoxSp<E> {
        Box::new(Guarded::new(SparseChunk::<E, N>::new()))
    }
    fn mk_default(&self) -> BoxSp<E> {
        Box::new(Guarded::new(SparseChunk::<E, N>::default()))
    }
    fn mk_unit(&self, i: usize, a: E) -> BoxSp<E> {
        Box::new(Guarded::new(SparseChunk::<E, N>::unit(i, a)))
    }
    fn mk_pair(&self, i: usize, a: E, j: usize, b: E) -> BoxSp<E> {
        Box::new(Guarded::new(SparseChunk::<E, N>::pair(i, a, j, b)))
    }
    fn mk_collect(&self, it: &mut dyn Iterator<Item = Option<E>>) -> BoxSp<E> {
        Box::new(Guarded::new(it.collect::<SparseChunk<E, N>>()))
    }
    fn len(&self) -> usize {
        self.c.len()
    }
    fn is_empty(&self) -> bool {
        self.c.is_empty()
    }
    fn is_full(&self) -> bool {
        self.c.is_full()
    }
    fn insert(&mut self, i: usize, a: E) -> Option<E> {
        self.c.insert(i, a)
    }
    fn remove(&mut self, i: usize) -> Option<E> {
        self.c.remove(i)
    }
    fn pop(&mut self) -> Option<E> {
        self.c.pop()
    }
    fn get(&self, i: usize) -> Option<&E> {
        self.c.get(i)
    }
    fn get_mut(&mut self, i: usize) -> Option<&mut E> {
        self.c.get_mut(i)
    }
    fn index(&self, i: usize) -> &E {
        &self.c[i]
    }
    fn index_mut(&mut self, i: usize) -> &mut E {
        &mut self.c[i]
    }
    fn first_index(&self) -> Option<usize> {
        self.c.first_index()
    }
    fn indices(&self) -> Vec<usize> {
        self.c.indices().take(N + 1).collect()
    }
    fn each(&self, f: &mut dyn FnMut(&E)) {
        for x in self.c.iter().take(N + 1) {
            f(x)
        }
    }
    fn each_mut(&mut self, f: &mut dyn FnMut(&mut E)) {
        for x in self.c.iter_mut().take(N + 1) {
            f(x)
        }
    }
    fn entries(&self, f: &mut dyn FnMut(usize, &E)) {
        for (i, x) in self.c.entries().take(N + 1) {
            f(i, x)
        }
    }
    fn options(&self, f: &mut dyn FnMut(Option<&E>)) {
        for x in self.c.option_iter().take(N + 1) {
            f(x)
        }
    }
    fn options_mut(&mut self, f: &mut dyn FnMut(Option<&mut E>)) {
        for x in self.c.option_iter_mut().take(N + 1) {
            f(x)
        }
    }
    fn drain(self: Box<Self>, steps: usize, via_into: bool, out: &mut Vec<Option<E>>) {
        let g = *self;
        let mut it = if via_into { g.c.into_iter() } else { g.c.drain() };
        for _ in 0..steps {
            out.push(it.next())
        }
    }
    fn option_drain(self: Box<Self>, steps: usize, out: &mut Vec<Option<Option<E>>>) {
        let g = *self;
        let mut it = g.c.option_drain();
        for _ in 0..steps {
            out.push(it.next())
        }
    }
    fn clone_box(&self) -> BoxSp<E> {
        Box::new(Guarded::new(self.c.clone()))
    }
    fn clone_from_other(&mut self, o: &dyn Sp<E>) {
        self.c.clone_from(&o.any().downcast_ref::<Self>().unwrap().c)
    }
    #[cfg(feature = "pool")]
    fn pool_clone(&self) -> Option<BoxSp<E>> {
        use std::mem::MaybeUninit;
        let mut m: MaybeUninit<SparseChunk<E, N>> = MaybeUninit::uninit();
        // SAFETY: fills our own uninitialised memory with junk; then as a pool calls it
        let c = unsafe {
            std::ptr::write_bytes(&mut m, 0xA5, 1);
            refpool::PoolClone::clone_uninit(&self.c, &mut m);
            m.assume_init()
        };
        Some(Box::new(Guarded::new(c)))
    }
    #[cfg(not(feature = "pool"))]
    fn pool_clone(&self) -> Option<BoxSp<E>> {
        None
    }
    fn relocate(self: Box<Self>) -> BoxSp<E> {
        let v = *self;
        let moved = Some(v);
        Box::new(moved.unwrap())
    }
    fn swap_with(&mut self, o: &mut dyn Sp<E>) {
        std::mem::swap(&mut self.c, &mut o.any_mut().downcast_mut::<Self>().unwrap().c)
    }
    fn eq_other(&self, o: &dyn Sp<E>) -> bool {
        self.c == o.any().downcast_ref::<Self>().unwrap().c
    }
    #[cfg(feature = "std")]
    fn eq_btree(&self, o: &BTreeMap<usize, E>) -> bool {
        self.c == *o
    }
    #[cfg(feature = "std")]
    fn eq_hash(&self, o: &BTreeMap<usize, E>) -> bool {
        let h: HashMap<usize, E> = o.iter().map(|(k, v)| (*k, v.clone())).collect();
        self.c == h
    }
    #[cfg(not(feature = "std"))]
    fn eq_btree(&self, _: &BTreeMap<usize, E>) -> bool {
        false
    }
    #[cfg(not(feature = "std"))]
    fn eq_hash(&self, _: &BTreeMap<usize, E>) -> bool {
        false
    }
    fn debug(&self) -> String {
        format!("{:?}", self.c)
    }
}

pub const SP_CAPS: &[(usize, u32)] = &[
    (1, 3), (2, 4), (3, 5), (5, 5), (7, 4), (8, 5), (9, 3), (15, 2), (16, 4), (17, 3), (31, 4), (32, 5), (33, 4), (48, 2), (63, 4), (64, 5), (65, 4), (100, 2),
    (127, 3), (128, 4), (129, 3), (200, 2), (255, 2), (256, 2), (257, 2), (512, 1), (1000, 1), (1023, 1), (1024, 1),
];
pub const SP_SMALL: &[(usize, u32)] = &[(1, 2), (2, 2), (3, 3), (5, 4), (8, 4), (9, 3), (32, 2), (33, 2), (64, 3), (65, 3), (128, 2), (129, 2), (200, 1)];
pub const SP_TINY: &[(usize, u32)] = &[(1, 1), (2, 2), (3, 3), (5, 3), (9, 2), (65, 1), (129, 1)];

macro_rules! sp_cap {
    ($E:ty, $cap:expr, [$($n:literal),*]) => { match $cap { $($n => Box::new(Guarded::new(SparseChunk::<$E, $n>::new())) as BoxSp<$E>,)* n => panic!("capacity {} not instantiated", n) } };
}
pub fn sp_all<E: Elem>(cap: usize) -> BoxSp<E> {
    sp_cap!(E, cap, [1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 512, 1000, 1023, 1024])
}
pub fn sp_small<E: Elem>(cap: usize) -> BoxSp<E> {
    sp_cap!(E, cap, [1, 2, 3, 5, 8, 9, 32, 33, 64, 65, 128, 129, 200])
}
pub fn sp_tiny<E: Elem>(cap: usize) -> BoxSp<E> {
    sp_cap!(E, cap, [1, 2, 3, 5, 9, 65, 129])
}

/// What the chunk shows (index -> value), by checked access.
pub fn contents<E: Elem>(s: &dyn Sp<E>) -> Map {
    let mut out = Map::new();
    for i in 0..s.cap() {
        if let Some(x) = s.get(i) {
            out.insert(i, x.m());
        }
    }
    out
}

/// The whole observable state agrees with the model.
pub fn check_model<E: Elem>(s: &dyn Sp<E>, m: &Map, what: &dyn std::fmt::Display) -> Res {
    let cap = s.cap();
    ensure!(s.intact(), "{}: memory next to the container was overwritten", what);
    ensure_eq!(s.len(), m.len(), "{}: len()", what);
    ensure_eq!(s.is_empty(), m.is_empty(), "{}: is_empty()", what);
    ensure_eq!(s.is_full(), m.len() == cap, "{}: is_full() with {} of {}", what, m.len(), cap);
    ensure_eq!(s.first_index(), m.keys().next().copied(), "{}: first_index()", what);
    for i in 0..cap {
        let got = s.get(i);
        if let Some(x) = got {
            ensure!(m.contains_key(&i) && x.intact(), "{}: get({}) shows {:?}, expected {:?}", what, i, x.intact().then(|| x.m()), m.get(&i));
        }
        ensure_eq!(got.map(|x| x.m()), m.get(&i).copied(), "{}: get({})", what, i);
    }
    ensure!(s.get(cap).is_none(), "{}: get(CAPACITY) is Some", what);
    ensure_eq!(s.indices(), m.keys().copied().collect::<Vec<_>>(), "{}: indices()", what);
    let mut v: Vec<M> = Vec::new();
    s.each(&mut |x| v.push(x.m()));
    ensure_eq!(v, m.values().copied().collect::<Vec<_>>(), "{}: iter()", what);
    Ok(())
}

#[derive(Clone)]
pub struct SpCfg {
    pub wild: u64,
    pub fuse: u64,
    pub oracle: Oracle,
    pub keys: usize,
    pub max_ops: usize,
    pub avg_ops: u64,
    pub slots: usize,
}
impl SpCfg {
    pub const fn model() -> Self {
        SpCfg { wild: 0, fuse: 0, oracle: Oracle::Model, keys: 12, max_ops: 120, avg_ops: 14, slots: 3 }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Insert(usize, usize, M),
    Remove(usize, usize),
    Pop(usize),
    GetWrite(usize, usize, M),
    IndexRead(usize, usize),
    IndexWrite(usize, usize, M),
    IterMut(usize, Vec<M>),
    OptionsMut(usize, Vec<M>),
    Views(usize),
    Unit(usize, usize, M),
    Pair(usize, usize, M, usize, M),
    Collect(usize, Vec<Option<M>>),
    Drain(usize, usize, bool),
    OptionDrain(usize, usize),
    Clone(usize, usize),
    CloneFrom(usize, usize),
    PoolClone(usize, usize),
    Relocate(usize),
    Swap(usize, usize),
    Fresh(usize, bool),
    Compare(usize, usize),
    CompareMap(usize, Map),
    Debug(usize),
}
const NOPS: usize = 23;
const W: [u32; NOPS] = [30, 18, 6, 3, 3, 3, 3, 3, 3, 1, 2, 2, 2, 2, 3, 1, 1, 1, 1, 1, 3, 2, 1];

struct Got<E> {
    vals: Vec<Option<E>>,
    newc: Option<BoxSp<E>>,
    nums: Vec<u64>,
}
fn got_v<E>(v: Option<E>) -> Got<E> {
    Got { vals: vec![v], newc: None, nums: vec![] }
}
fn got_c<E>(c: BoxSp<E>) -> Got<E> {
    Got { vals: vec![], newc: Some(c), nums: vec![] }
}
fn got_n<E>(n: Vec<u64>) -> Got<E> {
    Got { vals: vec![], newc: None, nums: n }
}
fn got_0<E>() -> Got<E> {
    got_n(vec![])
}

pub struct SpWorld<E: Elem> {
    pub slots: ManuallyDrop<Vec<(BoxSp<E>, Map)>>,
    pub next: u32,
    pub cap: usize,
    pub cfg: SpCfg,
}

impl<E: Elem> SpWorld<E> {
    pub fn new(cfg: SpCfg, cap: usize, mk: fn(usize) -> BoxSp<E>) -> Self {
        let slots = (0..cfg.slots).map(|_| (mk(cap), Map::new())).collect();
        SpWorld { slots: ManuallyDrop::new(slots), next: 1, cap, cfg }
    }
    fn fresh(&mut self, src: &mut Src) -> M {
        let key = src.int(self.cfg.keys) as u32;
        self.auto(key)
    }
    fn auto(&mut self, key: u32) -> M {
        let uid = self.next;
        self.next += 1;
        E::norm(M { key: key % self.cfg.keys as u32, uid })
    }
    /// Inhabit a chosen set of indices.
    pub fn arrange(&mut self, src: &mut Src, s: usize, ctx: &mut Ctx) {
        let cap = self.cap;
        let how = if src.exhaustive() && cap <= 10 { 4 } else { src.int(4) };
        let mut idx: Vec<usize> = match how {
            0 => vec![],
            1 => (0..cap).collect(),
            2 => {
                let n = src.upto(cap.min(12));
                (0..n).map(|_| src.upto(cap - 1)).collect()
            }
            3 => {
                let a = src.upto(cap - 1);
                let step = 1 + src.int(3);
                (a..cap).step_by(step).collect()
            }
            _ => {
                let mask = src.int(1 << cap);
                (0..cap).filter(|i| mask >> i & 1 == 1).collect()
            }
        };
        idx.sort();
        idx.dedup();
        tr!(ctx, "arrange slot {} with indices {:?}", s, idx);
        for i in idx {
            let m = self.auto(i as u32 * 7);
            let (c, mm) = &mut self.slots[s];
            c.insert(i, E::make(m));
            mm.insert(i, m);
        }
    }
    fn slot(&self, src: &mut Src) -> usize {
        if src.exhaustive() {
            0
        } else {
            src.int(self.cfg.slots)
        }
    }
    fn dest(&self, src: &mut Src) -> usize {
        if src.exhaustive() {
            1
        } else {
            src.int(self.cfg.slots)
        }
    }
    fn other(&self, src: &mut Src, a: usize) -> usize {
        let k = 1 + src.int(self.cfg.slots - 1);
        (a + k) % self.cfg.slots
    }
    /// An index in range (often an inhabited one), or wild.
    fn idx(&self, src: &mut Src, s: usize) -> usize {
        let cap = self.cap;
        if self.cfg.wild > 0 && src.flag(self.cfg.wild, 16) {
            let l = [cap, cap + 1, 2 * cap, cap * 64, 64 * ((cap + 63) / 64), 1024, 4096, usize::MAX, usize::MAX / 2 + 1, 1 << 32, (1 << 32) + cap - 1, usize::MAX - cap, 1 << 63];
            return l[src.int(l.len())].max(cap);
        }
        if !src.exhaustive() {
            let m = &self.slots[s].1;
            if !m.is_empty() && src.flag(1, 2) {
                let k = src.int(m.len());
                return *m.keys().nth(k).unwrap();
            }
        }
        src.upto(cap - 1)
    }
    fn plan(&mut self, src: &mut Src) -> Op {
        let k = src.weighted(&W);
        let a = self.slot(src);
        let n = self.slots[a].1.len();
        match k {
            0 => {
                let i = self.idx(src, a);
                Op::Insert(a, i, self.fresh(src))
            }
            1 => Op::Remove(a, self.idx(src, a)),
            2 => Op::Pop(a),
            3 => {
                let i = self.idx(src, a);
                Op::GetWrite(a, i, self.fresh(src))
            }
            4 => Op::IndexRead(a, self.idx(src, a)),
            5 => {
                let i = self.idx(src, a);
                Op::IndexWrite(a, i, self.fresh(src))
            }
            6 => {
                let b = src.int(3) as u32;
                Op::IterMut(a, (0..n as u32).map(|i| self.auto(b + i)).collect())
            }
            7 => {
                let b = src.int(3) as u32;
                Op::OptionsMut(a, (0..n as u32).map(|i| self.auto(b + i)).collect())
            }
            8 => Op::Views(a),
            9 => {
                let d = self.dest(src);
                let i = self.idx(src, d);
                Op::Unit(d, i, self.fresh(src))
            }
            10 => {
                let d = self.dest(src);
                let i = self.idx(src, d);
                let x = self.fresh(src);
                let j = if src.flag(1, 8) { i } else { self.idx(src, d) };
                Op::Pair(d, i, x, j, self.fresh(src))
            }
            11 => {
                let d = self.dest(src);
                let mut n = src.upto(self.cap);
                if self.cfg.wild > 0 && src.flag(self.cfg.wild, 16) {
                    n = self.cap + 1 + src.int(2);
                }
                let pat = src.int(4);
                let mut v: Vec<Option<M>> = Vec::new();
                for i in 0..n {
                    let some = match pat {
                        0 => true,
                        1 => i % 2 == 0,
                        2 => i % 3 == 1,
                        _ => i + 1 >= n,
                    };
                    v.push(if some { Some(self.auto(i as u32)) } else { None });
                }
                Op::Collect(d, v)
            }
            12 => Op::Drain(a, src.upto(n + 1), src.flag(1, 2)),
            13 => Op::OptionDrain(a, src.upto(self.cap + 1)),
            14 => Op::Clone(a, self.dest(src)),
            15 => Op::CloneFrom(a, self.other(src, a)),
            16 => Op::PoolClone(a, self.dest(src)),
            17 => Op::Relocate(a),
            18 => Op::Swap(a, self.other(src, a)),
            19 => Op::Fresh(a, src.flag(1, 2)),
            20 => Op::Compare(a, self.other(src, a)),
            21 => {
                // a map equal to the contents, or one change away
                let mut m = self.slots[a].1.clone();
                match src.int(5) {
                    0 | 1 => {}
                    2 => {
                        let i = self.idx(src, a) % self.cap;
                        m.remove(&i);
                    }
                    3 => {
                        let i = self.idx(src, a) % self.cap;
                        let x = self.fresh(src);
                        m.insert(i, x);
                    }
                    _ => {
                        // one moved outside the chunk
                        if let Some((i, x)) = m.iter().next().map(|(i, x)| (*i, *x)) {
                            m.remove(&i);
                            m.insert(self.cap + i, x);
                        }
                    }
                }
                Op::CompareMap(a, m)
            }
            _ => Op::Debug(a),
        }
    }
    /// (modified slots, read slots, slot the result goes to)
    fn roles(op: &Op) -> (Vec<usize>, Option<usize>) {
        use Op::*;
        match op {
            Insert(a, ..) | Remove(a, _) | Pop(a) | GetWrite(a, ..) | IndexWrite(a, ..) | IterMut(a, _) | OptionsMut(a, _) | Drain(a, ..) | OptionDrain(a, _) | Relocate(a) | Fresh(a, _) => (vec![*a], None),
            IndexRead(..) | Views(_) | Compare(..) | CompareMap(..) | Debug(_) => (vec![], None),
            Unit(d, ..) | Pair(d, ..) | Collect(d, _) => (vec![], Some(*d)),
            Clone(_, d) | PoolClone(_, d) => (vec![], Some(*d)),
            CloneFrom(a, _) => (vec![*a], None),
            Swap(a, b) => (vec![*a, *b], None),
        }
    }
    fn pair_mut(&mut self, a: usize, b: usize) -> (&mut BoxSp<E>, &mut BoxSp<E>) {
        assert!(a != b);
        if a < b {
            let (x, y) = self.slots.split_at_mut(b);
            (&mut x[a].0, &mut y[0].0)
        } else {
            let (x, y) = self.slots.split_at_mut(a);
            (&mut y[0].0, &mut x[b].0)
        }
    }
    fn run(&mut self, op: &Op) -> Got<E> {
        use Op::*;
        match op {
            Insert(a, i, m) => got_v(self.slots[*a].0.insert(*i, E::make(*m))),
            Remove(a, i) => got_v(self.slots[*a].0.remove(*i)),
            Pop(a) => got_v(self.slots[*a].0.pop()),
            GetWrite(a, i, m) => match self.slots[*a].0.get_mut(*i) {
                Some(x) => {
                    x.write(*m);
                    got_n(vec![1])
                }
                None => got_n(vec![0]),
            },
            IndexRead(a, i) => got_n(vec![pack(self.slots[*a].0.index(*i).m())]),
            IndexWrite(a, i, m) => {
                self.slots[*a].0.index_mut(*i).write(*m);
                got_0()
            }
            IterMut(a, ms) => {
                let mut k = 0;
                let mut seen = vec![];
                self.slots[*a].0.each_mut(&mut |x| {
                    seen.push(pack(x.m()));
                    if let Some(m) = ms.get(k) {
                        x.write(*m)
                    }
                    k += 1;
                });
                got_n(seen)
            }
            OptionsMut(a, ms) => {
                let mut k = 0;
                let mut seen = vec![];
                self.slots[*a].0.options_mut(&mut |x| match x {
                    Some(x) => {
                        seen.push(pack(x.m()));
                        if let Some(m) = ms.get(k) {
                            x.write(*m)
                        }
                        k += 1;
                    }
                    None => seen.push(u64::MAX),
                });
                got_n(seen)
            }
            Views(a) => {
                let mut v = vec![];
                let c = &self.slots[*a].0;
                c.entries(&mut |i, x| {
                    v.push(i as u64);
                    v.push(pack(x.m()))
                });
                c.options(&mut |x| v.push(x.map(|x| pack(x.m())).unwrap_or(u64::MAX)));
                got_n(v)
            }
            Unit(d, i, m) => got_c(self.slots[*d].0.mk_unit(*i, E::make(*m))),
            Pair(d, i, x, j, y) => got_c(self.slots[*d].0.mk_pair(*i, E::make(*x), *j, E::make(*y))),
            Collect(d, v) => {
                let items: Vec<Option<E>> = v.iter().map(|m| m.map(E::make)).collect();
                let mut it = items.into_iter().map(|x| {
                    fault::tick(Hook::Iter);
                    x
                });
                got_c(self.slots[*d].0.mk_collect(&mut it))
            }
            Drain(a, steps, via) => {
                let mut out = vec![];
                let fresh = self.slots[*a].0.mk_new();
                let c = std::mem::replace(&mut self.slots[*a].0, fresh);
                c.drain(*steps, *via, &mut out);
                Got { vals: out, newc: None, nums: vec![] }
            }
            OptionDrain(a, steps) => {
                let mut out = vec![];
                let fresh = self.slots[*a].0.mk_new();
                let c = std::mem::replace(&mut self.slots[*a].0, fresh);
                c.option_drain(*steps, &mut out);
                let nums = out.iter().map(|x| x.is_some() as u64).collect();
                Got { vals: out.into_iter().map(|x| x.flatten()).collect(), newc: None, nums }
            }
            Clone(a, _) => got_c(self.slots[*a].0.clone_box()),
            PoolClone(a, _) => match self.slots[*a].0.pool_clone() {
                Some(c) => got_c(c),
                None => got_c(self.slots[*a].0.clone_box()),
            },
            CloneFrom(a, b) => {
                let (x, y) = self.pair_mut(*a, *b);
                x.clone_from_other(&**y);
                got_0()
            }
            Relocate(a) => {
                let fresh = self.slots[*a].0.mk_new();
                let c = std::mem::replace(&mut self.slots[*a].0, fresh);
                self.slots[*a].0 = c.relocate();
                got_0()
            }
            Swap(a, b) => {
                let (x, y) = self.pair_mut(*a, *b);
                x.swap_with(&mut **y);
                got_0()
            }
            Fresh(a, d) => {
                let c = if *d { self.slots[*a].0.mk_default() } else { self.slots[*a].0.mk_new() };
                let old = std::mem::replace(&mut self.slots[*a].0, c);
                drop(old);
                got_0()
            }
            Compare(a, b) => {
                let x = &self.slots[*a].0;
                let y = &self.slots[*b].0;
                got_n(vec![x.eq_other(&**y) as u64, y.eq_other(&**x) as u64])
            }
            CompareMap(a, m) => {
                let e: BTreeMap<usize, E> = m.iter().map(|(k, v)| (*k, E::make(*v))).collect();
                let x = &self.slots[*a].0;
                got_n(vec![x.eq_btree(&e) as u64, x.eq_hash(&e) as u64])
            }
            Debug(a) => {
                let s = self.slots[*a].0.debug();
                let want: Vec<u64> = self.slots[*a].1.iter().map(|(k, v)| (*k as u64) << 48 ^ pack(*v)).collect();
                // the entries in order, as a map
                let text: BTreeMap<usize, E> = self.slots[*a].1.iter().map(|(k, v)| (*k, E::make(*v))).collect();
                let ok = s.ends_with(&format!("{:?}", text));
                let _ = want;
                got_n(vec![ok as u64])
            }
        }
    }
    /// Update the models; what the call must give. None: it must be refused.
    fn predict(&mut self, op: &Op) -> Option<(Vec<Option<M>>, Option<Map>, Vec<u64>)> {
        use Op::*;
        let cap = self.cap;
        let eqk = |a: &Map, b: &Map| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && x.1.key == y.1.key);
        Some(match op {
            Insert(a, i, m) => {
                if *i >= cap {
                    return None;
                }
                (vec![self.slots[*a].1.insert(*i, *m)], None, vec![])
            }
            Remove(a, i) => {
                if *i >= cap {
                    return None;
                }
                (vec![self.slots[*a].1.remove(i)], None, vec![])
            }
            Pop(a) => {
                let m = &mut self.slots[*a].1;
                let k = m.keys().next().copied();
                (vec![k.and_then(|k| m.remove(&k))], None, vec![])
            }
            GetWrite(a, i, x) => match self.slots[*a].1.get_mut(i) {
                Some(v) => {
                    *v = *x;
                    (vec![], None, vec![1])
                }
                None => (vec![], None, vec![0]),
            },
            IndexRead(a, i) => match self.slots[*a].1.get(i) {
                Some(v) => (vec![], None, vec![pack(*v)]),
                None => return None,
            },
            IndexWrite(a, i, x) => match self.slots[*a].1.get_mut(i) {
                Some(v) => {
                    *v = *x;
                    (vec![], None, vec![])
                }
                None => return None,
            },
            IterMut(a, ms) => {
                let mut seen = vec![];
                for (v, m) in self.slots[*a].1.values_mut().zip(ms) {
                    seen.push(pack(*v));
                    *v = *m;
                }
                (vec![], None, seen)
            }
            OptionsMut(a, ms) => {
                let mut seen = vec![];
                let mut k = 0;
                let map = &mut self.slots[*a].1;
                for i in 0..cap {
                    match map.get_mut(&i) {
                        Some(v) => {
                            seen.push(pack(*v));
                            *v = ms[k];
                            k += 1;
                        }
                        None => seen.push(u64::MAX),
                    }
                }
                (vec![], None, seen)
            }
            Views(a) => {
                let m = &self.slots[*a].1;
                let mut v = vec![];
                for (i, x) in m {
                    v.push(*i as u64);
                    v.push(pack(*x));
                }
                for i in 0..cap {
                    v.push(m.get(&i).map(|x| pack(*x)).unwrap_or(u64::MAX));
                }
                (vec![], None, v)
            }
            Unit(_, i, m) => {
                if *i >= cap {
                    return None;
                }
                (vec![], Some(Map::from([(*i, *m)])), vec![])
            }
            Pair(_, i, x, j, y) => {
                if *i >= cap || *j >= cap {
                    return None;
                }
                let mut m = Map::new();
                m.insert(*i, *x);
                m.insert(*j, *y);
                (vec![], Some(m), vec![])
            }
            Collect(_, v) => {
                let mut m = Map::new();
                for (i, x) in v.iter().enumerate() {
                    if let Some(x) = x {
                        if i >= cap {
                            return None;
                        }
                        m.insert(i, *x);
                    }
                }
                (vec![], Some(m), vec![])
            }
            Drain(a, steps, _) => {
                let m = std::mem::take(&mut self.slots[*a].1);
                let vals: Vec<M> = m.values().copied().collect();
                ((0..*steps).map(|i| vals.get(i).copied()).collect(), None, vec![])
            }
            OptionDrain(a, steps) => {
                let m = std::mem::take(&mut self.slots[*a].1);
                ((0..*steps).map(|i| m.get(&i).copied()).collect(), None, (0..*steps).map(|i| (i < cap) as u64).collect())
            }
            Clone(a, _) | PoolClone(a, _) => (vec![], Some(self.slots[*a].1.clone()), vec![]),
            CloneFrom(a, b) => {
                self.slots[*a].1 = self.slots[*b].1.clone();
                (vec![], None, vec![])
            }
            Relocate(_) => (vec![], None, vec![]),
            Swap(a, b) => {
                let x = self.slots[*a].1.clone();
                self.slots[*a].1 = std::mem::replace(&mut self.slots[*b].1, x);
                (vec![], None, vec![])
            }
            Fresh(a, _) => {
                self.slots[*a].1.clear();
                (vec![], None, vec![])
            }
            Compare(a, b) => {
                let e = eqk(&self.slots[*a].1, &self.slots[*b].1) as u64;
                (vec![], None, vec![e, e])
            }
            CompareMap(a, m) => {
                let e = (eqk(&self.slots[*a].1, m) && cfg!(feature = "std")) as u64;
                (vec![], None, vec![e, e])
            }
            Debug(_) => (vec![], None, vec![1]),
        })
    }
    fn given(op: &Op) -> Vec<M> {
        use Op::*;
        match op {
            Insert(_, _, m) | GetWrite(_, _, m) | IndexWrite(_, _, m) | Unit(_, _, m) => vec![*m],
            Pair(_, _, a, _, b) => vec![*a, *b],
            IterMut(_, m) | OptionsMut(_, m) => m.clone(),
            Collect(_, v) => v.iter().flatten().copied().collect(),
            _ => vec![],
        }
    }
    pub fn step(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        let op = self.plan(src);
        let armed = if self.cfg.fuse > 0 && src.flag(self.cfg.fuse, 16) {
            Some((1 + src.upto(2 * self.cap.min(24) + 4) as u64, if src.flag(1, 2) { 1 << (src.int(5) as u8) } else { 0xff }))
        } else {
            None
        };
        self.apply(op, armed, ctx)
    }
    fn valid(&self, c: &dyn Sp<E>, held: &[M], what: &dyn std::fmt::Display) -> Res {
        ensure!(c.intact(), "{}: memory next to the container was overwritten", what);
        let idx = c.indices();
        ensure!(idx.len() == c.len() && idx.iter().all(|i| *i < self.cap), "{}: indices {:?} with len {}", what, idx, c.len());
        for i in 0..self.cap {
            match c.get(i) {
                Some(x) => {
                    ensure!(idx.contains(&i), "{}: get({}) is Some but the index is not listed", what, i);
                    ensure!(x.intact(), "{}: index {} shows an item that is not live", what, i);
                    ensure!(E::ZST || held.contains(&x.m()), "{}: index {} shows {:?}, which was neither held nor given", what, i, x.m());
                }
                None => ensure!(!idx.contains(&i), "{}: get({}) is None but the index is listed", what, i),
            }
        }
        Ok(())
    }
    pub fn apply(&mut self, op: Op, armed: Option<(u64, u8)>, ctx: &mut Ctx) -> Res {
        tr!(ctx, "{:?}{}", op, match armed { Some((n, m)) => format!(" [panic at user call {} mask {:#x}]", n, m), None => String::new() });
        let before: Vec<Map> = self.slots.iter().map(|s| s.1.clone()).collect();
        let (changes, target) = Self::roles(&op);
        if let Op::Insert(a, i, _) | Op::Remove(a, i) = &op {
            if self.slots[*a].1.len() >= 2 {
                ctx.nontrivial = true;
                ctx.label_if(*i >= 64 && *i < self.cap, "index 64 or more");
                ctx.label_if(self.slots[*a].1.contains_key(i), "inhabited index");
                ctx.label_if(self.slots[*a].1.len() == self.cap, "on a full chunk");
            }
        }
        if let Op::Debug(..) | Op::CompareMap(..) = &op {
            if self.cfg.fuse > 0 || self.cfg.oracle == Oracle::Owner && matches!(op, Op::Debug(..)) {
                return Ok(());
            }
        }
        let want = self.predict(&op);
        if let Some((n, mask)) = armed {
            fault::arm(n, mask)
        }
        let got = catch(|| self.run(&op));
        let fired = fault::disarm();
        ctx.observe(got.is_ok() as u64);
        let what = format_args!("{:?} on {:?}", op, before);
        if fired {
            ctx.label("user panic injected");
            ctx.label_if(got.is_err(), "operation unwound");
            ctx.nontrivial = true;
            let mut held = Self::given(&op);
            if let Op::CloneFrom(_, b) = &op {
                held.extend(before[*b].values().copied());
            }
            for s in &changes {
                held.extend(before[*s].values().copied());
            }
            if let Ok(mut g) = got {
                if let (Some(c), Some(to)) = (g.newc.take(), target) {
                    let all: Vec<M> = before.iter().flat_map(|m| m.values().copied()).chain(Self::given(&op)).collect();
                    self.valid(&*c, &all, &what)?;
                    let m = contents(&*c);
                    drop(std::mem::replace(&mut self.slots[to].0, c));
                    self.slots[to].1 = m;
                } else if let Some(to) = target {
                    self.slots[to].1 = before[to].clone();
                }
                g.vals.clear();
            } else if let Some(to) = target {
                self.slots[to].1 = before[to].clone();
            }
            for s in 0..self.slots.len() {
                if changes.contains(&s) {
                    self.valid(&*self.slots[s].0, &held, &what)?;
                    let m = contents(&*self.slots[s].0);
                    self.slots[s].1 = m;
                } else {
                    if target != Some(s) {
                        self.slots[s].1 = before[s].clone();
                    }
                    check_model(&*self.slots[s].0, &self.slots[s].1, &what)?;
                }
            }
            if let Some(e) = fault::errors() {
                bad!("{}: {}", what, e)
            }
            return self.distinct(&what);
        }
        let judge = self.cfg.oracle == Oracle::Model || self.cfg.fuse > 0;
        match (want, got) {
            (None, Ok(mut g)) => {
                ensure!(!judge, "{} (capacity {}) must be refused but completed", what, self.cap);
                if let (Some(c), Some(to)) = (g.newc.take(), target) {
                    drop(std::mem::replace(&mut self.slots[to].0, c));
                }
            }
            (None, Err(_)) => ctx.label("refused"),
            (Some(_), Err(e)) => bad!("{} (capacity {}) panicked: {}", what, self.cap, e),
            (Some((vals, newm, nums)), Ok(mut g)) => {
                let gv: Vec<Option<M>> = g.vals.iter().map(|v| v.as_ref().map(|x| x.m())).collect();
                for v in g.vals.iter().flatten() {
                    ensure!(v.intact(), "{} returned an item that is not live", what);
                }
                for v in &gv {
                    ctx.observe(v.map(pack).unwrap_or(u64::MAX));
                }
                if !matches!(op, Op::CompareMap(..) | Op::PoolClone(..)) {
                    for v in &g.nums {
                        ctx.observe(*v);
                    }
                }
                if judge {
                    ensure_eq!(gv, vals, "{} returned", what);
                    ensure_eq!(g.nums, nums, "{} answered", what);
                }
                g.vals.clear();
                if let (Some(c), Some(to)) = (g.newc.take(), target) {
                    drop(std::mem::replace(&mut self.slots[to].0, c));
                    self.slots[to].1 = newm.unwrap();
                }
            }
        }
        for s in 0..self.slots.len() {
            if judge {
                check_model(&*self.slots[s].0, &self.slots[s].1, &format_args!("slot {} after {}", s, what))?;
            } else {
                ensure!(self.slots[s].0.intact(), "memory next to the container was overwritten by {}", what);
                let m = contents(&*self.slots[s].0);
                self.slots[s].1 = m;
            }
            if ctx.obs_on {
                for (i, m) in &self.slots[s].1 {
                    ctx.observe(*i as u64);
                    ctx.observe(pack(*m));
                }
            }
        }
        if E::TRACKED {
            if self.cfg.fuse > 0 {
                self.distinct(&what)?
            } else {
                self.ownership(&what)?
            }
        }
        Ok(())
    }
    fn ids(&self) -> Vec<u32> {
        let mut v = vec![];
        for s in self.slots.iter() {
            for i in 0..self.cap {
                if let Some(x) = s.0.get(i) {
                    v.extend(x.id())
                }
            }
        }
        v
    }
    fn distinct(&self, what: &dyn std::fmt::Display) -> Res {
        let mut v = self.ids();
        let n = v.len();
        v.sort();
        v.dedup();
        ensure!(v.len() == n, "after {} the same item is visible in two places", what);
        Ok(())
    }
    fn ownership(&self, what: &dyn std::fmt::Display) -> Res {
        if let Some(e) = fault::errors() {
            bad!("{}: {}", what, e)
        }
        if E::ZST {
            let n: usize = self.slots.iter().map(|s| s.0.len()).sum();
            ensure_eq!(fault::zst_live(), n as i64, "after {}: zero-sized items alive", what);
            return Ok(());
        }
        for s in self.slots.iter() {
            for i in 0..self.cap {
                if let Some(x) = s.0.get(i) {
                    ensure!(x.intact(), "after {} index {} shows an item that is not live", what, i);
                }
            }
        }
        self.distinct(what)?;
        ensure_eq!(fault::live_count(), self.ids().len() as i64, "after {}: items alive against items held", what);
        Ok(())
    }
    pub fn finish(mut self, exact: bool) -> Res {
        // SAFETY: taken once, self.slots is not used again
        let slots = unsafe { ManuallyDrop::take(&mut self.slots) };
        drop(slots);
        if let Some(e) = fault::errors() {
            bad!("at the end: {}", e)
        }
        if E::TRACKED && exact {
            ensure!(fault::live_count() == 0 && fault::zst_live() == 0, "{} items still alive after every container was dropped", fault::live_count() + fault::zst_live());
        }
        Ok(())
    }
}

pub fn history<E: Elem>(src: &mut Src, ctx: &mut Ctx, cfg: SpCfg, table: &[(usize, u32)], mk: fn(usize) -> BoxSp<E>) -> Res {
    let cap = crate::seqworld::pick_cap(src, table);
    tr!(ctx, "SparseChunk<{}, {}>", E::NAME, cap);
    let exact = cfg.fuse == 0;
    let mut w = SpWorld::<E>::new(cfg, cap, mk);
    for s in 0..w.cfg.slots {
        if src.flag(3, 4) {
            w.arrange(src, s, ctx);
        }
    }
    let mut done = 0;
    let (mut max, avg) = (w.cfg.max_ops, w.cfg.avg_ops);
    if cap > 100 {
        max = max.min(40);
    }
    while src.more(done, max, avg) {
        w.step(src, ctx)?;
        done += 1;
    }
    ctx.label_if(cap > 64, "capacity above 64");
    ctx.label_if(cap > 128, "capacity above 128");
    w.finish(exact)
}

/// Every set of inhabited indices of a small chunk (every pattern of a larger
/// one), then `ops` operations with every argument.
pub fn small_scope<E: Elem>(src: &mut Src, ctx: &mut Ctx, mut cfg: SpCfg, caps: &[usize], mk: fn(usize) -> BoxSp<E>, ops: usize) -> Res {
    let cap = *src.pick(caps);
    tr!(ctx, "SparseChunk<{}, {}>", E::NAME, cap);
    cfg.slots = 2;
    cfg.keys = 1;
    let exact = cfg.fuse == 0;
    let mut w = SpWorld::<E>::new(cfg, cap, mk);
    w.arrange(src, 0, ctx);
    src.shard_here()?;
    for _ in 0..ops {
        w.step(src, ctx)?;
    }
    w.finish(exact)
}

/// Every index of every capacity: one operation there, from a handful of fills.
pub fn each_index<E: Elem>(src: &mut Src, ctx: &mut Ctx, caps: &[(usize, u32)], mk: fn(usize) -> BoxSp<E>) -> Res {
    let cap = caps[src.int(caps.len())].0;
    let i = src.int(cap);
    src.shard_here()?;
    let fill = src.int(7);
    tr!(ctx, "SparseChunk<{}, {}> index {} fill {}", E::NAME, cap, i, fill);
    let cfg = SpCfg { slots: 2, keys: 1, ..SpCfg::model() };
    let mut w = SpWorld::<E>::new(cfg, cap, mk);
    for j in 0..cap {
        let take = match fill {
            0 => false,
            1 => j == i,
            2 => j != i,
            3 => true,
            4 => j % 2 == i % 2,
            5 => j % 2 != i % 2,
            _ => j + 1 == i || j == i + 1,
        };
        if take {
            let m = w.auto(0);
            w.slots[0].0.insert(j, E::make(m));
            w.slots[0].1.insert(j, m);
        }
    }
    let m = w.auto(0);
    let op = match src.int(9) {
        0 => Op::Insert(0, i, m),
        1 => Op::Remove(0, i),
        2 => Op::Pop(0),
        3 => Op::Views(0),
        4 => Op::Clone(0, 1),
        5 => Op::GetWrite(0, i, m),
        6 => Op::OptionDrain(0, i + 1),
        7 => Op::Drain(0, i + 1, true),
        _ => Op::Unit(1, i, m),
    };
    w.apply(op, None, ctx)?;
    w.finish(true)
}

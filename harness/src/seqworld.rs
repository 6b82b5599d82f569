//! Histories of operations over a pool of `Chunk`s or `RingBuffer`s of one type.

use crate::elem::{Elem, M};
use crate::engine::{Ctx, Res, Src};
use crate::fault::{self, catch};
use crate::feed::{Claim, Feed};
use crate::seq::*;
use crate::{bad, ensure, tr};
use std::cmp::Ordering;
use std::mem::ManuallyDrop;

use crate::mk::HUGE;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Oracle {
    /// Everything observable equals the reference sequence.
    Model,
    /// Every live item is visible in exactly one place (tracked items only).
    Owner,
    /// Only validity: what is shown is live, distinct, and was held or given.
    Loose,
}

#[derive(Clone)]
pub struct Cfg {
    pub kind: SeqKind,
    /// Probability (in 1/16) that an argument is drawn outside the contract.
    pub wild: u64,
    /// Probability (in 1/16) that user code panics during an operation.
    pub fuse: u64,
    /// Probability (in 1/16) that a fed iterator lies about its length.
    pub lies: u64,
    pub oracle: Oracle,
    pub weights: [u32; NOPS],
    pub keys: usize,
    pub max_ops: usize,
    pub avg_ops: u64,
    /// Keep contents sorted when arranging (for sorted-insert histories).
    pub sorted: bool,
    pub slots: usize,
}

pub const NOPS: usize = 43;
#[derive(Clone, Debug)]
pub enum Op {
    PushBack(usize, M),
    PushFront(usize, M),
    PopBack(usize),
    PopFront(usize),
    Insert(usize, usize, M),
    InsertFrom(usize, usize, Feed),
    InsertOrdered(usize, M),
    Remove(usize, usize),
    Set(usize, usize, M),
    DropLeft(usize, usize),
    DropRight(usize, usize),
    SplitOff(usize, usize, usize),
    Append(usize, usize),
    DrainFromFront(usize, usize, usize),
    DrainFromBack(usize, usize, usize),
    FromFront(usize, usize, usize),
    FromBack(usize, usize, usize),
    DrainFrom(usize, usize),
    CollectFrom(usize, Feed, usize),
    FromIter(usize, Feed),
    Extend(usize, Feed),
    ExtendRef(usize, Vec<M>),
    Clear(usize),
    Drain(usize, Vec<bool>),
    IntoIter(usize, Vec<bool>),
    Unit(usize, M),
    Pair(usize, M, M),
    Clone(usize, usize),
    PoolClone(usize, usize),
    CloneFrom(usize, usize),
    Relocate(usize),
    Swap(usize, usize),
    Fresh(usize, bool),
    IndexRead(usize, usize),
    GetRead(usize, usize),
    IndexWrite(usize, usize, M),
    GetWrite(usize, usize, M),
    IterMut(usize, bool, Vec<M>),
    Edit(usize, Edit),
    Compare(usize, usize),
    Search(usize, M),
    HashDebug(usize),
    IterAll(usize),
}

//                                 pb pf ob of in if io rm se dl dr so ap ff fb Ff Fb df cf fi ex er cl dr ii un pa cl pc cf re sw fr ir gr iw gw im ed cm se hd ia
pub const W_ALL: [u32; NOPS] =    [10,10, 8, 8,10,10, 3,10, 4, 5, 5, 5, 4, 5, 5, 3, 3, 2, 2, 2, 4, 3, 1, 3, 2, 1, 1, 3, 1, 1, 2, 1, 1, 2, 2, 3, 2, 3, 3, 2, 2, 1, 1];
pub const W_BULK: [u32; NOPS] =   [ 4, 4, 3, 3, 1, 4, 0, 1, 0, 2, 2, 8, 8,10,10, 8, 8, 4, 2, 1, 2, 1, 1, 1, 0, 0, 0, 1, 0, 0, 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
pub const W_SORTED: [u32; NOPS] = [ 0, 0, 3, 3, 0, 0,20, 4, 0, 2, 2, 2, 0, 0, 0, 1, 1, 1, 0, 0, 0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 3, 0,12, 0, 0];
pub const W_FEED: [u32; NOPS] =   [ 4, 4, 2, 3, 2,20, 1, 2, 1, 2, 2, 2, 1, 2, 2, 1, 1, 1, 6, 6, 8, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 0, 1, 0, 0, 1, 0, 1, 0, 0, 1, 0, 0];
pub const W_PANIC: [u32; NOPS] =  [ 5, 5, 3, 4, 3,12, 8, 3, 3, 8, 8, 3, 3, 3, 3, 2, 2, 1, 4, 4, 6, 3, 8, 3, 4, 1, 1, 8, 4, 3, 1, 1, 3, 1, 1, 2, 1, 2, 2, 3, 3, 3, 1];

pub struct Slot<E> {
    pub c: BoxSeq<E>,
    pub m: Vec<M>,
}

struct Got<E> {
    vals: Vec<Option<E>>,
    newc: Option<BoxSeq<E>>,
    extra: u64,
}
impl<E> Got<E> {
    fn unit() -> Self {
        Got { vals: vec![], newc: None, extra: 0 }
    }
    fn val(v: Option<E>) -> Self {
        Got { vals: vec![v], newc: None, extra: 0 }
    }
    fn new(c: BoxSeq<E>) -> Self {
        Got { vals: vec![], newc: Some(c), extra: 0 }
    }
    fn extra(x: u64) -> Self {
        Got { vals: vec![], newc: None, extra: x }
    }
}

enum Want {
    /// Completes and returns these values; new container with these contents.
    Ok(Vec<Option<M>>, Option<Vec<M>>),
    /// Completes; the digest of what it returned.
    Extra(u64),
    /// Refused by panicking, nothing changes.
    Refuse,
    /// A bulk extend that does not fit: panics, keeping a prefix.
    RefusePrefix(usize, Vec<M>),
    /// Sorted insertion of the value into the slot.
    Ordered(usize, M),
    /// Search in the slot.
    Search(usize, M),
    /// Unstable sort of the slot.
    Sorted(usize),
    /// Anything valid (dishonest input).
    Anything,
    /// The operation is not offered by this container.
    Unsupported,
}

pub struct World<E: Elem> {
    pub slots: ManuallyDrop<Vec<Slot<E>>>,
    pub next: u32,
    pub cap: usize,
    pub cfg: Cfg,
    zero_off: isize,
}

fn keys(m: &[M]) -> Vec<u32> {
    m.iter().map(|x| x.key).collect()
}
fn is_sorted(m: &[M]) -> bool {
    m.windows(2).all(|w| w[0].key <= w[1].key)
}
fn cmp_code(o: Ordering) -> u64 {
    match o {
        Ordering::Less => 1,
        Ordering::Equal => 2,
        Ordering::Greater => 3,
    }
}

impl<E: Elem> World<E> {
    pub fn new(cfg: Cfg, cap: usize, mk: fn(usize) -> BoxSeq<E>) -> Self {
        let mut slots = Vec::new();
        for _ in 0..cfg.slots {
            slots.push(Slot { c: mk(cap), m: Vec::new() });
        }
        World { slots: ManuallyDrop::new(slots), next: 1, cap, cfg, zero_off: 0 }
    }

    pub fn fresh(&mut self, src: &mut Src) -> M {
        let key = src.int(self.cfg.keys) as u32;
        let uid = self.next;
        self.next += 1;
        E::norm(M { key, uid })
    }
    fn fresh_many(&mut self, src: &mut Src, n: usize) -> Vec<M> {
        if n > 12 {
            let base = src.int(self.cfg.keys) as u32;
            return (0..n)
                .map(|i| {
                    let uid = self.next;
                    self.next += 1;
                    E::norm(M { key: (base + i as u32 * 7) % self.cfg.keys as u32, uid })
                })
                .collect();
        }
        (0..n).map(|_| self.fresh(src)).collect()
    }
    /// A value without drawing a key (for filling large containers).
    fn auto(&mut self) -> M {
        let uid = self.next;
        self.next += 1;
        let key = if self.cfg.sorted { uid / 2 } else { uid.wrapping_mul(2654435761) >> 8 } % self.cfg.keys.max(1) as u32;
        E::norm(M { key, uid })
    }

    /// How much a container is filled: all of it, unless its capacity is
    /// beyond all numbers of (zero-sized) items that can be made.
    fn fill(&self) -> usize {
        if self.cap > HUGE {
            24
        } else {
            self.cap
        }
    }

    /// Put a slot into a chosen storage arrangement with the public API.
    pub fn arrange(&mut self, src: &mut Src, s: usize, ctx: &mut Ctx) -> Res {
        let cap = self.fill();
        let len = src.upto(cap);
        let off = match self.cfg.kind {
            SeqKind::Chunk => src.upto(cap - len),
            SeqKind::Ring => {
                if cap == 0 {
                    0
                } else {
                    src.upto(cap - 1)
                }
            }
        };
        let via = if src.exhaustive() { 0 } else { src.int(3) };
        let mut ms = Vec::new();
        for _ in 0..len {
            let m = self.auto();
            ms.push(m);
        }
        if self.cfg.sorted {
            // contents sorted by key: reuse the keys in order
            let mut ks = keys(&ms);
            ks.sort();
            for (m, k) in ms.iter_mut().zip(ks) {
                m.key = k;
                *m = E::norm(*m);
            }
        }
        tr!(ctx, "arrange slot {} len {} offset {} via {}", s, len, off, via);
        let filler = E::norm(M { key: 0, uid: 0 });
        let kind = self.cfg.kind;
        let slot = &mut self.slots[s];
        let c = &mut slot.c;
        match (kind, via) {
            (SeqKind::Chunk, 0) => {
                for _ in 0..off {
                    c.push_back(E::make(filler));
                }
                for m in &ms {
                    c.push_back(E::make(*m));
                }
                for _ in 0..off {
                    c.pop_front();
                }
            }
            (SeqKind::Chunk, 1) => {
                // from the right: push_front, then trim the back
                let right_gap = cap - len - off;
                for _ in 0..right_gap {
                    c.push_front(E::make(filler));
                }
                for m in ms.iter().rev() {
                    c.push_front(E::make(*m));
                }
                c.drop_right(len);
            }
            (SeqKind::Chunk, _) => {
                for _ in 0..off {
                    c.push_back(E::make(filler));
                }
                let feed = Feed { items: ms.clone(), claim: Claim::Honest };
                let k = c.len();
                c.insert_from(k, Box::new(feed.iter::<E>()));
                c.drop_left(off);
            }
            (SeqKind::Ring, 0) => {
                for _ in 0..off {
                    c.push_back(E::make(filler));
                    c.pop_front();
                }
                for m in &ms {
                    c.push_back(E::make(*m));
                }
            }
            (SeqKind::Ring, 1) => {
                let n = (cap - off) % cap.max(1);
                for _ in 0..n {
                    c.push_front(E::make(filler));
                    c.pop_back();
                }
                for m in &ms {
                    c.push_back(E::make(*m));
                }
            }
            (SeqKind::Ring, _) => {
                let fill = off.min(cap - len);
                for _ in 0..fill {
                    c.push_back(E::make(filler));
                }
                for m in &ms {
                    c.push_back(E::make(*m));
                }
                c.drop_left(fill);
            }
        }
        slot.m = ms;
        Ok(())
    }

    fn slot(&self, src: &mut Src) -> usize {
        if src.exhaustive() {
            return 0;
        }
        src.int(self.cfg.slots)
    }
    /// Where the result of an operation goes.
    fn dest(&self, src: &mut Src) -> usize {
        if src.exhaustive() {
            return 1;
        }
        src.int(self.cfg.slots)
    }
    fn other(&self, src: &mut Src, a: usize) -> usize {
        let k = 1 + src.int(self.cfg.slots - 1);
        (a + k) % self.cfg.slots
    }
    fn go_wild(&self, src: &mut Src) -> bool {
        self.cfg.wild > 0 && src.flag(self.cfg.wild, 16)
    }
    /// An index or count outside `0..=max`.
    fn wild_num(&self, src: &mut Src, max: usize) -> usize {
        let c = self.cap;
        let list = [
            max + 1, max + 2, c.max(max + 1), c.saturating_add(1), c.saturating_mul(2).saturating_add(1), usize::MAX, usize::MAX - 1, usize::MAX - max, usize::MAX - c,
            usize::MAX / 2, usize::MAX / 2 + 1, isize::MAX as usize, 1 << 32, 1 << 62, (1usize << 63) + max, usize::MAX - max / 2,
        ];
        let v = list[src.int(list.len())];
        if v <= max {
            max + 1
        } else {
            v
        }
    }
    /// An argument in `0..=max`, or wild.
    fn arg(&self, src: &mut Src, max: usize) -> usize {
        if self.go_wild(src) {
            self.wild_num(src, max)
        } else {
            src.upto(max)
        }
    }
    fn feed(&mut self, src: &mut Src, room: usize, exact: bool) -> Feed {
        let n = if self.go_wild(src) {
            // at most a little beyond the room
            room + 1 + src.int(3)
        } else if self.cfg.lies > 0 {
            let n = src.upto(room.min(20) + 3);
            n
        } else {
            src.upto(room)
        };
        let items = self.fresh_many(src, n);
        let claim = if self.cfg.lies > 0 && src.flag(self.cfg.lies, 16) {
            let k = 1 + src.int(3);
            let mut v = Vec::new();
            for _ in 0..k {
                let x = match src.int(9) {
                    0 => n,
                    1 => n + 1,
                    2 => n.saturating_sub(1),
                    3 => 0,
                    4 => room,
                    5 => room + 1,
                    6 => src.int(room + 2),
                    7 => usize::MAX - src.int(2 * self.fill() + 2),
                    _ => usize::MAX / 2 + src.int(3),
                };
                v.push(x);
            }
            Claim::Lies(v)
        } else if !exact && src.flag(1, 4) {
            Claim::Vague
        } else {
            Claim::Honest
        };
        Feed { items, claim }
    }

    fn plan(&mut self, src: &mut Src) -> Option<Op> {
        let w = self.cfg.weights;
        let k = src.weighted(&w);
        let s = self.slot(src);
        let len = self.slots[s].m.len();
        let room = (self.cap - len.min(self.cap)).min(if self.cap > HUGE { 24 } else { self.cap });
        let wild = self.cfg.wild > 0;
        Some(match k {
            0 | 1 => {
                if room == 0 && !wild {
                    return None;
                }
                let m = self.fresh(src);
                if k == 0 {
                    Op::PushBack(s, m)
                } else {
                    Op::PushFront(s, m)
                }
            }
            2 | 3 => {
                if len == 0 && !wild && self.cfg.kind == SeqKind::Chunk {
                    return None;
                }
                if k == 2 {
                    Op::PopBack(s)
                } else {
                    Op::PopFront(s)
                }
            }
            4 => {
                if room == 0 && !wild {
                    return None;
                }
                let i = self.arg(src, len);
                Op::Insert(s, i, self.fresh(src))
            }
            5 => {
                let i = self.arg(src, len);
                Op::InsertFrom(s, i, self.feed(src, room, true))
            }
            6 => {
                if room == 0 && !wild {
                    return None;
                }
                Op::InsertOrdered(s, self.fresh(src))
            }
            7 => {
                if len == 0 {
                    if !wild {
                        return None;
                    }
                    return Some(Op::Remove(s, self.wild_num(src, 0) - 1));
                }
                Op::Remove(s, self.arg(src, len - 1))
            }
            8 | 35 => {
                let i = if len == 0 {
                    if !wild {
                        return None;
                    }
                    self.wild_num(src, 0) - 1
                } else {
                    self.arg(src, len - 1)
                };
                let m = self.fresh(src);
                if k == 8 {
                    Op::Set(s, i, m)
                } else {
                    Op::IndexWrite(s, i, m)
                }
            }
            9 => Op::DropLeft(s, self.arg(src, len)),
            10 => Op::DropRight(s, self.arg(src, len)),
            11 => {
                let i = self.arg(src, len);
                Op::SplitOff(s, i, self.dest(src))
            }
            12 => {
                let o = self.other(src, s);
                if self.slots[o].m.len() > room && !wild {
                    return None;
                }
                Op::Append(s, o)
            }
            13 | 14 => {
                let o = self.other(src, s);
                let olen = self.slots[o].m.len();
                let n = if self.go_wild(src) {
                    // beyond the room, beyond the source, or both
                    if src.flag(1, 2) {
                        src.upto(self.fill() + 1)
                    } else {
                        self.wild_num(src, olen.min(room))
                    }
                } else {
                    src.upto(room.min(olen))
                };
                if k == 13 {
                    Op::DrainFromFront(s, o, n)
                } else {
                    Op::DrainFromBack(s, o, n)
                }
            }
            15 => {
                let n = self.arg(src, len);
                Op::FromFront(s, self.dest(src), n)
            }
            16 => {
                let n = self.arg(src, len);
                Op::FromBack(s, self.dest(src), n)
            }
            17 => Op::DrainFrom(s, self.dest(src)),
            18 => {
                let cap = self.fill();
                let f = self.feed(src, cap, false);
                let n = if self.go_wild(src) {
                    let m = f.items.len();
                    self.wild_num(src, m)
                } else {
                    src.upto(f.items.len().min(if wild { usize::MAX } else { cap }))
                };
                Op::CollectFrom(s, f, n)
            }
            19 => {
                let cap = self.fill();
                Op::FromIter(s, self.feed(src, cap, false))
            }
            20 => Op::Extend(s, self.feed(src, room, false)),
            21 => {
                let n = if self.go_wild(src) { room + 1 + src.int(3) } else { src.upto(room) };
                Op::ExtendRef(s, self.fresh_many(src, n))
            }
            22 => Op::Clear(s),
            23 | 24 => {
                let n = src.upto(len + 2);
                let pat = src.int(4);
                let script: Vec<bool> = (0..n)
                    .map(|i| match pat {
                        0 => false,
                        1 => true,
                        2 => i % 2 == 1,
                        _ => (i * 7 / 3) % 3 == 1,
                    })
                    .collect();
                if k == 23 {
                    Op::Drain(s, script)
                } else {
                    Op::IntoIter(s, script)
                }
            }
            25 => {
                if self.cap < 1 && !wild {
                    return None;
                }
                Op::Unit(s, self.fresh(src))
            }
            26 => {
                if self.cap < 2 && !wild {
                    return None;
                }
                let a = self.fresh(src);
                Op::Pair(s, a, self.fresh(src))
            }
            27 => Op::Clone(s, self.dest(src)),
            28 => Op::PoolClone(s, self.dest(src)),
            29 => Op::CloneFrom(s, self.other(src, s)),
            30 => Op::Relocate(s),
            31 => Op::Swap(s, self.other(src, s)),
            32 => Op::Fresh(s, src.flag(1, 2)),
            33 => {
                if len == 0 && !wild {
                    return None;
                }
                let i = if len == 0 { self.wild_num(src, 0) - 1 } else { self.arg(src, len - 1) };
                Op::IndexRead(s, i)
            }
            34 => Op::GetRead(s, self.arg(src, len)),
            36 => {
                let i = self.arg(src, len);
                Op::GetWrite(s, i, self.fresh(src))
            }
            37 => {
                let n = src.upto(len);
                let rev = src.flag(1, 2);
                Op::IterMut(s, rev, self.fresh_many(src, n))
            }
            38 => {
                if len == 0 {
                    return None;
                }
                let e = match if self.cfg.sorted { 3 } else { src.int(4) } {
                    0 => {
                        let a = src.upto(len - 1);
                        Edit::Swap(a, src.upto(len - 1))
                    }
                    1 => Edit::Reverse,
                    2 => Edit::RotateLeft(src.upto(len)),
                    _ => {
                        // array-ops 0.1.0's quicksort (not this crate's code) goes
                        // out of bounds or loops on arrays with equal items
                        let mut ks = keys(&self.slots[s].m);
                        ks.sort();
                        ks.dedup();
                        if self.cfg.kind == SeqKind::Ring && ks.len() != len {
                            return None;
                        }
                        Edit::Sort
                    }
                };
                Op::Edit(s, e)
            }
            39 => Op::Compare(s, self.other(src, s)),
            40 => Op::Search(s, self.fresh(src)),
            41 => Op::HashDebug(s),
            _ => Op::IterAll(s),
        })
    }

    /// The slots an operation may change / only reads / replaces.
    fn roles(op: &Op) -> (Vec<usize>, Vec<usize>, Option<usize>) {
        use Op::*;
        match op {
            PushBack(s, _) | PushFront(s, _) | PopBack(s) | PopFront(s) | Insert(s, ..) | InsertFrom(s, ..) | InsertOrdered(s, _) | Remove(s, _)
            | Set(s, ..) | DropLeft(s, _) | DropRight(s, _) | Extend(s, _) | ExtendRef(s, _) | Clear(s) | Drain(s, _) | IndexWrite(s, ..)
            | GetWrite(s, ..) | IterMut(s, ..) | Edit(s, _) | Relocate(s) => (vec![*s], vec![], None),
            IntoIter(s, _) | Fresh(s, _) => (vec![*s], vec![], Some(*s)),
            SplitOff(s, _, to) | FromFront(s, to, _) | FromBack(s, to, _) | DrainFrom(s, to) => (vec![*s], vec![], Some(*to)),
            Append(a, b) | DrainFromFront(a, b, _) | DrainFromBack(a, b, _) | Swap(a, b) => (vec![*a, *b], vec![], None),
            CollectFrom(to, ..) | FromIter(to, _) | Unit(to, _) | Pair(to, ..) => (vec![], vec![], Some(*to)),
            Clone(s, to) | PoolClone(s, to) => (vec![], vec![*s], Some(*to)),
            CloneFrom(a, b) => (vec![*a], vec![*b], None),
            Compare(a, b) => (vec![], vec![*a, *b], None),
            IndexRead(s, _) | GetRead(s, _) | Search(s, _) | HashDebug(s) | IterAll(s) => (vec![], vec![*s], None),
        }
    }

    fn pair_mut(&mut self, a: usize, b: usize) -> (&mut BoxSeq<E>, &mut BoxSeq<E>) {
        let v: &mut Vec<Slot<E>> = &mut self.slots;
        if a < b {
            let (x, y) = v.split_at_mut(b);
            (&mut x[a].c, &mut y[0].c)
        } else {
            let (x, y) = v.split_at_mut(a);
            (&mut y[0].c, &mut x[b].c)
        }
    }

    /// Run the operation on the real containers.
    fn run(&mut self, op: &Op) -> Got<E> {
        use Op::*;
        match op {
            PushBack(s, m) => {
                self.slots[*s].c.push_back(E::make(*m));
                Got::unit()
            }
            PushFront(s, m) => {
                self.slots[*s].c.push_front(E::make(*m));
                Got::unit()
            }
            PopBack(s) => Got::val(self.slots[*s].c.pop_back()),
            PopFront(s) => Got::val(self.slots[*s].c.pop_front()),
            Insert(s, i, m) => {
                self.slots[*s].c.insert(*i, E::make(*m));
                Got::unit()
            }
            InsertFrom(s, i, f) => {
                self.slots[*s].c.insert_from(*i, Box::new(f.iter::<E>()));
                Got::unit()
            }
            InsertOrdered(s, m) => {
                self.slots[*s].c.insert_ordered(E::make(*m));
                Got::unit()
            }
            Remove(s, i) => Got::val(Some(self.slots[*s].c.remove(*i))),
            Set(s, i, m) => Got::val(self.slots[*s].c.set(*i, E::make(*m))),
            DropLeft(s, i) => {
                self.slots[*s].c.drop_left(*i);
                Got::unit()
            }
            DropRight(s, i) => {
                self.slots[*s].c.drop_right(*i);
                Got::unit()
            }
            SplitOff(s, i, _) => Got::new(self.slots[*s].c.split_off(*i)),
            Append(a, b) => {
                let (x, y) = self.pair_mut(*a, *b);
                x.append(&mut **y);
                Got::unit()
            }
            DrainFromFront(a, b, n) => {
                let (x, y) = self.pair_mut(*a, *b);
                x.drain_from_front(&mut **y, *n);
                Got::unit()
            }
            DrainFromBack(a, b, n) => {
                let (x, y) = self.pair_mut(*a, *b);
                x.drain_from_back(&mut **y, *n);
                Got::unit()
            }
            FromFront(s, _, n) => Got::new(self.slots[*s].c.from_front(*n)),
            FromBack(s, _, n) => Got::new(self.slots[*s].c.from_back(*n)),
            DrainFrom(s, _) => Got::new(self.slots[*s].c.drain_from()),
            CollectFrom(to, f, n) => {
                let mut it = f.iter::<E>();
                let c = self.slots[*to].c.mk_collect_from(Box::new(&mut it), *n);
                // what is left in the iterator still belongs to the caller
                let rest = it.count() as u64;
                Got { vals: vec![], newc: Some(c), extra: rest }
            }
            FromIter(to, f) => Got::new(self.slots[*to].c.mk_from_iter(Box::new(f.iter::<E>()))),
            Extend(s, f) => {
                self.slots[*s].c.extend(Box::new(f.iter::<E>()));
                Got::unit()
            }
            ExtendRef(s, ms) => {
                let v: Vec<E> = ms.iter().map(|m| E::make(*m)).collect();
                let ok = self.slots[*s].c.extend_ref(&v);
                Got::extra(ok as u64)
            }
            Clear(s) => {
                self.slots[*s].c.clear();
                Got::unit()
            }
            Drain(s, script) => {
                let mut out = Vec::new();
                self.slots[*s].c.drain(script, &mut out);
                Got { vals: out, newc: None, extra: 0 }
            }
            IntoIter(s, script) => {
                let c = self.slots[*s].c.mk_new();
                let old = std::mem::replace(&mut self.slots[*s].c, c);
                let mut out = Vec::new();
                old.into_iter(script, &mut out);
                Got { vals: out, newc: None, extra: 0 }
            }
            Unit(to, a) => Got::new(self.slots[*to].c.mk_unit(E::make(*a))),
            Pair(to, a, b) => Got::new(self.slots[*to].c.mk_pair(E::make(*a), E::make(*b))),
            Clone(s, _) => Got::new(self.slots[*s].c.clone_box()),
            PoolClone(s, _) => match self.slots[*s].c.pool_clone() {
                Some(c) => Got::new(c),
                None => Got::unit(),
            },
            CloneFrom(a, b) => {
                let (x, y) = self.pair_mut(*a, *b);
                x.clone_from_other(&**y);
                Got::unit()
            }
            Relocate(s) => {
                let e = self.slots[*s].c.mk_new();
                let old = std::mem::replace(&mut self.slots[*s].c, e);
                self.slots[*s].c = old.relocate();
                Got::unit()
            }
            Swap(a, b) => {
                let (x, y) = self.pair_mut(*a, *b);
                x.swap_with(&mut **y);
                Got::unit()
            }
            Fresh(s, d) => {
                let c = if *d { self.slots[*s].c.mk_default() } else { self.slots[*s].c.mk_new() };
                let old = std::mem::replace(&mut self.slots[*s].c, c);
                drop(old);
                Got::unit()
            }
            IndexRead(s, i) => {
                let m = self.slots[*s].c.index(*i).m();
                Got::extra(pack(m))
            }
            GetRead(s, i) => Got::extra(self.slots[*s].c.get(*i).map(|x| pack(x.m())).unwrap_or(NONE)),
            IndexWrite(s, i, m) => {
                self.slots[*s].c.index_mut(*i).write(*m);
                Got::unit()
            }
            GetWrite(s, i, m) => match self.slots[*s].c.get_mut(*i) {
                Some(x) => {
                    x.write(*m);
                    Got::extra(1)
                }
                None => Got::extra(0),
            },
            IterMut(s, rev, ms) => {
                let mut i = 0;
                self.slots[*s].c.each_mut(*rev, &mut |x| {
                    if i >= ms.len() {
                        return false;
                    }
                    x.write(ms[i]);
                    i += 1;
                    true
                });
                Got::extra(i as u64)
            }
            Edit(s, e) => {
                let ok = self.slots[*s].c.edit(*e);
                Got::extra(ok as u64)
            }
            Compare(a, b) => {
                let (x, y) = self.pair_mut(*a, *b);
                let eq = x.eq_other(&**y) as u64;
                let ord = cmp_code(x.cmp_other(&**y));
                Got::extra(eq * 10 + ord)
            }
            Search(s, m) => {
                let probe = E::make(*m);
                let r = self.slots[*s].c.search(&probe);
                Got::extra(match r {
                    Ok(i) => i as u64 * 2,
                    Err(i) => i as u64 * 2 + 1,
                })
            }
            HashDebug(s) => {
                let _ = self.slots[*s].c.hash_it();
                let n = self.slots[*s].c.debug().len();
                let _ = n;
                Got::unit()
            }
            IterAll(s) => {
                let mut n = 0u64;
                let lim = (self.cap as u64).saturating_add(1);
                self.slots[*s].c.each(&mut |_| {
                    n += 1;
                    n <= lim
                });
                Got::extra(n)
            }
        }
    }

    /// The reference semantics: update the models and say what must happen.
    fn predict(&mut self, op: &Op) -> Want {
        use Op::*;
        let cap = self.cap;
        let ring = self.cfg.kind == SeqKind::Ring;
        let ok = || Want::Ok(vec![], None);
        macro_rules! m {
            ($s:expr) => {
                self.slots[*$s].m
            };
        }
        match op {
            PushBack(s, v) => {
                if m!(s).len() >= cap {
                    return Want::Refuse;
                }
                m!(s).push(*v);
                ok()
            }
            PushFront(s, v) => {
                if m!(s).len() >= cap {
                    return Want::Refuse;
                }
                m!(s).insert(0, *v);
                ok()
            }
            PopBack(s) => {
                if m!(s).is_empty() {
                    return if ring { Want::Ok(vec![None], None) } else { Want::Refuse };
                }
                let v = m!(s).pop();
                Want::Ok(vec![v], None)
            }
            PopFront(s) => {
                if m!(s).is_empty() {
                    return if ring { Want::Ok(vec![None], None) } else { Want::Refuse };
                }
                let v = m!(s).remove(0);
                Want::Ok(vec![Some(v)], None)
            }
            Insert(s, i, v) => {
                if m!(s).len() >= cap || *i > m!(s).len() {
                    return Want::Refuse;
                }
                m!(s).insert(*i, *v);
                ok()
            }
            InsertFrom(s, i, f) => {
                if matches!(f.claim, Claim::Lies(_)) {
                    return Want::Anything;
                }
                if f.items.len() > cap - m!(s).len() || *i > m!(s).len() {
                    return Want::Refuse;
                }
                let tail = m!(s).split_off(*i);
                m!(s).extend(f.items.iter().copied());
                m!(s).extend(tail);
                ok()
            }
            InsertOrdered(s, v) => {
                if m!(s).len() >= cap {
                    return Want::Refuse;
                }
                Want::Ordered(*s, *v)
            }
            Remove(s, i) => {
                if *i >= m!(s).len() {
                    return Want::Refuse;
                }
                let v = m!(s).remove(*i);
                Want::Ok(vec![Some(v)], None)
            }
            Set(s, i, v) => {
                if *i >= m!(s).len() {
                    return if ring { Want::Ok(vec![None], None) } else { Want::Refuse };
                }
                let old = std::mem::replace(&mut m!(s)[*i], *v);
                Want::Ok(vec![Some(old)], None)
            }
            DropLeft(s, i) => {
                if *i > m!(s).len() {
                    return Want::Refuse;
                }
                m!(s).drain(..*i);
                ok()
            }
            DropRight(s, i) => {
                if *i > m!(s).len() {
                    return Want::Refuse;
                }
                m!(s).truncate(*i);
                ok()
            }
            SplitOff(s, i, _) => {
                if *i > m!(s).len() {
                    return Want::Refuse;
                }
                let t = m!(s).split_off(*i);
                Want::Ok(vec![], Some(t))
            }
            Append(a, b) => {
                if m!(a).len() + m!(b).len() > cap {
                    return Want::Refuse;
                }
                let t = std::mem::take(&mut m!(b));
                m!(a).extend(t);
                ok()
            }
            DrainFromFront(a, b, n) => {
                if *n > cap - m!(a).len() || *n > m!(b).len() {
                    return Want::Refuse;
                }
                let t: Vec<M> = m!(b).drain(..*n).collect();
                m!(a).extend(t);
                ok()
            }
            DrainFromBack(a, b, n) => {
                if *n > cap - m!(a).len() || *n > m!(b).len() {
                    return Want::Refuse;
                }
                let at = m!(b).len() - n;
                let mut t = m!(b).split_off(at);
                t.extend(m!(a).iter().copied());
                m!(a) = t;
                ok()
            }
            FromFront(s, _, n) => {
                if *n > m!(s).len() {
                    return Want::Refuse;
                }
                let t: Vec<M> = m!(s).drain(..*n).collect();
                Want::Ok(vec![], Some(t))
            }
            FromBack(s, _, n) => {
                if *n > m!(s).len() {
                    return Want::Refuse;
                }
                let at = m!(s).len() - n;
                let t = m!(s).split_off(at);
                Want::Ok(vec![], Some(t))
            }
            DrainFrom(s, _) => {
                let t = std::mem::take(&mut m!(s));
                Want::Ok(vec![], Some(t))
            }
            CollectFrom(_, f, n) => {
                if matches!(f.claim, Claim::Lies(_)) {
                    return Want::Anything;
                }
                if *n > f.items.len() || *n > cap {
                    return Want::Refuse;
                }
                Want::Ok(vec![], Some(f.items[..*n].to_vec()))
            }
            FromIter(_, f) => {
                if matches!(f.claim, Claim::Lies(_)) {
                    return Want::Anything;
                }
                if f.items.len() > cap {
                    return Want::Refuse;
                }
                Want::Ok(vec![], Some(f.items.clone()))
            }
            Extend(s, f) => {
                if matches!(f.claim, Claim::Lies(_)) {
                    return Want::Anything;
                }
                if f.items.len() > cap - m!(s).len() {
                    return Want::RefusePrefix(*s, f.items.clone());
                }
                m!(s).extend(f.items.iter().copied());
                ok()
            }
            ExtendRef(s, ms) => {
                // Chunk offers this for Copy elements only
                if !ring && !chunk_can_extend_ref::<E>() {
                    return Want::Unsupported;
                }
                if ms.len() > cap - m!(s).len() {
                    return Want::RefusePrefix(*s, ms.clone());
                }
                m!(s).extend(ms.iter().copied());
                Want::Extra(1)
            }
            Clear(s) => {
                m!(s).clear();
                ok()
            }
            Drain(s, script) | IntoIter(s, script) => {
                let mut out = Vec::new();
                for back in script {
                    out.push(if m!(s).is_empty() {
                        None
                    } else if *back {
                        m!(s).pop()
                    } else {
                        Some(m!(s).remove(0))
                    });
                }
                if let IntoIter(..) = op {
                    m!(s).clear()
                }
                Want::Ok(out, None)
            }
            Unit(_, a) => {
                if cap < 1 {
                    return Want::Refuse;
                }
                Want::Ok(vec![], Some(vec![*a]))
            }
            Pair(_, a, b) => {
                if cap < 2 {
                    return Want::Refuse;
                }
                Want::Ok(vec![], Some(vec![*a, *b]))
            }
            Clone(s, _) => Want::Ok(vec![], Some(m!(s).clone())),
            PoolClone(s, _) => {
                if cfg!(feature = "pool") {
                    Want::Ok(vec![], Some(m!(s).clone()))
                } else {
                    ok()
                }
            }
            CloneFrom(a, b) => {
                let t = m!(b).clone();
                m!(a) = t;
                ok()
            }
            Relocate(_) => ok(),
            Swap(a, b) => {
                let t = std::mem::take(&mut m!(a));
                let u = std::mem::replace(&mut m!(b), t);
                m!(a) = u;
                ok()
            }
            Fresh(s, _) => {
                m!(s).clear();
                ok()
            }
            IndexRead(s, i) => match m!(s).get(*i) {
                Some(v) => Want::Extra(pack(*v)),
                None => Want::Refuse,
            },
            GetRead(s, i) => Want::Extra(m!(s).get(*i).map(|v| pack(*v)).unwrap_or(NONE)),
            IndexWrite(s, i, v) => match m!(s).get_mut(*i) {
                Some(x) => {
                    *x = *v;
                    ok()
                }
                None => Want::Refuse,
            },
            GetWrite(s, i, v) => match m!(s).get_mut(*i) {
                Some(x) => {
                    *x = *v;
                    Want::Extra(1)
                }
                None => Want::Extra(0),
            },
            IterMut(s, rev, ms) => {
                let n = m!(s).len();
                let k = ms.len().min(n);
                for (j, v) in ms.iter().take(k).enumerate() {
                    let at = if *rev { n - 1 - j } else { j };
                    m!(s)[at] = *v;
                }
                Want::Extra(k as u64)
            }
            Edit(s, e) => {
                if ring {
                    match e {
                        crate::seq::Edit::Swap(a, b) => {
                            m!(s).swap(*a, *b);
                            Want::Extra(1)
                        }
                        crate::seq::Edit::Sort if !m!(s).is_empty() => Want::Sorted(*s),
                        _ => Want::Extra(0),
                    }
                } else {
                    match e {
                        crate::seq::Edit::Swap(a, b) => m!(s).swap(*a, *b),
                        crate::seq::Edit::Reverse => m!(s).reverse(),
                        crate::seq::Edit::Sort => m!(s).sort_by_key(|x| x.key),
                        crate::seq::Edit::RotateLeft(k) => m!(s).rotate_left(*k),
                    }
                    Want::Extra(1)
                }
            }
            Compare(a, b) => {
                let (x, y) = (keys(&m!(a)), keys(&m!(b)));
                Want::Extra((x == y) as u64 * 10 + cmp_code(x.cmp(&y)))
            }
            Search(s, v) => Want::Search(*s, *v),
            HashDebug(_) => ok(),
            IterAll(s) => Want::Extra(m!(s).len() as u64),
        }
    }

    fn target(op: &Op) -> Option<usize> {
        Self::roles(op).2
    }

    /// One operation of a history.
    pub fn step(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res {
        let op = match self.plan(src) {
            Some(op) => op,
            None => return Ok(()),
        };
        let armed = if self.cfg.fuse > 0 && src.flag(self.cfg.fuse, 16) {
            let n = 1 + src.upto(2 * self.cap.min(24) + 4) as u64;
            let mask = match src.int(8) {
                0 => 1 << fault::Hook::Drop as u8,
                1 => 1 << fault::Hook::Clone as u8,
                2 => 1 << fault::Hook::Cmp as u8,
                3 => 1 << fault::Hook::Iter as u8,
                _ => 0xff,
            };
            Some((n, mask))
        } else {
            None
        };
        self.apply(op, armed, ctx)
    }

    pub fn apply(&mut self, op: Op, armed: Option<(u64, u8)>, ctx: &mut Ctx) -> Res {
        tr!(ctx, "{:?}{}", op, match armed { Some((n, m)) => format!(" [panic at user call {} mask {:#x}]", n, m), None => String::new() });
        let (changes, reads, _) = Self::roles(&op);
        let before: Vec<Vec<M>> = self.slots.iter().map(|s| s.m.clone()).collect();
        self.stats(&op, ctx);
        let want = self.predict(&op);
        if let Some((n, mask)) = armed {
            fault::arm(n, mask)
        }
        let got = catch(|| self.run(&op));
        let fired = fault::disarm();
        ctx.observe(got.is_ok() as u64);
        // let the returned values go only when the fuse is off
        let mut got = match got {
            Ok(g) => Ok(g),
            Err(e) => Err(e),
        };
        if fired {
            ctx.label("user panic injected");
            ctx.nontrivial = true;
        }
        let loose = fired || matches!(want, Want::Anything);
        if loose {
            if got.is_err() {
                ctx.label("operation unwound");
            }
            let restore: Vec<Vec<M>> = before.clone();
            for (s, b) in self.slots.iter_mut().zip(restore) {
                s.m = b;
            }
            let given = Self::given(&op);
            if let Ok(g) = &mut got {
                if let (Some(c), Some(to)) = (g.newc.take(), Self::target(&op)) {
                    // taken over from the operation: contents judged below
                    let held: Vec<M> = before.iter().flatten().copied().chain(given.iter().copied()).collect();
                    self.valid(&*c, &held, &op)?;
                    let m = contents(&*c, self.cap);
                    let old = std::mem::replace(&mut self.slots[to].c, c);
                    drop(old);
                    self.slots[to].m = m;
                    ctx.observe(77);
                }
                g.vals.clear();
            }
            drop(got);
            self.resync(&op, &before, &given, &changes, &reads)?;
            self.distinct(&op)?;
            return Ok(());
        }
        match want {
            Want::Anything => unreachable!(),
            Want::Unsupported => {}
            Want::Refuse => {
                ctx.label("refused");
                match got {
                    Ok(mut g) => {
                        if self.cfg.oracle == Oracle::Owner {
                            g.vals.clear();
                            self.adopt(&op, g, ctx)?;
                        } else {
                            bad!("{:?} on {:?} (capacity {}) must be refused but completed", op, before, self.cap)
                        }
                    }
                    Err(_) => {
                        for (s, b) in self.slots.iter_mut().zip(before.iter()) {
                            s.m = b.clone();
                        }
                    }
                }
            }
            Want::RefusePrefix(s, items) => {
                ctx.label("refused");
                if got.is_ok() && self.cfg.oracle != Oracle::Owner {
                    bad!("{:?} on {:?} (capacity {}) must be refused but completed", op, before, self.cap)
                }
                let now = contents(&*self.slots[s].c, self.cap);
                if self.cfg.oracle == Oracle::Model {
                    let b = &before[s];
                    let k = now.len().wrapping_sub(b.len());
                    ensure!(
                        now.len() >= b.len() && k <= items.len() && now[..b.len()] == b[..] && now[b.len()..] == items[..k],
                        "{:?} was refused but left {:?} in a container that held {:?}", op, now, b
                    );
                }
                self.slots[s].m = now;
            }
            Want::Ok(vals, newm) => match got {
                Err(e) => bad!("{:?} on {:?} (capacity {}) panicked: {}", op, before, self.cap, e),
                Ok(mut g) => {
                    let gv: Vec<Option<M>> = g.vals.iter().map(|v| v.as_ref().map(|x| x.m())).collect();
                    for v in g.vals.iter().flatten() {
                        ensure!(v.intact(), "{:?} returned an item that is not live", op);
                    }
                    for v in &gv {
                        ctx.observe(v.map(|m| pack(m)).unwrap_or(NONE));
                    }
                    if self.cfg.oracle == Oracle::Model {
                        ensure!(gv == vals, "{:?} on {:?} returned {:?}, expected {:?}", op, before, gv, vals);
                        if let Op::CollectFrom(_, f, n) = &op {
                            ensure!(g.extra == (f.items.len() - n) as u64, "{:?} left {} items in the iterator, expected {}", op, g.extra, f.items.len() - n);
                        }
                    }
                    g.vals.clear();
                    if let (Some(c), Some(to)) = (g.newc.take(), Self::target(&op)) {
                        if self.cfg.oracle == Oracle::Model {
                            check_model(&*c, newm.as_ref().unwrap(), &format_args!("result of {:?} on {:?}", op, before))?;
                        }
                        let old = std::mem::replace(&mut self.slots[to].c, c);
                        drop(old);
                        self.slots[to].m = newm.unwrap();
                    }
                }
            },
            Want::Extra(x) => match got {
                Err(e) => bad!("{:?} on {:?} (capacity {}) panicked: {}", op, before, self.cap, e),
                Ok(g) => {
                    ctx.observe(g.extra);
                    if self.cfg.oracle == Oracle::Model {
                        ensure!(g.extra == x, "{:?} on {:?} answered {}, expected {}", op, before, show(g.extra), show(x))
                    }
                }
            },
            Want::Ordered(s, v) => match got {
                Err(e) => bad!("{:?} on {:?} (capacity {}) panicked: {}", op, before, self.cap, e),
                Ok(_) => {
                    let now = contents(&*self.slots[s].c, self.cap);
                    if self.cfg.oracle == Oracle::Model {
                        let b = &before[s];
                        ensure!(now.len() == b.len() + 1, "{:?} on {:?} left {:?}", op, before, now);
                        let fits = (0..now.len()).any(|i| now[i] == v && now[..i] == b[..i] && now[i + 1..] == b[i..]);
                        ensure!(fits, "{:?} on {:?} left {:?}: not the old items plus the new one", op, before, now);
                        if is_sorted(b) {
                            ctx.label("insert into sorted");
                            ensure!(is_sorted(&now), "{:?} on sorted {:?} left {:?}, not sorted", op, b, now);
                        }
                    }
                    self.slots[s].m = now;
                }
            },
            Want::Search(s, v) => match got {
                Err(e) => bad!("{:?} on {:?} panicked: {}", op, before, e),
                Ok(g) => {
                    if self.cfg.oracle == Oracle::Model {
                        let m = &self.slots[s].m;
                        let i = (g.extra / 2) as usize;
                        if g.extra % 2 == 0 {
                            ensure!(i < m.len() && m[i].key == v.key, "{:?} on {:?} found index {}", op, m, i);
                            ctx.label("search found");
                        } else {
                            ensure!(i <= m.len(), "{:?} on {:?} gave insertion index {}", op, m, i);
                            if is_sorted(m) {
                                let lo = m.iter().take_while(|x| x.key < v.key).count();
                                ensure!(i == lo && m.get(lo).map_or(true, |x| x.key != v.key), "{:?} on sorted {:?} gave Err({}), expected {}", op, m, i, lo);
                            }
                        }
                    }
                }
            },
            Want::Sorted(s) => match got {
                Err(e) => bad!("{:?} on {:?} panicked: {}", op, before, e),
                Ok(_) => {
                    let now = contents(&*self.slots[s].c, self.cap);
                    if self.cfg.oracle == Oracle::Model {
                        let mut a = now.clone();
                        let mut b = before[s].clone();
                        a.sort();
                        b.sort();
                        ensure!(a == b && is_sorted(&now), "{:?} of {:?} gave {:?}", op, before[s], now);
                    }
                    self.slots[s].m = now;
                }
            },
        }
        // check every slot that could have been touched; all of them for moves
        for s in 0..self.slots.len() {
            match self.cfg.oracle {
                Oracle::Model => {
                    let sl = &self.slots[s];
                    check_model(&*sl.c, &sl.m, &format_args!("slot {} after {:?} (before: {:?})", s, op, before[s]))?;
                }
                Oracle::Owner | Oracle::Loose => {
                    let cap = self.cap;
                    let sl = &mut self.slots[s];
                    ensure!(sl.c.intact(), "memory next to the container was overwritten by {:?}", op);
                    sl.m = contents(&*sl.c, cap);
                }
            }
            if ctx.obs_on {
                let sl = &self.slots[s];
                ctx.observe(sl.m.len() as u64);
                for m in &sl.m {
                    ctx.observe(pack(*m));
                }
            }
        }
        if E::TRACKED && self.cfg.oracle != Oracle::Loose {
            self.ownership(&op, &before)?;
        } else if E::TRACKED {
            self.distinct(&op)?;
        }
        Ok(())
    }

    /// An operation completed although the model would refuse it (ownership
    /// checks judge only who owns what).
    fn adopt(&mut self, op: &Op, mut g: Got<E>, _ctx: &mut Ctx) -> Res {
        if let (Some(c), Some(to)) = (g.newc.take(), Self::target(op)) {
            let old = std::mem::replace(&mut self.slots[to].c, c);
            drop(old);
        }
        Ok(())
    }

    fn given(op: &Op) -> Vec<M> {
        use Op::*;
        match op {
            PushBack(_, m) | PushFront(_, m) | Insert(_, _, m) | InsertOrdered(_, m) | Set(_, _, m) | IndexWrite(_, _, m) | GetWrite(_, _, m) | Unit(_, m) => vec![*m],
            Pair(_, a, b) => vec![*a, *b],
            InsertFrom(_, _, f) | CollectFrom(_, f, _) | FromIter(_, f) | Extend(_, f) => f.items.clone(),
            ExtendRef(_, m) | IterMut(_, _, m) => m.clone(),
            _ => vec![],
        }
    }

    /// The container shows only intact items out of `held`.
    fn valid(&self, c: &dyn Seq<E>, held: &[M], op: &Op) -> Res {
        ensure!(c.intact(), "{:?}: memory next to the container was overwritten", op);
        let len = c.len();
        ensure!(len <= self.cap, "{:?} left a container of length {} over capacity {}", op, len, self.cap);
        ensure!(c.is_empty() == (len == 0) && c.is_full() == (len == self.cap), "{:?}: is_empty/is_full disagree with len {}", op, len);
        let mut n = 0;
        let mut wrong = None;
        c.each(&mut |x| {
            let ok = x.intact() && (E::ZST || held.contains(&x.m()));
            if !ok {
                wrong = Some((n, x.m(), x.intact()));
            }
            n += 1;
            ok && n <= len
        });
        if let Some((i, m, live)) = wrong {
            bad!("{:?} left item {} = {:?} ({}) in a container; it held or was given {:?}", op, i, m, if live { "never there" } else { "not a live item" }, held)
        }
        ensure!(n == len, "{:?}: iteration gives {} items, len is {}", op, n, len);
        Ok(())
    }

    /// After a panic or a dishonest call: take the containers as they are, if valid.
    fn resync(&mut self, op: &Op, before: &[Vec<M>], given: &[M], changes: &[usize], reads: &[usize]) -> Res {
        let _ = reads;
        let mut held: Vec<M> = given.to_vec();
        if let Op::CloneFrom(_, b) = op {
            held.extend(before[*b].iter().copied());
        }
        for s in changes {
            held.extend(before[*s].iter().copied());
        }
        let target = Self::target(op);
        for s in 0..self.slots.len() {
            if changes.contains(&s) {
                let sl = &self.slots[s];
                self.valid(&*sl.c, &held, op)?;
                let m = contents(&*sl.c, self.cap);
                self.slots[s].m = m;
            } else if target == Some(s) && self.slots[s].m != before[s] {
                // replaced by the operation's result, already judged
                let sl = &self.slots[s];
                check_model(&*sl.c, &sl.m, &format_args!("result of {:?}", op))?;
            } else {
                let sl = &self.slots[s];
                check_model(&*sl.c, &sl.m, &format_args!("slot {}, not modified by {:?}", s, op))?;
            }
        }
        if let Some(e) = fault::errors() {
            bad!("{:?}: {}", op, e)
        }
        Ok(())
    }

    /// No tracked item is visible in two places.
    fn distinct(&self, op: &Op) -> Res {
        if !E::TRACKED || E::ZST {
            return Ok(());
        }
        let mut ids: Vec<u32> = Vec::new();
        for s in self.slots.iter() {
            let mut n = 0;
            s.c.each(&mut |x| {
                ids.push(x.id().unwrap());
                n += 1;
                n <= self.cap
            });
        }
        let n = ids.len();
        ids.sort();
        ids.dedup();
        ensure!(ids.len() == n, "after {:?} the same item is visible in two places", op);
        Ok(())
    }

    /// Every live tracked item is visible in exactly one place.
    fn ownership(&self, op: &Op, before: &[Vec<M>]) -> Res {
        if let Some(e) = fault::errors() {
            bad!("{:?} on {:?}: {}", op, before, e)
        }
        if E::ZST {
            let n: usize = self.slots.iter().map(|s| s.c.len()).sum();
            ensure!(fault::zst_live() == n as i64, "after {:?} on {:?}: {} zero-sized items alive, {} held", op, before, fault::zst_live(), n);
            return Ok(());
        }
        let mut n = 0i64;
        let mut dead = None;
        for s in self.slots.iter() {
            let mut k = 0;
            s.c.each(&mut |x| {
                n += 1;
                k += 1;
                if !x.intact() {
                    dead = Some(x.m());
                    return false;
                }
                k <= self.cap
            });
        }
        if let Some(m) = dead {
            bad!("after {:?} on {:?} a container shows an item that is not live ({:?})", op, before, m)
        }
        self.distinct(op)?;
        ensure!(fault::live_count() == n, "after {:?} on {:?}: {} items alive, {} held", op, before, fault::live_count(), n);
        Ok(())
    }

    /// Measure what the history does (for the evidence).
    fn stats(&mut self, op: &Op, ctx: &mut Ctx) {
        let (changes, _, _) = Self::roles(op);
        for s in &changes {
            let sl = &self.slots[*s];
            let len = sl.m.len();
            if len == self.cap && self.cap > 0 {
                ctx.label("on a full container");
            }
            if len >= 2 && !E::ZST {
                if let (Some(a), Some(b)) = (sl.c.first(), sl.c.last()) {
                    let (a, b) = (a as *const E as usize, b as *const E as usize);
                    match self.cfg.kind {
                        SeqKind::Ring => {
                            if b < a {
                                ctx.label("on wrapped contents");
                                ctx.nontrivial = true;
                            }
                        }
                        SeqKind::Chunk => {
                            let base = sl.c.any() as *const dyn std::any::Any as *const u8 as usize;
                            let off = a as isize - base as isize;
                            if self.zero_off == 0 || off < self.zero_off {
                                self.zero_off = off;
                            }
                            if off > self.zero_off {
                                ctx.label("contents not at the storage start");
                                ctx.nontrivial = true;
                            }
                        }
                    }
                }
            }
        }
        match op {
            Op::Insert(s, i, _) | Op::InsertFrom(s, i, _) | Op::Remove(s, i) => {
                let len = self.slots[*s].m.len();
                if len >= 2 && *i > 0 && *i < len {
                    ctx.label("insert/remove in the middle");
                    ctx.nontrivial = true;
                }
            }
            Op::Append(a, b) | Op::DrainFromFront(a, b, _) | Op::DrainFromBack(a, b, _) => {
                if !self.slots[*a].m.is_empty() && !self.slots[*b].m.is_empty() {
                    ctx.label("bulk move between non-empty containers");
                    ctx.nontrivial = true;
                }
            }
            Op::SplitOff(..) | Op::FromFront(..) | Op::FromBack(..) => ctx.label("split / take"),
            _ => {}
        }
    }

    /// Drop everything and check that nothing is left alive.
    pub fn finish(mut self, exact: bool) -> Res {
        // SAFETY: taken once, self.slots is not used again
        let slots = unsafe { ManuallyDrop::take(&mut self.slots) };
        drop(slots);
        if let Some(e) = fault::errors() {
            bad!("at the end: {}", e)
        }
        if E::TRACKED && exact {
            ensure!(fault::live_count() == 0 && fault::zst_live() == 0, "{} items still alive after every container was dropped", fault::live_count() + fault::zst_live());
        }
        Ok(())
    }
}

const NONE: u64 = u64::MAX;
pub fn pack(m: M) -> u64 {
    ((m.key as u64) << 32) | m.uid as u64
}
fn show(x: u64) -> String {
    if x == NONE {
        "None".into()
    } else if x >> 32 != 0 {
        format!("{:?}", M { key: (x >> 32) as u32, uid: x as u32 })
    } else {
        x.to_string()
    }
}
fn chunk_can_extend_ref<E: Elem>() -> bool {
    let mut c = sized_chunks::Chunk::<E, 1>::new();
    E::chunk_extend_ref(&mut c, &[])
}

pub fn pick_cap(src: &mut Src, table: &[(usize, u32)]) -> usize {
    let w: Vec<u32> = table.iter().map(|x| x.1).collect();
    table[src.weighted(&w)].0
}

/// A random history.
pub fn history<E: Elem>(src: &mut Src, ctx: &mut Ctx, cfg: Cfg, table: &[(usize, u32)], mk: fn(usize) -> BoxSeq<E>) -> Res {
    let cap = pick_cap(src, table);
    tr!(ctx, "{:?}<{}, {}>", cfg.kind, E::NAME, cap);
    let exact = cfg.fuse == 0 && cfg.lies == 0;
    let mut w = World::<E>::new(cfg, cap, mk);
    let n = w.cfg.slots;
    for s in 0..n {
        if src.flag(3, 4) {
            w.arrange(src, s, ctx)?;
        }
        let sl = &w.slots[s];
        if w.cfg.oracle == Oracle::Model {
            check_model(&*sl.c, &sl.m, &"after arranging")?;
        }
    }
    let mut done = 0;
    let (max, avg) = (w.cfg.max_ops, w.cfg.avg_ops);
    while src.more(done, max, avg) {
        w.step(src, ctx)?;
        done += 1;
    }
    ctx.label_if(done >= 10, "10+ operations");
    ctx.label_if(cap >= 31, "capacity 31 or more");
    ctx.label_if(cap > 1 << 8 && cap < HUGE && done >= 2, "capacity past 8 bits");
    ctx.label_if(cap > 1 << 15 && cap < HUGE && done >= 2, "capacity past 16 bits");
    if cap > HUGE && done >= 3 {
        ctx.label("capacity no memory could hold");
        ctx.nontrivial = true;
    }
    w.finish(exact)
}

const PAIR_OPS: [usize; 6] = [12, 13, 14, 29, 31, 39];

/// Bounded-exhaustive: every arrangement of a container, then `ops` operations
/// with every argument. `pairs`: two containers and one operation between them.
pub fn small_scope<E: Elem>(src: &mut Src, ctx: &mut Ctx, mut cfg: Cfg, caps: &[usize], mk: fn(usize) -> BoxSeq<E>, ops: usize, pairs: bool) -> Res {
    let cap = *src.pick(caps);
    tr!(ctx, "{:?}<{}, {}>", cfg.kind, E::NAME, cap);
    cfg.slots = 2;
    if !cfg.sorted {
        cfg.keys = 1;
    }
    for i in 0..NOPS {
        if PAIR_OPS.contains(&i) != pairs {
            cfg.weights[i] = 0;
        }
    }
    let exact = cfg.fuse == 0 && cfg.lies == 0;
    let mut w = World::<E>::new(cfg, cap, mk);
    w.arrange(src, 0, ctx)?;
    if pairs {
        w.arrange(src, 1, ctx)?;
    }
    src.shard_here()?;
    for s in 0..2 {
        let sl = &w.slots[s];
        if w.cfg.oracle == Oracle::Model {
            check_model(&*sl.c, &sl.m, &"after arranging")?;
        }
    }
    for _ in 0..ops {
        w.step(src, ctx)?;
    }
    w.finish(exact)
}

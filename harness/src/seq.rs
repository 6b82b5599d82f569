//! Object-safe view of `Chunk` and `RingBuffer` that erases the capacity.

use crate::elem::{Elem, Zd, M};
use crate::engine::Res;
use crate::{bad, ensure};
use sized_chunks::Chunk;
#[cfg(feature = "rb")]
use sized_chunks::RingBuffer;
use std::any::Any;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SeqKind {
    Chunk,
    Ring,
}

pub const GUARD: u64 = 0xA5A5_5A5A_C3C3_3C3C;

/// A container between guard words.
#[repr(C)]
pub struct Guarded<C> {
    pre: [u64; 4],
    pub c: C,
    post: [u64; 4],
}
impl<C> Guarded<C> {
    pub fn new(c: C) -> Self {
        Guarded { pre: [GUARD; 4], c, post: [GUARD; 4] }
    }
    pub fn intact(&self) -> bool {
        // volatile: the optimiser may assume nobody writes here
        unsafe { std::ptr::read_volatile(&self.pre) == [GUARD; 4] && std::ptr::read_volatile(&self.post) == [GUARD; 4] }
    }
}

pub type BoxSeq<E> = Box<dyn Seq<E>>;
pub type DynIter<'a, E> = Box<dyn Iterator<Item = E> + 'a>;
pub type DynExact<'a, E> = Box<dyn ExactSizeIterator<Item = E> + 'a>;

/// What a script of front/back steps yielded.
pub fn run_script<T, I: DoubleEndedIterator<Item = T>>(it: &mut I, script: &[bool], out: &mut Vec<Option<T>>) {
    for back in script {
        out.push(if *back { it.next_back() } else { it.next() });
    }
}

pub trait Seq<E: Elem> {
    fn kind(&self) -> SeqKind;
    fn cap(&self) -> usize;
    fn intact(&self) -> bool;
    fn any(&self) -> &dyn Any;
    fn any_mut(&mut self) -> &mut dyn Any;
    fn into_any(self: Box<Self>) -> Box<dyn Any>;
    // constructors of the same type
    fn mk_new(&self) -> BoxSeq<E>;
    fn mk_default(&self) -> BoxSeq<E>;
    fn mk_unit(&self, a: E) -> BoxSeq<E>;
    fn mk_pair(&self, a: E, b: E) -> BoxSeq<E>;
    fn mk_collect_from(&self, it: DynIter<'_, E>, n: usize) -> BoxSeq<E>;
    fn mk_from_iter(&self, it: DynIter<'_, E>) -> BoxSeq<E>;
    // queries
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn is_full(&self) -> bool;
    fn get(&self, i: usize) -> Option<&E>;
    fn index(&self, i: usize) -> &E;
    fn get_mut(&mut self, i: usize) -> Option<&mut E>;
    fn index_mut(&mut self, i: usize) -> &mut E;
    fn first(&self) -> Option<&E>;
    fn last(&self) -> Option<&E>;
    fn as_slice(&self) -> Option<&[E]>;
    fn each(&self, f: &mut dyn FnMut(&E) -> bool);
    fn each_mut(&mut self, rev: bool, f: &mut dyn FnMut(&mut E) -> bool);
    // operations
    fn push_back(&mut self, v: E);
    fn push_front(&mut self, v: E);
    fn pop_back(&mut self) -> Option<E>;
    fn pop_front(&mut self) -> Option<E>;
    fn insert(&mut self, i: usize, v: E);
    fn insert_ordered(&mut self, v: E);
    fn insert_from(&mut self, i: usize, it: DynExact<'_, E>);
    fn remove(&mut self, i: usize) -> E;
    /// Replace at an index; None if the API refused by returning None.
    fn set(&mut self, i: usize, v: E) -> Option<E>;
    fn drop_left(&mut self, i: usize);
    fn drop_right(&mut self, i: usize);
    fn split_off(&mut self, i: usize) -> BoxSeq<E>;
    fn append(&mut self, o: &mut dyn Seq<E>);
    fn drain_from_front(&mut self, o: &mut dyn Seq<E>, n: usize);
    fn drain_from_back(&mut self, o: &mut dyn Seq<E>, n: usize);
    fn from_front(&mut self, n: usize) -> BoxSeq<E>;
    fn from_back(&mut self, n: usize) -> BoxSeq<E>;
    fn drain_from(&mut self) -> BoxSeq<E>;
    fn extend(&mut self, it: DynIter<'_, E>);
    fn extend_ref(&mut self, s: &[E]) -> bool;
    fn clear(&mut self);
    fn drain(&mut self, script: &[bool], out: &mut Vec<Option<E>>);
    fn into_iter(self: Box<Self>, script: &[bool], out: &mut Vec<Option<E>>);
    fn clone_box(&self) -> BoxSeq<E>;
    fn clone_from_other(&mut self, o: &dyn Seq<E>);
    /// Pool clone (refpool), moved out of the pool. None if not built in.
    fn pool_clone(&self) -> Option<BoxSeq<E>>;
    /// Move the container value to new memory.
    fn relocate(self: Box<Self>) -> BoxSeq<E>;
    /// mem::swap of the two container values.
    fn swap_with(&mut self, o: &mut dyn Seq<E>);
    fn eq_other(&self, o: &dyn Seq<E>) -> bool;
    fn eq_slice(&self, o: &[E]) -> bool;
    fn cmp_other(&self, o: &dyn Seq<E>) -> Ordering;
    fn hash_it(&self) -> u64;
    fn debug(&self) -> String;
    fn search(&self, v: &E) -> Result<usize, usize>;
    /// In-place edits through the slice / array view. Returns false if not available.
    fn edit(&mut self, how: Edit) -> bool;
}

#[derive(Clone, Copy, Debug)]
pub enum Edit {
    Swap(usize, usize),
    Reverse,
    Sort,
    RotateLeft(usize),
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

macro_rules! common {
    ($C:ident, $N:ident) => {
        fn cap(&self) -> usize {
            $C::<E, $N>::CAPACITY
        }
        fn intact(&self) -> bool {
            Guarded::intact(self)
        }
        fn any(&self) -> &dyn Any {
            self
        }
        fn any_mut(&mut self) -> &mut dyn Any {
            self
        }
        fn into_any(self: Box<Self>) -> Box<dyn Any> {
            self
        }
        fn mk_new(&self) -> BoxSeq<E> {
            Box::new(Guarded::new($C::<E, $N>::new()))
        }
        fn mk_default(&self) -> BoxSeq<E> {
            Box::new(Guarded::new($C::<E, $N>::default()))
        }
        fn mk_unit(&self, a: E) -> BoxSeq<E> {
            Box::new(Guarded::new($C::<E, $N>::unit(a)))
        }
        fn mk_pair(&self, a: E, b: E) -> BoxSeq<E> {
            Box::new(Guarded::new($C::<E, $N>::pair(a, b)))
        }
        fn mk_collect_from(&self, mut it: DynIter<'_, E>, n: usize) -> BoxSeq<E> {
            Box::new(Guarded::new($C::<E, $N>::collect_from(&mut it, n)))
        }
        fn mk_from_iter(&self, it: DynIter<'_, E>) -> BoxSeq<E> {
            Box::new(Guarded::new(it.collect::<$C<E, $N>>()))
        }
        fn len(&self) -> usize {
            self.c.len()
        }
        fn is_empty(&self) -> bool {
            self.c.is_empty()
        }
        fn is_full(&self) -> bool {
            self.c.is_full()
        }
        fn get(&self, i: usize) -> Option<&E> {
            self.c.get(i)
        }
        fn get_mut(&mut self, i: usize) -> Option<&mut E> {
            self.c.get_mut(i)
        }
        fn index(&self, i: usize) -> &E {
            &self.c[i]
        }
        fn index_mut(&mut self, i: usize) -> &mut E {
            &mut self.c[i]
        }
        fn first(&self) -> Option<&E> {
            self.c.first()
        }
        fn last(&self) -> Option<&E> {
            self.c.last()
        }
        fn each(&self, f: &mut dyn FnMut(&E) -> bool) {
            for x in self.c.iter() {
                if !f(x) {
                    break;
                }
            }
        }
        fn each_mut(&mut self, rev: bool, f: &mut dyn FnMut(&mut E) -> bool) {
            if rev {
                for x in self.c.iter_mut().rev() {
                    if !f(x) {
                        break;
                    }
                }
            } else {
                for x in &mut self.c {
                    if !f(x) {
                        break;
                    }
                }
            }
        }
        fn push_back(&mut self, v: E) {
            self.c.push_back(v)
        }
        fn push_front(&mut self, v: E) {
            self.c.push_front(v)
        }
        fn insert(&mut self, i: usize, v: E) {
            self.c.insert(i, v)
        }
        fn insert_ordered(&mut self, v: E) {
            self.c.insert_ordered(v)
        }
        fn insert_from(&mut self, i: usize, it: DynExact<'_, E>) {
            self.c.insert_from(i, it)
        }
        fn remove(&mut self, i: usize) -> E {
            self.c.remove(i)
        }
        fn drop_left(&mut self, i: usize) {
            self.c.drop_left(i)
        }
        fn drop_right(&mut self, i: usize) {
            self.c.drop_right(i)
        }
        fn split_off(&mut self, i: usize) -> BoxSeq<E> {
            Box::new(Guarded::new(self.c.split_off(i)))
        }
        fn append(&mut self, o: &mut dyn Seq<E>) {
            self.c.append(&mut o.any_mut().downcast_mut::<Self>().unwrap().c)
        }
        fn drain_from_front(&mut self, o: &mut dyn Seq<E>, n: usize) {
            self.c.drain_from_front(&mut o.any_mut().downcast_mut::<Self>().unwrap().c, n)
        }
        fn drain_from_back(&mut self, o: &mut dyn Seq<E>, n: usize) {
            self.c.drain_from_back(&mut o.any_mut().downcast_mut::<Self>().unwrap().c, n)
        }
        fn from_front(&mut self, n: usize) -> BoxSeq<E> {
            Box::new(Guarded::new($C::<E, $N>::from_front(&mut self.c, n)))
        }
        fn from_back(&mut self, n: usize) -> BoxSeq<E> {
            Box::new(Guarded::new($C::<E, $N>::from_back(&mut self.c, n)))
        }
        fn drain_from(&mut self) -> BoxSeq<E> {
            Box::new(Guarded::new($C::<E, $N>::drain_from(&mut self.c)))
        }
        fn extend(&mut self, it: DynIter<'_, E>) {
            Extend::<E>::extend(&mut self.c, it)
        }
        fn clear(&mut self) {
            self.c.clear()
        }
        fn drain(&mut self, script: &[bool], out: &mut Vec<Option<E>>) {
            run_script(&mut self.c.drain(), script, out)
        }
        fn into_iter(self: Box<Self>, script: &[bool], out: &mut Vec<Option<E>>) {
            let g = *self;
            let mut it = g.c.into_iter();
            run_script(&mut it, script, out)
        }
        fn clone_box(&self) -> BoxSeq<E> {
            Box::new(Guarded::new(self.c.clone()))
        }
        fn clone_from_other(&mut self, o: &dyn Seq<E>) {
            self.c.clone_from(&o.any().downcast_ref::<Self>().unwrap().c)
        }
        #[cfg(feature = "pool")]
        fn pool_clone(&self) -> Option<BoxSeq<E>> {
            use std::mem::MaybeUninit;
            let mut m: MaybeUninit<$C<E, $N>> = MaybeUninit::uninit();
            // SAFETY: fills our own uninitialised memory with junk
            unsafe { std::ptr::write_bytes(&mut m, 0xA5, 1) };
            // SAFETY: this is how a pool calls it
            let c = unsafe {
                refpool::PoolClone::clone_uninit(&self.c, &mut m);
                m.assume_init()
            };
            Some(Box::new(Guarded::new(c)))
        }
        #[cfg(not(feature = "pool"))]
        fn pool_clone(&self) -> Option<BoxSeq<E>> {
            None
        }
        fn relocate(self: Box<Self>) -> BoxSeq<E> {
            let v = *self;
            let moved = Some(v);
            Box::new(moved.unwrap())
        }
        fn swap_with(&mut self, o: &mut dyn Seq<E>) {
            std::mem::swap(&mut self.c, &mut o.any_mut().downcast_mut::<Self>().unwrap().c)
        }
        fn eq_other(&self, o: &dyn Seq<E>) -> bool {
            self.c == o.any().downcast_ref::<Self>().unwrap().c
        }
        fn cmp_other(&self, o: &dyn Seq<E>) -> Ordering {
            self.c.cmp(&o.any().downcast_ref::<Self>().unwrap().c)
        }
        fn hash_it(&self) -> u64 {
            hash_of(&self.c)
        }
        fn debug(&self) -> String {
            format!("{:?}", self.c)
        }
    };
}

impl<E: Elem, const N: usize> Seq<E> for Guarded<Chunk<E, N>> {
    common!(Chunk, N);
    fn kind(&self) -> SeqKind {
        SeqKind::Chunk
    }
    fn as_slice(&self) -> Option<&[E]> {
        let v = crate::views::view(&self.c);
        let s = self.c.as_slice();
        Some(if v.len() == s.len() && (v.is_empty() || v.as_ptr() == s.as_ptr()) { s } else { v })
    }
    fn pop_back(&mut self) -> Option<E> {
        Some(self.c.pop_back())
    }
    fn pop_front(&mut self) -> Option<E> {
        Some(self.c.pop_front())
    }
    fn set(&mut self, i: usize, v: E) -> Option<E> {
        Some(self.c.set(i, v))
    }
    fn extend_ref(&mut self, s: &[E]) -> bool {
        E::chunk_extend_ref(&mut self.c, s)
    }
    fn eq_slice(&self, o: &[E]) -> bool {
        let v: Vec<E> = o.to_vec();
        self.c == v
    }
    fn search(&self, v: &E) -> Result<usize, usize> {
        self.c.binary_search(v)
    }
    fn edit(&mut self, how: Edit) -> bool {
        match how {
            Edit::Swap(a, b) => crate::views::view_mut(&mut self.c).swap(a, b),
            Edit::Reverse => self.c.as_mut_slice().reverse(),
            Edit::Sort => self.c.sort(),
            Edit::RotateLeft(k) => crate::views::view_mut(&mut self.c).rotate_left(k),
        }
        true
    }
}

#[cfg(feature = "rb")]
use array_ops::{Array, ArrayMut, HasLength};

#[cfg(feature = "rb")]
impl<E: Elem, const N: usize> Seq<E> for Guarded<RingBuffer<E, N>> {
    common!(RingBuffer, N);
    fn kind(&self) -> SeqKind {
        SeqKind::Ring
    }
    fn as_slice(&self) -> Option<&[E]> {
        None
    }
    fn pop_back(&mut self) -> Option<E> {
        self.c.pop_back()
    }
    fn pop_front(&mut self) -> Option<E> {
        self.c.pop_front()
    }
    fn set(&mut self, i: usize, v: E) -> Option<E> {
        ArrayMut::set(&mut self.c, i, v)
    }
    fn extend_ref(&mut self, s: &[E]) -> bool {
        Extend::<&E>::extend(&mut self.c, s.iter());
        true
    }
    fn eq_slice(&self, o: &[E]) -> bool {
        let v: Vec<E> = o.to_vec();
        self.c == v
    }
    fn search(&self, v: &E) -> Result<usize, usize> {
        Array::binary_search(&self.c, v)
    }
    fn edit(&mut self, how: Edit) -> bool {
        match how {
            Edit::Swap(a, b) => {
                let l = self.c.len();
                assert!(a < l && b < l, "swap bounds");
                ArrayMut::swap(&mut self.c, a, b);
                true
            }
            // array-ops underflows on an empty array (not this crate's code)
            Edit::Sort if self.c.len() > 0 => {
                ArrayMut::sort_unstable(&mut self.c);
                true
            }
            _ => false,
        }
    }
}

/// All capacities that are instantiated, with selection weights.
pub const CAPS: &[(usize, u32)] = &[
    (0, 2), (1, 4), (2, 5), (3, 7), (4, 7), (5, 8), (6, 6), (7, 6), (8, 8), (9, 4), (12, 4), (16, 4),
    (17, 3), (31, 2), (32, 3), (33, 3), (64, 6), (65, 3), (100, 2), (128, 2), (300, 1),
];
pub const SMALL: &[(usize, u32)] = &[(0, 1), (1, 2), (2, 3), (3, 4), (4, 4), (5, 5), (8, 4), (16, 2), (33, 1), (64, 2)];
pub const TINY: &[(usize, u32)] = &[(1, 1), (2, 2), (3, 3), (4, 3), (5, 4), (8, 3)];

macro_rules! by_cap {
    ($C:ident, $E:ty, $cap:expr, [$($n:literal),*]) => { match $cap { $($n => Box::new(Guarded::new($C::<$E, $n>::new())) as BoxSeq<$E>,)* n => panic!("capacity {} not instantiated", n) } };
}
/// Constructors for every capacity of the tables above.
pub fn chunk_all<E: Elem>(cap: usize) -> BoxSeq<E> {
    by_cap!(Chunk, E, cap, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 31, 32, 33, 64, 65, 100, 128, 300])
}
pub fn chunk_small<E: Elem>(cap: usize) -> BoxSeq<E> {
    by_cap!(Chunk, E, cap, [0, 1, 2, 3, 4, 5, 8, 16, 33, 64])
}
pub fn chunk_tiny<E: Elem>(cap: usize) -> BoxSeq<E> {
    by_cap!(Chunk, E, cap, [1, 2, 3, 4, 5, 8])
}
#[cfg(feature = "rb")]
pub fn ring_all<E: Elem>(cap: usize) -> BoxSeq<E> {
    by_cap!(RingBuffer, E, cap, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 31, 32, 33, 64, 65, 100, 128, 300])
}
#[cfg(feature = "rb")]
pub fn ring_small<E: Elem>(cap: usize) -> BoxSeq<E> {
    by_cap!(RingBuffer, E, cap, [0, 1, 2, 3, 4, 5, 8, 16, 33, 64])
}
#[cfg(feature = "rb")]
pub fn ring_tiny<E: Elem>(cap: usize) -> BoxSeq<E> {
    by_cap!(RingBuffer, E, cap, [1, 2, 3, 4, 5, 8])
}

/// Capacities past 8 and 16 bits.
pub const LARGE: &[(usize, u32)] = &[(255, 2), (256, 3), (257, 3), (1000, 2), (4097, 1)];
pub const LARGER: &[(usize, u32)] = &[(32769, 1), (65535, 1), (65536, 2), (65537, 2), (70000, 1)];
pub fn chunk_large<E: Elem>(cap: usize) -> BoxSeq<E> {
    by_cap!(Chunk, E, cap, [255, 256, 257, 1000, 4097])
}
pub fn chunk_larger(cap: usize) -> BoxSeq<u8> {
    by_cap!(Chunk, u8, cap, [32769, 65535, 65536, 65537, 70000])
}
#[cfg(feature = "rb")]
pub fn ring_large<E: Elem>(cap: usize) -> BoxSeq<E> {
    by_cap!(RingBuffer, E, cap, [255, 256, 257, 1000, 4097])
}
#[cfg(feature = "rb")]
pub fn ring_larger(cap: usize) -> BoxSeq<u8> {
    by_cap!(RingBuffer, u8, cap, [32769, 65535, 65536, 65537, 70000])
}

/// Capacities no memory could hold, for zero-sized items.
pub const HUGES: &[(usize, u32)] = &[
    (1 << 32, 1), (isize::MAX as usize, 1), (isize::MAX as usize + 1, 2), (isize::MAX as usize + 2, 1), (usize::MAX - 9, 2),
    (usize::MAX - 1, 2), (usize::MAX, 3),
];
pub fn chunk_huge(cap: usize) -> BoxSeq<Zd> {
    by_cap!(Chunk, Zd, cap, [0x1_0000_0000, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, 0x8000_0000_0000_0001, 0xffff_ffff_ffff_fff6, 0xffff_ffff_ffff_fffe, 0xffff_ffff_ffff_ffff])
}
#[cfg(feature = "rb")]
pub fn ring_huge(cap: usize) -> BoxSeq<Zd> {
    by_cap!(RingBuffer, Zd, cap, [0x1_0000_0000, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, 0x8000_0000_0000_0001, 0xffff_ffff_ffff_fff6, 0xffff_ffff_ffff_fffe, 0xffff_ffff_ffff_ffff])
}

/// Contents by iteration; stops after `limit + 1` items.
pub fn contents<E: Elem>(s: &dyn Seq<E>, limit: usize) -> Vec<M> {
    let mut v = Vec::new();
    s.each(&mut |x| {
        v.push(x.m());
        v.len() <= limit
    });
    v
}

/// The whole observable state agrees with the model.
pub fn check_model<E: Elem>(s: &dyn Seq<E>, model: &[M], what: &dyn std::fmt::Display) -> Res {
    let cap = s.cap();
    ensure!(s.intact(), "{}: memory next to the container was overwritten", what);
    ensure!(s.len() == model.len(), "{}: len() is {}, expected {}", what, s.len(), model.len());
    ensure!(s.is_empty() == model.is_empty(), "{}: is_empty() is {} with {} items", what, s.is_empty(), model.len());
    ensure!(s.is_full() == (model.len() == cap), "{}: is_full() is {} with {} of {} items", what, s.is_full(), model.len(), cap);
    let mut i = 0;
    let mut wrong: Option<(usize, M, bool)> = None;
    s.each(&mut |x| {
        let m = x.m();
        let ok = x.intact();
        if i >= model.len() || m != model[i] || !ok {
            wrong = Some((i, m, ok));
            return false;
        }
        i += 1;
        true
    });
    if let Some((i, m, ok)) = wrong {
        bad!("{}: item {} is {:?}{}, expected {:?}; contents {:?}, expected {:?}", what, i, m, if ok { "" } else { " (not a live item)" }, model.get(i), contents(s, model.len()), model)
    }
    ensure!(i == model.len(), "{}: iteration gave {} items of {}", what, i, model.len());
    if let Some(sl) = s.as_slice() {
        ensure!(sl.len() == model.len(), "{}: slice length {} expected {}", what, sl.len(), model.len());
        for (x, m) in sl.iter().zip(model) {
            ensure!(x.m() == *m, "{}: slice view disagrees: {:?} expected {:?}", what, x.m(), m);
        }
    } else {
        for (i, m) in model.iter().enumerate() {
            match s.get(i) {
                Some(x) => ensure!(x.m() == *m, "{}: get({}) is {:?}, expected {:?}", what, i, x.m(), m),
                None => bad!("{}: get({}) is None, expected {:?}", what, i, m),
            }
        }
    }
    ensure!(s.get(model.len()).is_none(), "{}: get(len) is Some", what);
    ensure!(s.first().map(|x| x.m()) == model.first().copied(), "{}: first() is {:?}, expected {:?}", what, s.first().map(|x| x.m()), model.first());
    ensure!(s.last().map(|x| x.m()) == model.last().copied(), "{}: last() is {:?}, expected {:?}", what, s.last().map(|x| x.m()), model.last());
    Ok(())
}

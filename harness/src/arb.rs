//! Containers generated from bytes, against plain vectors generated from the same bytes.
#![cfg(feature = "arb")]

use crate::engine::{Ctx, Res, Src};
use crate::fault::{self, catch};
use crate::{bad, ensure, ensure_eq, tr};
use arbitrary::{Arbitrary, Error, Result as AResult, Unstructured};
use bitmaps::{Bits, BitsImpl};
#[cfg(feature = "rb")]
use sized_chunks::RingBuffer;
use sized_chunks::{Chunk, InlineArray, SparseChunk};
use std::fmt::Debug;
use std::marker::PhantomData;

/// What the bytes encode: the items of the list they hold, as far as the
/// capacity goes.
#[derive(Debug, PartialEq, Clone)]
pub struct Listed<A, C>(pub Vec<A>, PhantomData<C>);
/// Capacity of the container which is to hold the list.
pub trait Cap {
    const CAP: usize;
}
impl<'a, A: Arbitrary<'a>, C: Cap> Arbitrary<'a> for Listed<A, C> {
    fn arbitrary(u: &mut Unstructured<'a>) -> AResult<Self> {
        let mut v = Vec::new();
        let mut it = u.arbitrary_iter::<A>()?;
        while v.len() < C::CAP {
            match it.next() {
                Some(x) => v.push(x?),
                None => break,
            }
        }
        Ok(Listed(v, PhantomData))
    }
    fn arbitrary_take_rest(u: Unstructured<'a>) -> AResult<Self> {
        let mut v = Vec::new();
        let mut it = u.arbitrary_take_rest_iter::<A>()?;
        while v.len() < C::CAP {
            match it.next() {
                Some(x) => v.push(x?),
                None => break,
            }
        }
        Ok(Listed(v, PhantomData))
    }
}

/// An item generator and the same generator for the reference.
pub trait Item: for<'a> Arbitrary<'a> + Debug + 'static {
    const NAME: &'static str;
    const TRACKED: bool = false;
    type Ref: for<'a> Arbitrary<'a> + Debug + PartialEq + 'static;
    fn same(&self, r: &Self::Ref) -> bool;
}
macro_rules! plain_items {
    ($($t:ty),*) => {$(
        impl Item for $t {
            const NAME: &'static str = stringify!($t);
            type Ref = $t;
            fn same(&self, r: &$t) -> bool {
                self == r
            }
        }
    )*};
}
plain_items!(u8, u16, bool, u32, u64, char, String, (), (u8, u16), Option<u8>, Vec<u8>, [u8; 3], Result<u8, u16>, Box<u8>);

/// Counted in the ledger of live items; fails or panics for some bytes.
#[derive(Debug)]
pub struct Picky {
    v: u8,
    id: u32,
}
impl Clone for Picky {
    fn clone(&self) -> Self {
        Picky { v: self.v, id: fault::register() }
    }
}
impl Drop for Picky {
    fn drop(&mut self) {
        fault::unregister(self.id)
    }
}
fn picky(u: &mut Unstructured<'_>) -> AResult<u8> {
    let v = u8::arbitrary(u)?;
    match v {
        250 => Err(Error::IncorrectFormat),
        251 => Err(Error::NotEnoughData),
        252 => Err(Error::EmptyChoose),
        253 => panic!("picky generator"),
        _ => Ok(v),
    }
}
impl<'a> Arbitrary<'a> for Picky {
    fn arbitrary(u: &mut Unstructured<'a>) -> AResult<Self> {
        Ok(Picky { v: picky(u)?, id: fault::register() })
    }
    fn size_hint(_: usize) -> (usize, Option<usize>) {
        (1, Some(1))
    }
}
#[derive(Debug, PartialEq)]
pub struct PickyRef(u8);
impl<'a> Arbitrary<'a> for PickyRef {
    fn arbitrary(u: &mut Unstructured<'a>) -> AResult<Self> {
        Ok(PickyRef(picky(u)?))
    }
}
impl Item for Picky {
    const NAME: &'static str = "Picky";
    const TRACKED: bool = true;
    type Ref = PickyRef;
    fn same(&self, r: &PickyRef) -> bool {
        fault::is_live(self.id) && self.v == r.0
    }
}

/// Generators which claim extreme sizes, but take one byte.
macro_rules! claims {
    ($t:ident, $h:expr) => {
        #[derive(Debug, PartialEq, Clone)]
        pub struct $t(u8);
        impl<'a> Arbitrary<'a> for $t {
            fn arbitrary(u: &mut Unstructured<'a>) -> AResult<Self> {
                u8::arbitrary(u).map($t)
            }
            fn size_hint(_: usize) -> (usize, Option<usize>) {
                $h
            }
        }
        plain_items!($t);
    };
}
claims!(ClaimsMost, (0, Some(usize::MAX)));
claims!(ClaimsHalf, (0, Some(usize::MAX / 2)));
claims!(ClaimsNothing, (0, None));


/// One slot of the reference list.
pub trait Slot<A: Item>: for<'a> Arbitrary<'a> + Debug + 'static {
    fn show(&self) -> Option<&A::Ref>;
}
pub struct Full<R>(R);
impl<R: Debug> Debug for Full<R> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl<'a, R: Arbitrary<'a>> Arbitrary<'a> for Full<R> {
    fn arbitrary(u: &mut Unstructured<'a>) -> AResult<Self> {
        R::arbitrary(u).map(Full)
    }
}
impl<A: Item> Slot<A> for Full<A::Ref> {
    fn show(&self) -> Option<&A::Ref> {
        Some(&self.0)
    }
}
pub struct Maybe<R>(Option<R>);
impl<R: Debug> Debug for Maybe<R> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl<'a, R: Arbitrary<'a>> Arbitrary<'a> for Maybe<R> {
    fn arbitrary(u: &mut Unstructured<'a>) -> AResult<Self> {
        Option::<R>::arbitrary(u).map(Maybe)
    }
}
impl<A: Item> Slot<A> for Maybe<A::Ref> {
    fn show(&self) -> Option<&A::Ref> {
        self.0.as_ref()
    }
}

/// A container which can be generated.
pub trait Held: for<'a> Arbitrary<'a> + Cap + 'static {
    type A: Item;
    type S: Slot<Self::A>;
    const KIND: &'static str;
    fn count(&self) -> usize;
    fn full(&self) -> bool;
    fn slots(&self) -> Vec<Option<&Self::A>>;
    /// Add one more item at the end, or in the first gap; false if there is no room.
    fn add(&mut self, a: Self::A);
    /// Take one item out.
    fn take(&mut self) -> Option<Self::A>;
}
macro_rules! held {
    ($C:ident, $push:ident, $pop:expr) => {
        impl<A: Item, const N: usize> Cap for $C<A, N> {
            const CAP: usize = N;
        }
        impl<A: Item, const N: usize> Held for $C<A, N>
        where
            BitsImpl<N>: Bits,
        {
            type A = A;
            type S = Full<A::Ref>;
            const KIND: &'static str = stringify!($C);
            fn count(&self) -> usize {
                #[allow(unused_imports)]
                #[cfg(feature = "rb")]
                use array_ops::HasLength;
                self.len()
            }
            fn full(&self) -> bool {
                self.is_full()
            }
            fn slots(&self) -> Vec<Option<&A>> {
                self.iter().map(Some).collect()
            }
            fn add(&mut self, a: A) {
                self.$push(a)
            }
            fn take(&mut self) -> Option<A> {
                if self.count() == 0 {
                    None
                } else {
                    $pop(self)
                }
            }
        }
    };
}
held!(Chunk, push_back, |c: &mut Chunk<A, N>| Some(c.pop_front()));
#[cfg(feature = "rb")]
held!(RingBuffer, push_back, |c: &mut RingBuffer<A, N>| c.pop_front());
impl<A: Item, T: 'static> Cap for InlineArray<A, T> {
    const CAP: usize = InlineArray::<A, T>::CAPACITY;
}
impl<A: Item, T: 'static> Held for InlineArray<A, T> {
    type A = A;
    type S = Full<A::Ref>;
    const KIND: &'static str = "InlineArray";
    fn count(&self) -> usize {
        self.len()
    }
    fn full(&self) -> bool {
        self.is_full()
    }
    fn slots(&self) -> Vec<Option<&A>> {
        self.iter().map(Some).collect()
    }
    fn add(&mut self, a: A) {
        self.push(a)
    }
    fn take(&mut self) -> Option<A> {
        if self.is_empty() {
            None
        } else {
            Some(self.remove(0).expect("an item"))
        }
    }
}
impl<A: Item, const N: usize> Cap for SparseChunk<A, N>
where
    BitsImpl<N>: Bits,
{
    const CAP: usize = N;
}
impl<A: Item + Clone, const N: usize> Held for SparseChunk<A, N>
where
    BitsImpl<N>: Bits,
{
    type A = A;
    type S = Maybe<A::Ref>;
    const KIND: &'static str = "SparseChunk";
    fn count(&self) -> usize {
        self.len()
    }
    fn full(&self) -> bool {
        self.is_full()
    }
    fn slots(&self) -> Vec<Option<&A>> {
        (0..N).map(|i| self.get(i)).collect()
    }
    fn add(&mut self, a: A) {
        let i = (0..N).find(|i| self.get(*i).is_none()).expect("a gap");
        assert!(self.insert(i, a).is_none());
    }
    fn take(&mut self) -> Option<A> {
        self.pop()
    }
}

// containers of containers
macro_rules! nested {
    ($($t:ty => $r:ty),* $(,)?) => {$(
        impl Item for $t {
            const NAME: &'static str = stringify!($t);
            type Ref = Listed<$r, $t>;
            fn same(&self, r: &Self::Ref) -> bool {
                agree(self, &r.0).is_ok()
            }
        }
    )*};
}
nested!(Chunk<u8, 3> => Full<u8>, InlineArray<u16, [u64; 2]> => Full<u16>, SparseChunk<u8, 4> => Maybe<u8>);
#[cfg(feature = "rb")]
nested!(RingBuffer<u8, 3> => Full<u8>);
impl<R: PartialEq> PartialEq for Full<R> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<R: PartialEq> PartialEq for Maybe<R> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}

/// A value which holds its own kind, so that its size has no bound.
#[derive(Debug, Clone)]
pub struct Tree {
    v: u8,
    kids: Chunk<Box<Tree>, 2>,
}
impl<'a> Arbitrary<'a> for Tree {
    fn arbitrary(u: &mut Unstructured<'a>) -> AResult<Self> {
        Ok(Tree { v: u8::arbitrary(u)?, kids: Arbitrary::arbitrary(u)? })
    }
    fn size_hint(depth: usize) -> (usize, Option<usize>) {
        arbitrary::size_hint::and(u8::size_hint(depth), <Chunk<Box<Tree>, 2> as Arbitrary>::size_hint(depth))
    }
}
#[derive(Debug, PartialEq)]
pub struct TreeRef {
    v: u8,
    kids: Listed<Box<TreeRef>, Two>,
}
#[derive(Debug, PartialEq)]
pub struct Two;
impl Cap for Two {
    const CAP: usize = 2;
}
impl<'a> Arbitrary<'a> for TreeRef {
    fn arbitrary(u: &mut Unstructured<'a>) -> AResult<Self> {
        Ok(TreeRef { v: u8::arbitrary(u)?, kids: Arbitrary::arbitrary(u)? })
    }
}
impl Item for Tree {
    const NAME: &'static str = "Tree";
    type Ref = TreeRef;
    fn same(&self, r: &TreeRef) -> bool {
        self.v == r.v && self.kids.len() == r.kids.0.len() && self.kids.iter().zip(&r.kids.0).all(|(a, b)| a.same(b))
    }
}

fn agree<C: Held>(c: &C, want: &[C::S]) -> Result<(), String> {
    let got = c.slots();
    let n = want.iter().filter(|x| x.show().is_some()).count();
    if c.count() != n || got.iter().flatten().count() != n || c.full() != (n == C::CAP) {
        return Err(format!("has len {} (full: {}), expected {}", c.count(), c.full(), n));
    }
    for i in 0..got.len().max(want.len()) {
        let g = got.get(i).copied().flatten();
        let w = want.get(i).and_then(|x| x.show());
        let same = match (g, w) {
            (Some(g), Some(w)) => g.same(w),
            (None, None) => true,
            _ => false,
        };
        if !same {
            return Err(format!("slot {} holds {:?}, expected {:?}", i, g, w));
        }
    }
    Ok(())
}
fn work<C: Held>(mut c: C, what: &str) -> Res {
    // it is as usable as any other
    let n = c.count();
    let mut more = 0;
    while !c.full() && more < 40 {
        let spare = [1u8; 64];
        let a = <C::A as Arbitrary>::arbitrary(&mut Unstructured::new(&spare)).expect("an item");
        if let Err(e) = catch(|| c.add(a)) {
            bad!("{}: adding an item to the generated container panicked: {}", what, e)
        }
        more += 1;
        ensure!(c.count() == n + more, "{}: len {} after adding {} to {}", what, c.count(), more, n);
    }
    let mut out = 0;
    while let Some(a) = c.take() {
        drop(a);
        out += 1;
        ensure!(out <= n + more, "{}: more items come out than there are", what);
    }
    ensure_eq!(out, n + more, "{}: items taken out again", what);
    Ok(())
}
fn verdict<T>(r: &Result<AResult<T>, String>) -> &'static str {
    match r {
        Ok(Ok(_)) => "a value",
        Ok(Err(_)) => "an error",
        Err(_) => "a panic",
    }
}

pub fn case<C: Held>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let bytes: Vec<u8> = if src.exhaustive() {
        let n = src.int(8);
        (0..n).map(|_| src.int(5) as u8).map(|b| [0, 1, 2, 250, 253][b as usize]).collect()
    } else {
        // enough to fill it, and more or less
        let n = match src.int(6) {
            0 => src.int(8),
            1 => 300 + src.int(200),
            _ => src.int(80),
        };
        let style = src.int(4);
        (0..n)
            .map(|_| match style {
                0 => src.int(256) as u8,
                1 => src.int(256) as u8 | 1,
                2 => [1, 3, 1, 0, 2, 7, 1, 1][src.int(8)],
                _ => [1, 1, 1, 255, 1, 249, 0, 251, 253, 1, 1, 1, 1, 1, 1, 1][src.int(16)],
            })
            .collect()
    };
    let mode = if src.exhaustive() { src.int(2) } else { src.weighted(&[3, 3, 2]) };
    let what = format!("{}<{}, capacity {}>", C::KIND, C::A::NAME, C::CAP);
    tr!(ctx, "{} {} from {:?}", what, ["arbitrary", "arbitrary_take_rest", "several in a row"][mode], bytes);
    let rounds = if mode == 2 { 1 + src.int(5) } else { 1 };
    let mut u = Unstructured::new(&bytes);
    let mut u2 = Unstructured::new(&bytes);
    for round in 0..rounds {
        let before = u.len();
        let part: Vec<u8> = u.peek_bytes(before).expect("the rest").to_vec();
        let part = &part[..];
        let (got, want, after, after2);
        if mode == 1 {
            got = catch(|| C::arbitrary_take_rest(Unstructured::new(part)));
            want = catch(|| Listed::<C::S, C>::arbitrary_take_rest(Unstructured::new(part)));
            after = 0;
            after2 = 0;
        } else {
            got = catch(|| C::arbitrary(&mut u));
            after = u.len();
            want = catch(|| Listed::<C::S, C>::arbitrary(&mut u2));
            after2 = u2.len();
        }
        ctx.label(match verdict(&want) {
            "a value" => "generated",
            "an error" => "generator failed",
            _ => "generator panicked",
        });
        ensure!(verdict(&got) == verdict(&want), "{}, round {}: gives {}, the bytes encode {}{}", what, round, verdict(&got), verdict(&want), got.as_ref().err().map(|e| format!(" ({})", e)).unwrap_or_default());
        let live = fault::live_count();
        if let (Ok(Ok(c)), Ok(Ok(w))) = (&got, &want) {
            if let Err(e) = agree(c, &w.0) {
                bad!("{}, round {}: {}; the bytes encode {:?}", what, round, e, w.0)
            }
            if C::A::TRACKED {
                ensure_eq!(live, c.count() as i64, "{}: live items", what);
            }
            ctx.label_if(C::CAP > 0 && c.full(), "filled to capacity");
            ctx.label_if(w.0.iter().any(|x| x.show().is_none()), "gap in a sparse chunk");
            ctx.nontrivial |= c.count() >= 2;
            if mode != 1 {
                ensure!(after == after2, "{}, round {}: left {} bytes of {}, the list ends with {} left", what, round, after, before, after2);
                let used = before - after;
                for depth in [0usize, 1, 5, 19, 20, 21, 40] {
                    let (lo, hi) = C::size_hint(depth);
                    ensure!(hi.map_or(true, |h| lo <= h), "{}: size_hint({}) is ({}, {:?})", what, depth, lo, hi);
                    ensure!(used <= hi.unwrap_or(usize::MAX), "{}: took {} bytes, size_hint({}) is ({}, {:?})", what, used, depth, lo, hi);
                    ensure!(used >= lo.min(before), "{}: took {} bytes of {}, size_hint({}) is ({}, {:?})", what, used, before, depth, lo, hi);
                }
            }
        } else if C::A::TRACKED {
            ensure_eq!(live, 0, "{}: items alive after the generator failed", what);
            ctx.nontrivial |= bytes.len() >= 4;
        }
        let failed = verdict(&want) != "a value";
        if let Ok(Ok(c)) = got {
            // the same input, again
            let again = if mode == 1 { C::arbitrary_take_rest(Unstructured::new(part)) } else { C::arbitrary(&mut Unstructured::new(part)) };
            let want = want.unwrap().unwrap();
            match again {
                Ok(d) => {
                    if let Err(e) = agree(&d, &want.0) {
                        bad!("{}: the second time, {}", what, e)
                    }
                }
                Err(_) => bad!("{}: the second time, the same bytes gave an error", what),
            }
            work(c, &what)?;
        }
        if C::A::TRACKED {
            ensure_eq!(fault::live_count(), 0, "{}: items alive at the end", what);
        }
        if failed {
            break;
        }
    }
    Ok(())
}

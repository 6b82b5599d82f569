//! Element types. Every element is described by the model value `M`:
//! `key` takes part in comparisons, `uid` identifies the individual item.

use crate::fault::{self, Hook};
use sized_chunks::{Chunk, InlineArray};
use std::cmp::Ordering;
use std::fmt::{self, Debug};
use std::hash::{Hash, Hasher};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct M {
    pub key: u32,
    pub uid: u32,
}

pub trait Elem: Clone + Ord + Hash + Debug + 'static {
    const NAME: &'static str;
    const ZST: bool = false;
    const TRACKED: bool = false;
    /// Calls of clone are counted.
    const COUNTED: bool = Self::TRACKED;
    /// The model value as this element type can represent it.
    fn norm(m: M) -> M;
    fn make(m: M) -> Self;
    fn m(&self) -> M;
    /// Change the item in place to another model value.
    fn write(&mut self, m: M);
    /// Registry id, for tracked items.
    fn id(&self) -> Option<u32> {
        None
    }
    /// None if the item is not intact (ghost, dropped, garbage).
    fn intact(&self) -> bool {
        true
    }
    /// `Extend<&A> for InlineArray`, where the items are `Copy`.
    fn inline_extend_ref<T>(_c: &mut InlineArray<Self, T>, _s: &mut dyn Iterator<Item = &Self>) -> bool {
        false
    }
    fn chunk_extend_ref<const N: usize>(_c: &mut Chunk<Self, N>, _s: &[Self]) -> bool {
        false
    }
}

/// Key and identity, `Copy`. 8 bytes.
#[derive(Clone, Copy)]
pub struct KV {
    pub key: u32,
    pub uid: u32,
}
macro_rules! by_key {
    ($t:ty) => {
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                self.m().key == o.m().key
            }
        }
        impl Eq for $t {}
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $t {
            fn cmp(&self, o: &Self) -> Ordering {
                self.m().key.cmp(&o.m().key)
            }
        }
        impl Hash for $t {
            fn hash<H: Hasher>(&self, h: &mut H) {
                self.m().key.hash(h)
            }
        }
        impl Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{}#{}", self.m().key, self.m().uid)
            }
        }
    };
}
by_key!(KV);
impl Elem for KV {
    const NAME: &'static str = "KV";
    fn norm(m: M) -> M {
        m
    }
    fn make(m: M) -> Self {
        KV { key: m.key, uid: m.uid }
    }
    fn m(&self) -> M {
        M { key: self.key, uid: self.uid }
    }
    fn write(&mut self, m: M) {
        *self = Self::make(m)
    }
    fn inline_extend_ref<T>(c: &mut InlineArray<Self, T>, s: &mut dyn Iterator<Item = &Self>) -> bool {
        c.extend(s);
        true
    }
    fn chunk_extend_ref<const N: usize>(c: &mut Chunk<Self, N>, s: &[Self]) -> bool {
        c.extend(s.iter());
        true
    }
}

macro_rules! small_int {
    ($t:ty, $name:expr) => {
        impl Elem for $t {
            const NAME: &'static str = $name;
            fn norm(m: M) -> M {
                let k = m.key as $t as u32;
                M { key: k, uid: k }
            }
            fn make(m: M) -> Self {
                m.key as $t
            }
            fn m(&self) -> M {
                M { key: *self as u32, uid: *self as u32 }
            }
            fn write(&mut self, m: M) {
                *self = Self::make(m)
            }
            fn inline_extend_ref<T>(c: &mut InlineArray<Self, T>, s: &mut dyn Iterator<Item = &Self>) -> bool {
                c.extend(s);
                true
            }
            fn chunk_extend_ref<const N: usize>(c: &mut Chunk<Self, N>, s: &[Self]) -> bool {
                c.extend(s.iter());
                true
            }
        }
    };
}
small_int!(u8, "u8");
small_int!(u16, "u16");

/// Larger than two words, with a redundancy check. 40 bytes.
#[derive(Clone, Copy)]
pub struct Big {
    a: [u64; 5],
}
by_key!(Big);
impl Elem for Big {
    const NAME: &'static str = "Big40";
    fn norm(m: M) -> M {
        m
    }
    fn make(m: M) -> Self {
        let v = ((m.key as u64) << 32) | m.uid as u64;
        Big { a: [v, !v, v ^ 0x5555, v.rotate_left(7), v] }
    }
    fn m(&self) -> M {
        M { key: (self.a[0] >> 32) as u32, uid: self.a[0] as u32 }
    }
    fn write(&mut self, m: M) {
        *self = Self::make(m)
    }
    fn intact(&self) -> bool {
        let v = self.a[0];
        self.a == [v, !v, v ^ 0x5555, v.rotate_left(7), v]
    }
}

/// Heap-owning: a double drop aborts, a stale read is visible under ASan/Miri.
#[derive(Clone)]
pub struct Bx(Box<(u32, u32)>);
by_key!(Bx);
impl Elem for Bx {
    const NAME: &'static str = "Box";
    fn norm(m: M) -> M {
        m
    }
    fn make(m: M) -> Self {
        Bx(Box::new((m.key, m.uid)))
    }
    fn m(&self) -> M {
        M { key: self.0 .0, uid: self.0 .1 }
    }
    fn write(&mut self, m: M) {
        *self.0 = (m.key, m.uid)
    }
}

/// Heap-owning, and its user code can be made to panic.
pub struct Bk(Box<(u32, u32)>);
impl Drop for Bk {
    fn drop(&mut self) {
        fault::tick(Hook::Drop);
    }
}
impl Clone for Bk {
    fn clone(&self) -> Self {
        fault::tick(Hook::Clone);
        Bk(self.0.clone())
    }
}
impl PartialEq for Bk {
    fn eq(&self, o: &Self) -> bool {
        fault::tick(Hook::Cmp);
        self.0 .0 == o.0 .0
    }
}
impl Eq for Bk {}
impl PartialOrd for Bk {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Bk {
    fn cmp(&self, o: &Self) -> Ordering {
        fault::tick(Hook::Cmp);
        self.0 .0.cmp(&o.0 .0)
    }
}
impl Hash for Bk {
    fn hash<H: Hasher>(&self, h: &mut H) {
        fault::tick(Hook::Hash);
        self.0 .0.hash(h)
    }
}
impl Debug for Bk {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fault::tick(Hook::Debug);
        write!(f, "{}#{}", self.0 .0, self.0 .1)
    }
}
impl Elem for Bk {
    const NAME: &'static str = "BoxTicking";
    fn norm(m: M) -> M {
        m
    }
    fn make(m: M) -> Self {
        Bk(Box::new((m.key, m.uid)))
    }
    fn m(&self) -> M {
        M { key: self.0 .0, uid: self.0 .1 }
    }
    fn write(&mut self, m: M) {
        *self.0 = (m.key, m.uid)
    }
}

/// Zero-sized, no destructor.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Zst;
impl Elem for Zst {
    const NAME: &'static str = "Zst";
    const ZST: bool = true;
    fn norm(_: M) -> M {
        M { key: 0, uid: 0 }
    }
    fn make(_: M) -> Self {
        Zst
    }
    fn m(&self) -> M {
        M { key: 0, uid: 0 }
    }
    fn write(&mut self, _: M) {}
    fn inline_extend_ref<T>(c: &mut InlineArray<Self, T>, s: &mut dyn Iterator<Item = &Self>) -> bool {
        c.extend(s);
        true
    }
    fn chunk_extend_ref<const N: usize>(c: &mut Chunk<Self, N>, s: &[Self]) -> bool {
        c.extend(s.iter());
        true
    }
}

/// Zero-sized with a counted destructor.
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Zd(());
impl Clone for Zd {
    fn clone(&self) -> Self {
        fault::tick(Hook::Clone);
        fault::count_clone();
        fault::zst_add(1);
        Zd(())
    }
}
impl Drop for Zd {
    fn drop(&mut self) {
        fault::zst_add(-1);
        fault::tick(Hook::Drop);
    }
}
impl Elem for Zd {
    const NAME: &'static str = "ZstDrop";
    const ZST: bool = true;
    const TRACKED: bool = true;
    fn norm(_: M) -> M {
        M { key: 0, uid: 0 }
    }
    fn make(_: M) -> Self {
        fault::zst_add(1);
        Zd(())
    }
    fn m(&self) -> M {
        M { key: 0, uid: 0 }
    }
    fn write(&mut self, _: M) {}
}

macro_rules! aligned {
    ($t:ident, $a:expr, $name:expr) => {
        #[derive(Clone, Copy)]
        #[repr(align($a))]
        pub struct $t {
            key: u32,
            uid: u32,
        }
        by_key!($t);
        impl Elem for $t {
            const NAME: &'static str = $name;
            fn norm(m: M) -> M {
                m
            }
            fn make(m: M) -> Self {
                $t { key: m.key, uid: m.uid }
            }
            fn m(&self) -> M {
                M { key: self.key, uid: self.uid }
            }
            fn write(&mut self, m: M) {
                *self = Self::make(m)
            }
            fn intact(&self) -> bool {
                (self as *const Self as usize) % $a == 0
            }
        }
    };
}
aligned!(Al16, 16, "Align16");
aligned!(Al32, 32, "Align32");
aligned!(Al64, 64, "Align64");

/// A type with padding bytes and an enum niche.
#[derive(Clone, Copy)]
pub enum Pad {
    A { key: u32, uid: u32, pad: u16 },
    B(u8, u64),
}
by_key!(Pad);
impl Elem for Pad {
    const NAME: &'static str = "PadEnum";
    fn norm(m: M) -> M {
        m
    }
    fn make(m: M) -> Self {
        if m.key % 2 == 0 {
            Pad::A { key: m.key, uid: m.uid, pad: 7 }
        } else {
            Pad::B(9, ((m.key as u64) << 32) | m.uid as u64)
        }
    }
    fn m(&self) -> M {
        match self {
            Pad::A { key, uid, .. } => M { key: *key, uid: *uid },
            Pad::B(_, v) => M { key: (*v >> 32) as u32, uid: *v as u32 },
        }
    }
    fn write(&mut self, m: M) {
        *self = Self::make(m)
    }
    fn intact(&self) -> bool {
        match self {
            Pad::A { key, pad, .. } => *pad == 7 && key % 2 == 0,
            Pad::B(t, v) => *t == 9 && (*v >> 32) % 2 == 1,
        }
    }
}

const MAGIC: u32 = 0x7AC4_ED01;
const DEAD: u32 = 0xDEAD_0BAD;

/// Neither `Copy` nor with a destructor: plain data whose clones are counted.
pub struct Nd {
    key: u32,
    uid: u32,
}
by_key!(Nd);
impl Clone for Nd {
    fn clone(&self) -> Self {
        fault::tick(Hook::Clone);
        fault::count_clone();
        Nd { key: self.key, uid: self.uid }
    }
}
impl Elem for Nd {
    const NAME: &'static str = "NoDrop";
    const COUNTED: bool = true;
    fn norm(m: M) -> M {
        m
    }
    fn make(m: M) -> Self {
        Nd { key: m.key, uid: m.uid }
    }
    fn m(&self) -> M {
        M { key: self.key, uid: self.uid }
    }
    fn write(&mut self, m: M) {
        *self = Self::make(m)
    }
}

/// Tracked: every instance has a registry id; drops, clones, comparisons,
/// hashes are counted and can be made to panic.
pub struct Tk {
    magic: u32,
    id: u32,
    key: u32,
    uid: u32,
}
impl Tk {
    fn check(&self, what: &str) {
        if self.magic != MAGIC {
            fault::error(format!(
                "{} on an item that is not live (magic {:#x})",
                what, self.magic
            ))
        } else if !fault::is_live(self.id) {
            fault::error(format!("{} on item #{} after it was dropped", what, self.id))
        }
        fault::touch(self.id, what);
    }
}
impl Drop for Tk {
    fn drop(&mut self) {
        if self.magic != MAGIC {
            fault::error(format!("drop of an item that is not live (magic {:#x})", self.magic));
        } else {
            fault::unregister(self.id);
        }
        // SAFETY: plain write to our own field, volatile so that it is kept
        unsafe { std::ptr::write_volatile(&mut self.magic, DEAD) };
        fault::tick(Hook::Drop);
    }
}
impl Clone for Tk {
    fn clone(&self) -> Self {
        self.check("clone");
        fault::tick(Hook::Clone);
        fault::count_clone();
        Tk { magic: MAGIC, id: fault::register(), key: self.key, uid: self.uid }
    }
}
impl PartialEq for Tk {
    fn eq(&self, o: &Self) -> bool {
        self.check("eq");
        o.check("eq");
        fault::tick(Hook::Cmp);
        self.key == o.key
    }
}
impl Eq for Tk {}
impl PartialOrd for Tk {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tk {
    fn cmp(&self, o: &Self) -> Ordering {
        self.check("cmp");
        o.check("cmp");
        fault::tick(Hook::Cmp);
        self.key.cmp(&o.key)
    }
}
impl Hash for Tk {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.check("hash");
        fault::tick(Hook::Hash);
        self.key.hash(h)
    }
}
impl Debug for Tk {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.check("fmt");
        fault::tick(Hook::Debug);
        write!(f, "{}#{}", self.key, self.uid)
    }
}
impl Elem for Tk {
    const NAME: &'static str = "Tracked";
    const TRACKED: bool = true;
    fn norm(m: M) -> M {
        m
    }
    fn make(m: M) -> Self {
        Tk { magic: MAGIC, id: fault::register(), key: m.key, uid: m.uid }
    }
    fn m(&self) -> M {
        M { key: self.key, uid: self.uid }
    }
    fn write(&mut self, m: M) {
        self.key = m.key;
        self.uid = m.uid;
    }
    fn id(&self) -> Option<u32> {
        Some(self.id)
    }
    fn intact(&self) -> bool {
        self.magic == MAGIC && fault::is_live(self.id)
    }
}

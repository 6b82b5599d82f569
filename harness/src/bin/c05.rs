//! C05: InlineArray capacity, size, placement and alignment.
use harness::engine::*;
use harness::fault::catch;
use harness::{ensure, ensure_eq, tr};
use sized_chunks::InlineArray;
use std::mem::{align_of, size_of, MaybeUninit};
use std::num::{NonZeroU64, NonZeroUsize};

/// Any bit pattern is a valid value; no padding.
pub trait Raw: 'static {}
macro_rules! raw {
    ($($t:ident $a:literal),*) => { $(#[repr(align($a))] #[allow(dead_code)] pub struct $t([u8; $a]); impl<const K: usize> Raw for [$t; K] {})* };
}
raw!(A1 1, A2 2, A4 4, A8 8, A16 16, A64 64, A256 256);

fn make<A: Raw>(byte: u8) -> A {
    let mut m = MaybeUninit::<A>::uninit();
    // SAFETY: any bit pattern is valid
    unsafe {
        std::ptr::write_bytes(&mut m, byte, 1);
        m.assume_init()
    }
}
fn is<A: Raw>(a: &A, byte: u8) -> bool {
    // SAFETY: no padding
    let b = unsafe { std::slice::from_raw_parts(a as *const A as *const u8, size_of::<A>()) };
    b.iter().all(|x| *x == byte)
}

trait Probe {
    fn addr(&self) -> usize;
    fn len(&self) -> usize;
    fn is_full(&self) -> bool;
    fn push(&mut self, byte: u8);
    fn pop(&mut self, byte: u8) -> Option<bool>;
    fn at(&self, i: usize) -> usize;
    fn holds(&self, i: usize, byte: u8) -> bool;
    fn moved(self: Box<Self>, pad: usize) -> Box<dyn Probe>;
    fn option_trip(self: Box<Self>) -> Option<Box<dyn Probe>>;
}
#[repr(C)]
struct At<A, T> {
    /// keeps the array from being better aligned than its type asks for
    pad: u64,
    a: InlineArray<A, T>,
}
impl<A: Raw, T: 'static> Probe for At<A, T> {
    fn addr(&self) -> usize {
        &self.a as *const _ as usize
    }
    fn len(&self) -> usize {
        self.a.len()
    }
    fn is_full(&self) -> bool {
        self.a.is_full()
    }
    fn push(&mut self, byte: u8) {
        self.a.push(make(byte))
    }
    fn pop(&mut self, byte: u8) -> Option<bool> {
        self.a.pop().map(|x| is(&x, byte))
    }
    fn at(&self, i: usize) -> usize {
        &self.a[i] as *const A as usize
    }
    fn holds(&self, i: usize, byte: u8) -> bool {
        is(&self.a[i], byte)
    }
    fn moved(self: Box<Self>, pad: usize) -> Box<dyn Probe> {
        let a = self.a;
        let v = vec![At { pad: pad as u64, a }];
        Box::new(v.into_iter().next().unwrap())
    }
    fn option_trip(self: Box<Self>) -> Option<Box<dyn Probe>> {
        let mut o = Some(self.a);
        let here = o.is_some();
        let inner = o.take()?;
        if !here || o.is_some() {
            return None;
        }
        let oo = Some(Some(inner));
        match oo {
            Some(Some(a)) => Some(Box::new(At { pad: 0u64, a })),
            _ => None,
        }
    }
}

struct Pair {
    name: fn() -> String,
    es: usize,
    ea: usize,
    hs: usize,
    ha: usize,
    cap: usize,
    size: usize,
    align: usize,
    mk: fn(bool) -> Box<dyn Probe>,
}
const fn pair<A: Raw, T: 'static>() -> Pair {
    Pair {
        name: || format!("InlineArray<{}, {}>", std::any::type_name::<A>(), std::any::type_name::<T>()),
        es: size_of::<A>(),
        ea: align_of::<A>(),
        hs: size_of::<T>(),
        ha: align_of::<T>(),
        cap: InlineArray::<A, T>::CAPACITY,
        size: size_of::<InlineArray<A, T>>(),
        align: align_of::<InlineArray<A, T>>(),
        mk: |d| Box::new(At { pad: 0u64, a: if d { InlineArray::<A, T>::default() } else { InlineArray::<A, T>::new() } }),
    }
}
macro_rules! table {
    ($name:ident, [$($T:ty),* $(,)?]) => { table!(@ $name, [$($T),*],
        [A1; 0], [A1; 1], [A1; 2], [A1; 3], [A1; 5], [A1; 8], [A1; 11], [A2; 0], [A2; 1], [A2; 3], [A4; 0], [A4; 1], [A4; 3], [A8; 0], [A8; 1], [A8; 2], [A8; 3], [A16; 0], [A16; 1], [A16; 2], [A16; 3],
        [A64; 0], [A64; 1], [A64; 2], [A256; 0], [A256; 1], [A256; 2]); };
    (@ $name:ident, $Ts:tt, $($A:ty),*) => { const $name: &[&[Pair]] = &[$( table!(@@ $A, $Ts) ),*]; };
    (@@ $A:ty, [$($T:ty),*]) => { &[$( pair::<$A, $T>() ),*] };
}
table!(PLAIN, [
    [A1; 0], [A1; 1], [A1; 7], [A1; 8], [A1; 9], [A1; 15], [A1; 16], [A1; 17], [A1; 24], [A1; 31], [A1; 64], [A1; 100], [A1; 300],
    [A2; 3], [A2; 4], [A2; 5], [A2; 13], [A2; 40], [A4; 1], [A4; 2], [A4; 3], [A4; 4], [A4; 7], [A4; 20],
    [A8; 0], [A8; 1], [A8; 2], [A8; 3], [A8; 4], [A8; 5], [A8; 9], [A8; 33], [A16; 0], [A16; 1], [A16; 2], [A16; 3], [A64; 1], [A64; 2], [A64; 4], [A256; 0], [A256; 1], [A256; 2], [A256; 3],
]);
table!(NICHE, [[bool; 16], [bool; 33], [NonZeroUsize; 1], [NonZeroU64; 4], [&'static u8; 6], [char; 9], [Option<&'static u64>; 3], [std::cmp::Ordering; 21], Box<u8>, [String; 2]]);

fn check(p: &Pair, src: &mut Src, ctx: &mut Ctx) -> Res {
    let name = (p.name)();
    tr!(ctx, "{}: element {}/{} host {}/{} capacity {}", name, p.es, p.ea, p.hs, p.ha, p.cap);
    let word = size_of::<usize>();
    let align = p.ha.max(align_of::<usize>()).max(align_of::<u64>());
    let size = (p.hs + align - 1) / align * align;
    ensure_eq!(p.align, align, "{}: alignment of the array", name);
    ensure_eq!(p.size, size, "{}: size of the array", name);
    let cap = if p.es == 0 {
        usize::MAX
    } else if p.ea > align || p.hs < word {
        0
    } else {
        (p.hs - word) / p.es
    };
    ensure_eq!(p.cap, cap, "{}: CAPACITY", name);
    let refuse = p.hs < word || (p.es == 0 && p.ea > align);
    let by_default = src.flag(1, 2);
    let mk = p.mk;
    let made = catch(|| mk(by_default));
    let mut a = match made {
        Ok(a) => {
            ensure!(!refuse, "{}: construction must panic", name);
            a
        }
        Err(e) => {
            ensure!(refuse, "{}: construction panicked: {}", name, e);
            ctx.label("refused type pair");
            return Ok(());
        }
    };
    let pats = [0u8, 0xff, 1, 0x80];
    let pat = pats[src.int(4)];
    let vary = src.flag(1, 2);
    let byte = |i: usize| if vary { pat ^ (i as u8) } else { pat };
    let n = if cap > 1 << 32 { src.int(6) } else if src.exhaustive() { [cap, cap / 2, 0][src.int(3)] } else { src.upto(cap) };
    tr!(ctx, "push {} items of pattern {:#x}{}", n, pat, if vary { " varying" } else { "" });
    ctx.nontrivial = n > 0 && p.es > 0;
    ctx.label_if(n > 0 && n == cap, "filled to capacity");
    ctx.label_if(n > 0 && p.ea > word, "element alignment above a word");
    ctx.label_if(n > 0 && p.hs % word != 0, "host size not a multiple of a word");
    for i in 0..n {
        ensure_eq!(a.len(), i, "{}: len()", name);
        ensure!(!a.is_full(), "{}: full after {} of {}", name, i, cap);
        a.push(byte(i));
    }
    let trips = src.int(4);
    for t in 0..=trips {
        ensure_eq!(a.len(), n, "{}: len() after {} moves", name, t);
        ensure_eq!(a.is_full(), n == cap, "{}: is_full() with {} of {}", name, n, cap);
        let base = a.addr();
        ensure!(base % align == 0, "{}: the array itself is misaligned", name);
        for i in 0..n {
            let at = a.at(i);
            ensure!(at % p.ea == 0, "{}: item {} is misaligned", name, i);
            if p.es > 0 {
                ensure!(at >= base && at + p.es <= base + p.hs, "{}: item {} at offset {} lies outside the host's {} bytes", name, i, at as isize - base as isize, p.hs);
            }
            ensure!(a.holds(i, byte(i)), "{}: item {} was overwritten (move {})", name, i, t);
            if i > 0 {
                ensure!(at >= a.at(i - 1) + p.es, "{}: items {} and {} overlap", name, i - 1, i);
            }
        }
        if t < trips {
            a = if t % 2 == 0 {
                match a.option_trip() {
                    Some(a) => a,
                    None => {
                        ensure!(false, "{}: Some(array) was taken for None (or None for Some)", name);
                        unreachable!()
                    }
                }
            } else {
                let pad = src.int(3);
                a.moved(pad)
            };
        }
    }
    if n == cap {
        ensure!(catch(|| a.push(7)).is_err(), "{}: push over capacity completed", name);
        ensure_eq!(a.len(), n, "{}: len() after a refused push", name);
    }
    for i in (0..n).rev() {
        ensure_eq!(a.pop(byte(i)), Some(true), "{}: popping item {}", name, i);
    }
    ensure!(a.pop(0).is_none(), "{}: pop of an empty array", name);
    Ok(())
}
fn from(t: &[&[Pair]], src: &mut Src, ctx: &mut Ctx) -> Res {
    let row = t[src.int(t.len())];
    let p = &row[src.int(row.len())];
    src.shard_here()?;
    check(p, src, ctx)
}
fn plain(s: &mut Src, c: &mut Ctx) -> Res {
    from(PLAIN, s, c)
}
fn niche(s: &mut Src, c: &mut Ctx) -> Res {
    c.label("host with forbidden bit patterns");
    from(NICHE, s, c)
}
fn main() {
    harness::engine::main(&[
        Suite::exhaustive("all-pairs", 10_000_000, 10_000_000, plain),
        Suite::exhaustive("niche-hosts", 10_000_000, 10_000_000, niche),
        Suite::random("random-plain", 3_000_000, 9_000_000, plain),
        Suite::random("random-niche", 600_000, 1_800_000, niche),
    ])
}

//! Byte containers as pipes: `io::Write` at the back, `io::Read` at the front.
#![cfg(feature = "std")]

use crate::engine::{Ctx, Res, Src};
use crate::fault::catch;
use crate::{bad, ensure, ensure_eq, tr};
use sized_chunks::Chunk;
#[cfg(feature = "rb")]
use sized_chunks::RingBuffer;
use std::collections::VecDeque;
use std::io::{IoSlice, IoSliceMut, Read, Write};

pub trait Bytes: Read + Write + Extend<u8> {
    const NAME: &'static str;
    const CAP: usize;
    fn mk() -> Self;
    fn list(&self) -> Vec<u8>;
    fn count(&self) -> usize;
    fn full(&self) -> bool;
    fn push_back(&mut self, b: u8);
    fn push_front(&mut self, b: u8);
    fn pop_back(&mut self) -> Option<u8>;
    fn pop_front(&mut self) -> Option<u8>;
    fn insert(&mut self, i: usize, b: u8);
    fn remove(&mut self, i: usize) -> u8;
    fn drop_left(&mut self, n: usize);
    fn drop_right(&mut self, n: usize);
    fn split_off(&mut self, n: usize) -> Self;
    fn append(&mut self, o: &mut Self);
}
macro_rules! bytes {
    ($C:ident, $name:literal, $pop:expr) => {
        impl<const N: usize> Bytes for $C<u8, N> {
            const NAME: &'static str = $name;
            const CAP: usize = N;
            fn mk() -> Self {
                Self::new()
            }
            fn list(&self) -> Vec<u8> {
                self.iter().copied().collect()
            }
            fn count(&self) -> usize {
                #[allow(unused_imports)]
                #[cfg(feature = "rb")]
                use array_ops::HasLength;
                self.len()
            }
            fn full(&self) -> bool {
                self.is_full()
            }
            fn push_back(&mut self, b: u8) {
                $C::push_back(self, b)
            }
            fn push_front(&mut self, b: u8) {
                $C::push_front(self, b)
            }
            fn pop_back(&mut self) -> Option<u8> {
                $pop(self.count() > 0, &mut || $C::pop_back(self).into())
            }
            fn pop_front(&mut self) -> Option<u8> {
                $pop(self.count() > 0, &mut || $C::pop_front(self).into())
            }
            fn insert(&mut self, i: usize, b: u8) {
                $C::insert(self, i, b)
            }
            fn remove(&mut self, i: usize) -> u8 {
                $C::remove(self, i)
            }
            fn drop_left(&mut self, n: usize) {
                $C::drop_left(self, n)
            }
            fn drop_right(&mut self, n: usize) {
                $C::drop_right(self, n)
            }
            fn split_off(&mut self, n: usize) -> Self {
                $C::split_off(self, n)
            }
            fn append(&mut self, o: &mut Self) {
                $C::append(self, o)
            }
        }
    };
}
fn guarded(some: bool, f: &mut dyn FnMut() -> Option<u8>) -> Option<u8> {
    if some {
        f()
    } else {
        None
    }
}
bytes!(Chunk, "Chunk", guarded);
#[cfg(feature = "rb")]
bytes!(RingBuffer, "RingBuffer", guarded);

fn see<C: Bytes>(c: &C, m: &VecDeque<u8>, what: &str) -> Res {
    let got = c.list();
    ensure!(got.iter().eq(m.iter()) && c.count() == m.len() && c.full() == (m.len() == C::CAP), "{}: holds {:?} (len {}), expected {:?}", what, got, c.count(), m);
    Ok(())
}
fn ok<T>(r: Result<std::io::Result<T>, String>, what: &str) -> Result<T, crate::engine::Fail> {
    match r {
        Ok(Ok(n)) => Ok(n),
        Ok(Err(e)) => bad!("{} failed: {}", what, e),
        Err(e) => bad!("{} panicked: {}", what, e),
    }
}
fn write<C: Bytes>(c: &mut C, m: &mut VecDeque<u8>, buf: &[u8], ctx: &mut Ctx, what: &str) -> Res {
    let room = C::CAP - m.len();
    let n = ok(catch(|| c.write(buf)), what)?;
    ensure!(n == room.min(buf.len()), "{}: write of {} bytes into room for {} reported {}", what, buf.len(), room, n);
    m.extend(&buf[..n]);
    ctx.label_if(n < buf.len() && n > 0, "write cut short");
    ctx.label_if(n == 0 && !buf.is_empty(), "write into a full container");
    Ok(())
}
const PAD: u8 = 0xEE;
fn read<C: Bytes>(c: &mut C, m: &mut VecDeque<u8>, len: usize, ctx: &mut Ctx, what: &str) -> Res {
    let mut buf = vec![PAD; len];
    let have = m.len();
    let n = ok(catch(|| c.read(&mut buf)), what)?;
    ensure!(n == have.min(len), "{}: read into {} bytes with {} held reported {}", what, len, have, n);
    let want: Vec<u8> = m.drain(..n).collect();
    ensure!(buf[..n] == want[..], "{}: read {:?}, expected {:?}", what, &buf[..n], want);
    ensure!(buf[n..].iter().all(|b| *b == PAD), "{}: read changed the buffer past the {} bytes it reported", what, n);
    ctx.label_if(n < len && n > 0, "read cut short");
    ctx.label_if(have == 0 && len > 0, "read from an empty container");
    Ok(())
}

pub fn history<C: Bytes>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut c = C::mk();
    let mut m: VecDeque<u8> = VecDeque::new();
    let mut next = 1u8;
    let mut buf = |n: usize| -> Vec<u8> {
        (0..n)
            .map(|_| {
                next = next % 200 + 1;
                next
            })
            .collect()
    };
    tr!(ctx, "{}<u8, {}>", C::NAME, C::CAP);
    let mut done = 0;
    let (mut w, mut r) = (0, 0);
    while src.more(done, 120, 16) {
        done += 1;
        let room = C::CAP - m.len();
        let what;
        match src.weighted(&[14, 14, 2, 3, 2, 2, 2, 2, 1, 3, 2, 2, 2, 1, 1, 2, 1, 1, 1]) {
            0 => {
                let b = buf(src.upto(C::CAP + 3));
                what = format!("write {:?}", b);
                w += b.len().min(room);
                write(&mut c, &mut m, &b, ctx, &what)?;
            }
            1 => {
                let n = src.upto(C::CAP + 3);
                what = format!("read {} bytes", n);
                r += n.min(m.len());
                read(&mut c, &mut m, n, ctx, &what)?;
            }
            2 => {
                what = "flush".into();
                ok(catch(|| c.flush()), &what)?;
            }
            3 => {
                let b = buf(src.upto(room));
                what = format!("write_all {:?}", b);
                ok(catch(|| c.write_all(&b)), &what)?;
                m.extend(&b);
            }
            4 => {
                let b = buf(room + 1 + src.upto(3));
                what = format!("write_all of {} bytes into room for {}", b.len(), room);
                match catch(|| c.write_all(&b)) {
                    Ok(Err(_)) => {}
                    x => bad!("{}: {:?}", what, x),
                }
                // how much of it was taken is not promised
                let got = c.list();
                let k = got.len().saturating_sub(m.len());
                ensure!(k <= room, "{}: {} bytes appeared", what, k);
                m.extend(&b[..k]);
            }
            5 => {
                let n = src.upto(m.len());
                what = format!("read_exact {}", n);
                let mut b = vec![PAD; n];
                ok(catch(|| c.read_exact(&mut b)), &what)?;
                let want: Vec<u8> = m.drain(..n).collect();
                ensure!(b == want, "{}: got {:?}, expected {:?}", what, b, want);
            }
            6 => {
                what = "read_to_end".to_string();
                let mut b = vec![7];
                let n = ok(catch(|| c.read_to_end(&mut b)), &what)?;
                let want: Vec<u8> = std::iter::once(7).chain(m.drain(..)).collect();
                ensure!(b == want && n == want.len() - 1, "{}: got {:?} ({}), expected {:?}", what, b, n, want);
            }
            7 => {
                let b1 = buf(src.upto(room));
                let b2 = buf(src.upto(C::CAP));
                what = format!("write_vectored {:?} {:?}", b1, b2);
                let n = ok(catch(|| c.write_vectored(&[IoSlice::new(&b1), IoSlice::new(&b2)])), &what)?;
                // one or both buffers may be used
                let all: Vec<u8> = b1.iter().chain(&b2).copied().collect();
                ensure!(n <= room && n <= all.len() && (n > 0 || room == 0 || all.is_empty()), "{}: reported {}", what, n);
                m.extend(&all[..n]);
            }
            8 => {
                let (a, b) = (src.upto(m.len()), src.upto(C::CAP));
                what = format!("read_vectored {} {}", a, b);
                let (mut x, mut y) = (vec![PAD; a], vec![PAD; b]);
                let n = ok(catch(|| c.read_vectored(&mut [IoSliceMut::new(&mut x), IoSliceMut::new(&mut y)])), &what)?;
                ensure!(n <= m.len() && n <= a + b && (n > 0 || m.is_empty() || a + b == 0), "{}: reported {}", what, n);
                let want: Vec<u8> = m.drain(..n).collect();
                x.extend(y);
                ensure!(x[..n] == want[..] && x[n..].iter().all(|v| *v == PAD), "{}: got {:?}, expected {:?}", what, x, want);
            }
            9 if room > 0 => {
                let b = buf(1)[0];
                let front = src.flag(1, 2);
                what = format!("push {} {}", b, if front { "front" } else { "back" });
                if front {
                    c.push_front(b);
                    m.push_front(b);
                } else {
                    c.push_back(b);
                    m.push_back(b);
                }
            }
            10 => {
                what = "pop_front".into();
                ensure_eq!(c.pop_front(), m.pop_front(), "pop_front");
            }
            11 => {
                what = "pop_back".into();
                ensure_eq!(c.pop_back(), m.pop_back(), "pop_back");
            }
            12 if room > 0 => {
                let (i, b) = (src.upto(m.len()), buf(1)[0]);
                what = format!("insert {} at {}", b, i);
                c.insert(i, b);
                m.insert(i, b);
            }
            13 if !m.is_empty() => {
                let i = src.int(m.len());
                what = format!("remove {}", i);
                ensure_eq!(Some(c.remove(i)), m.remove(i), "remove");
            }
            14 => {
                let n = src.upto(m.len());
                what = format!("drop_left {}", n);
                c.drop_left(n);
                m.drain(..n);
            }
            15 => {
                let n = src.upto(m.len());
                what = format!("drop_right {}", n);
                c.drop_right(n);
                m.truncate(n);
            }
            16 => {
                let n = src.upto(m.len());
                what = format!("split_off {}, keep the other half, append the rest", n);
                let mut tail = c.split_off(n);
                let mut mt = m.split_off(n);
                tail.append(&mut c);
                mt.append(&mut m);
                c = tail;
                m = mt;
            }
            17 => {
                // through another pipe of the same kind
                what = "io::copy out and back".to_string();
                let mut other = C::mk();
                let n = ok(catch(|| std::io::copy(&mut c, &mut other)), &what)?;
                ensure!(n == m.len() as u64, "{}: {} bytes of {}", what, n, m.len());
                see(&c, &VecDeque::new(), &what)?;
                see(&other, &m, &what)?;
                c = other;
            }
            18 => {
                let b = buf(src.upto(room));
                what = format!("extend {:?}", b);
                c.extend(b.iter().copied());
                m.extend(&b);
            }
            _ => continue,
        }
        tr!(ctx, "{}", what);
        see(&c, &m, &what)?;
    }
    ctx.nontrivial = w > 1 && r > 1;
    ctx.label_if(w > C::CAP && r > C::CAP, "more bytes than the capacity passed through");
    Ok(())
}

/// Every fill and position, one write or read of every length, then read back.
pub fn every<C: Bytes>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = C::CAP;
    let len = src.upto(n);
    let off = src.upto(n.saturating_sub(1));
    src.shard_here()?;
    let mut c = C::mk();
    let mut m: VecDeque<u8> = VecDeque::new();
    for i in 0..off {
        c.push_back(i as u8);
    }
    for i in 0..len {
        if m.len() + off - i.min(off) >= n {
            break;
        }
        c.push_back(100 + i as u8);
        m.push_back(100 + i as u8);
        if i < off {
            c.pop_front();
        }
    }
    for _ in len.min(m.len())..off {
        c.pop_front();
    }
    let k = src.upto(n + 3);
    let writes = src.flag(1, 2);
    tr!(ctx, "{}<u8, {}>: {} bytes, {} pushed before, {} {}", C::NAME, n, m.len(), off, if writes { "write" } else { "read" }, k);
    see(&c, &m, "arranged")?;
    ctx.nontrivial = k > 0;
    if writes {
        let b: Vec<u8> = (0..k).map(|i| 200 + i as u8).collect();
        write(&mut c, &mut m, &b, ctx, "write")?;
    } else {
        read(&mut c, &mut m, k, ctx, "read")?;
    }
    see(&c, &m, "afterwards")?;
    let b: Vec<u8> = vec![1, 2, 3];
    write(&mut c, &mut m, &b, ctx, "second write")?;
    see(&c, &m, "after the second write")?;
    let all = m.len();
    read(&mut c, &mut m, all + 1, ctx, "read back")?;
    see(&c, &m, "read back")
}

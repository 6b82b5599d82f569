//! Chunks indexed by ranges of every kind.

use crate::elem::{Elem, KV, M};
use crate::engine::{Ctx, Res, Src};
use crate::fault::catch;
use crate::mk::*;
use crate::{ensure, ensure_eq, tr, with_cap};
use std::ops::{Bound, IndexMut};
use std::slice::SliceIndex;

fn all<E: Elem>(s: &[E]) -> Vec<M> {
    s.iter().map(|x| x.m()).collect()
}
/// Reads and writes through one range; `want` is the window, if there is one.
fn one<E: Elem, const N: usize, R>(m: &[M], off: usize, via: usize, r: R, want: Option<(usize, usize)>, what: &str) -> Res
where
    R: SliceIndex<[E], Output = [E]> + Clone,
{
    let mut c = chunk_at::<E, N>(m, off, via);
    let w = want.map(|(a, b)| m[a..b].to_vec());
    ensure_eq!(catch(|| all(&c[r.clone()])).ok(), w, "{}: reading", what);
    ensure_eq!(c.get(r.clone()).map(|s| all(s)), w, "{}: get", what);
    ensure_eq!(catch(|| all(c.index_mut(r.clone()))).ok(), w, "{}: index_mut", what);
    let mut after = m.to_vec();
    let wrote = catch(|| {
        for (i, x) in c[r.clone()].iter_mut().enumerate() {
            x.write(E::norm(M { key: 30 + i as u32, uid: 300 + i as u32 }))
        }
    });
    ensure_eq!(wrote.is_ok(), want.is_some(), "{}: writing", what);
    if let Some((a, b)) = want {
        for i in a..b {
            after[i] = E::norm(M { key: 30 + (i - a) as u32, uid: 300 + (i - a) as u32 });
        }
    }
    ensure!(all(&c) == after && c.len() == m.len(), "{}: after writing the chunk holds {:?}, expected {:?}", what, all(&c), after);
    Ok(())
}
fn case<E: Elem, const N: usize>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (len, off, via) = draw_chunk::<N>(src);
    src.shard_here()?;
    let m = items::<E>(len, &mut 0, |i| i as u32 % 20);
    let nums = [0, 1, len / 2, len.saturating_sub(1), len, len + 1, N, N + 1, usize::MAX - 1, usize::MAX];
    let a = if src.exhaustive() { src.int(N + 2) } else { nums[src.int(nums.len())] };
    let b = if src.exhaustive() { src.int(N + 2) } else { nums[src.int(nums.len())] };
    let far = src.flag(1, 8);
    let a = if far && src.exhaustive() { usize::MAX - a } else { a };
    let kind = src.int(7);
    let what = format!("Chunk<{}, {}> of {} items from slot {}, range {} of {} and {}", E::NAME, N, len, off, kind, a, b);
    tr!(ctx, "{}", what);
    let ok = |x: usize, y: usize| if x <= y && y <= len { Some((x, y)) } else { None };
    let up = |y: usize| y.checked_add(1);
    let want = match kind {
        0 | 6 => ok(a, b),
        1 => ok(a, len),
        2 => ok(0, b),
        3 => up(b).and_then(|b| ok(a, b)),
        4 => up(b).and_then(|b| ok(0, b)),
        _ => Some((0, len)),
    };
    ctx.nontrivial = want.map_or(len > 0, |(x, y)| y > x && (x > 0 || y < len || off > 0));
    ctx.label_if(want.is_none(), "refused");
    ctx.label_if(off > 0 && len > 0, "contents not at the storage start");
    match kind {
        0 => one::<E, N, _>(&m, off, via, a..b, want, &what),
        1 => one::<E, N, _>(&m, off, via, a.., want, &what),
        2 => one::<E, N, _>(&m, off, via, ..b, want, &what),
        3 => one::<E, N, _>(&m, off, via, a..=b, want, &what),
        4 => one::<E, N, _>(&m, off, via, ..=b, want, &what),
        5 => one::<E, N, _>(&m, off, via, .., want, &what),
        _ => one::<E, N, _>(&m, off, via, (Bound::Included(a), Bound::Excluded(b)), want, &what),
    }
}
pub fn every(src: &mut Src, ctx: &mut Ctx) -> Res {
    let caps: &[usize] = if ctx.thorough { &[0, 1, 2, 3, 4, 5, 6, 7, 8] } else { &[0, 1, 2, 3, 4, 5, 6] };
    let cap = *src.pick(caps);
    with_cap!(cap, [0, 1, 2, 3, 4, 5, 6, 7, 8], case, [KV], (src, ctx))
}
pub fn some(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cap = *src.pick(&[8usize, 16, 33, 64, 300]);
    with_cap!(cap, [8, 16, 33, 64, 300], case, [KV], (src, ctx))
}

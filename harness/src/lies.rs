//! Every small combination of what an iterator claims and what it holds.

use crate::elem::{Elem, Tk, M};
use crate::engine::{Ctx, Res, Src};
use crate::fault;
use crate::feed::{Claim, Feed};
use crate::seq::*;
use crate::seqworld::*;
use crate::{bad, tr};

fn case(src: &mut Src, ctx: &mut Ctx, kind: SeqKind, mk: fn(usize) -> BoxSeq<Tk>) -> Res {
    let caps: &[usize] = if ctx.thorough { &[0, 1, 2, 3, 4, 5] } else { &[0, 1, 2, 3, 4] };
    let cap = *src.pick(caps);
    let cfg = Cfg { kind, wild: 0, fuse: 0, lies: 0, oracle: Oracle::Loose, weights: W_FEED, keys: 8, max_ops: 1, avg_ops: 1, sorted: false, slots: 2 };
    let mut w = World::<Tk>::new(cfg, cap, mk);
    tr!(ctx, "{:?}<Tracked, {}>", kind, cap);
    w.arrange(src, 0, ctx)?;
    src.shard_here()?;
    let len = w.slots[0].m.len();
    let room = cap - len;
    let at = src.int(len + 1);
    let holds = src.int(room + 3);
    let items: Vec<M> = (0..holds as u32).map(|i| Tk::norm(M { key: i % 8, uid: 5000 + i })).collect();
    // what len() and size_hint() answer, first and from then on
    let claims = [0, 1, room, room + 1, holds, holds + 1, cap + 1, usize::MAX, usize::MAX - len, usize::MAX - cap.saturating_sub(1), isize::MAX as usize];
    let first = claims[src.int(claims.len())];
    let then = claims[src.int(claims.len())];
    let feed = Feed { items, claim: Claim::Lies(vec![first, then]) };
    let op = match src.int(3) {
        0 => Op::InsertFrom(0, at, feed),
        1 => Op::Extend(0, feed),
        _ => Op::FromIter(1, feed),
    };
    ctx.nontrivial = true;
    ctx.label_if(first != holds, "claims another length");
    ctx.label_if(holds > room, "holds more than the room");
    w.apply(op, None, ctx)?;
    // still usable: fill it up and empty it again
    let m = w.slots[0].m.clone();
    if m.len() < cap {
        w.apply(Op::PushFront(0, Tk::norm(M { key: 1, uid: 9000 })), None, ctx)?;
    }
    if !w.slots[0].m.is_empty() {
        w.apply(Op::Remove(0, w.slots[0].m.len() / 2), None, ctx)?;
    }
    w.apply(Op::Drain(0, vec![false; cap + 1]), None, ctx)?;
    if !w.slots[0].m.is_empty() {
        bad!("a full drain left {:?}", w.slots[0].m)
    }
    if let Some(e) = fault::errors() {
        bad!("{}", e)
    }
    w.finish(false)
}
pub fn chunk(src: &mut Src, ctx: &mut Ctx) -> Res {
    case(src, ctx, SeqKind::Chunk, chunk_small::<Tk>)
}
#[cfg(feature = "rb")]
pub fn ring(src: &mut Src, ctx: &mut Ctx) -> Res {
    case(src, ctx, SeqKind::Ring, ring_small::<Tk>)
}

//! C04: InlineArray behaves as a bounded vector.
use harness::elem::*;
use harness::engine::*;
use harness::inlineworld::*;

fn hist<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    history::<E>(s, c, InCfg::model(), HOSTS, in_all::<E>)
}
fn large<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    history::<E>(s, c, InCfg { keys: 251, avg_ops: 8, ..InCfg::model() }, LARGE_HOSTS, in_large::<E>)
}
fn larger(s: &mut Src, c: &mut Ctx) -> Res {
    history::<u8>(s, c, InCfg { keys: 251, avg_ops: 5, max_ops: 40, ..InCfg::model() }, 4, in_larger)
}
fn ex1<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    small_scope::<E>(s, c, InCfg::model(), &[0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 13, 15, 16, 17, 18], in_all::<E>, 1)
}
fn ex2<E: Elem>(s: &mut Src, c: &mut Ctx) -> Res {
    small_scope::<E>(s, c, InCfg::model(), &[1, 2, 3, 4], in_all::<E>, 2)
}
fn main() {
    harness::engine::main(&[
        Suite::exhaustive("one-op-kv", 10_000_000, 100_000_000, ex1::<KV>),
        Suite::exhaustive("one-op-u8", 10_000_000, 100_000_000, ex1::<u8>),
        Suite::exhaustive("one-op-al32", 10_000_000, 100_000_000, ex1::<Al32>),
        Suite::exhaustive("two-ops-kv", 10_000_000, 100_000_000, ex2::<KV>),
        Suite::random("hist-kv", 600_000, 1_800_000, hist::<KV>),
        Suite::random("hist-u8", 400_000, 1_200_000, hist::<u8>),
        Suite::random("hist-u16", 400_000, 1_200_000, hist::<u16>),
        Suite::random("hist-tracked", 400_000, 1_200_000, hist::<Tk>),
        Suite::random("hist-big", 200_000, 600_000, hist::<Big>),
        Suite::random("hist-box", 200_000, 600_000, hist::<Bx>),
        Suite::random("hist-al16", 200_000, 600_000, hist::<Al16>),
        Suite::random("hist-al32", 200_000, 600_000, hist::<Al32>),
        Suite::random("hist-al64", 200_000, 600_000, hist::<Al64>),
        Suite::random("hist-pad", 200_000, 600_000, hist::<Pad>),
        Suite::random("hist-zst", 200_000, 600_000, hist::<Zd>),
        Suite::random("hist-large-kv", 200_000, 600_000, large::<KV>),
        Suite::random("hist-large-u8", 100_000, 300_000, large::<u8>),
        Suite::random("hist-larger", 6_000, 18_000, larger),
    ])
}

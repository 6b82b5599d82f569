//! C20: storage is fixed-size and inside the container.
use harness::engine::*;
use harness::place::*;

#[global_allocator]
static ALLOC: Counting = Counting;

fn chunks(s: &mut Src, c: &mut Ctx) -> Res {
    chunk(Judge::Inside, s, c)
}
fn rings(s: &mut Src, c: &mut Ctx) -> Res {
    ring(Judge::Inside, s, c)
}
fn sparses(s: &mut Src, c: &mut Ctx) -> Res {
    sparse(Judge::Inside, s, c)
}
fn inlines(s: &mut Src, c: &mut Ctx) -> Res {
    inline(Judge::Inside, s, c)
}

fn main() {
    harness::engine::main(&[
        Suite::random("chunk", 900_000, 9_000_000, chunks),
        Suite::random("ring", 900_000, 9_000_000, rings),
        Suite::random("sparse", 600_000, 6_000_000, sparses),
        Suite::random("inline", 600_000, 6_000_000, inlines),
    ])
}

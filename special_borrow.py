"""C24: generated programs that compile if and only if an ownership model says so."""
import concurrent.futures as cf
import json
import os
import random
import subprocess
import sys
import time

check = sys.modules.get("__main__") if hasattr(sys.modules.get("__main__"), "Session") else __import__("check")

PRELUDE = """#![allow(warnings)]
use sized_chunks::{Chunk, RingBuffer, SparseChunk, InlineArray};
use sized_chunks::ring_buffer::{Array, ArrayMut, HasLength};
use std::marker::PhantomData;
fn touch<X: ?Sized>(_: &X) {}
fn poke<X: ?Sized>(_: &mut X) {}
fn consume<X>(_: X) {}
struct Keep<'k>(PhantomData<fn(&'k ()) -> &'k ()>);
impl<'k> Keep<'k> { fn keep<X: 'k>(&self, _: X) {} }
struct Noisy<'n>(&'n String);
impl<'n> Drop for Noisy<'n> { fn drop(&mut self) { touch(self.0) } }
"""

TYPES = {
    "chunk": "Chunk<%s, 8>",
    "ring": "RingBuffer<%s, 8>",
    "sparse": "SparseChunk<%s, 8>",
    "inline": "InlineArray<%s, [u64; 20]>",
}
# how to get a view out of a container: expression, kind of view, exclusive?
# kinds: item (reference to one item), opt (Option of it), iter, prim (plain
# slice), window (ring buffer slice), drain (yields items by value)
OUT = {
    "chunk": [
        ("C.iter()", "iter", 0), ("C.as_slice()", "prim", 0), ("C.get(0)", "opt", 0), ("&C[0]", "item", 0), ("C.first()", "opt", 0),
        ("(&*C).into_iter()", "iter", 0), ("AsRef::<[String]>::as_ref(&*C)", "prim", 0), ("std::borrow::Borrow::<[String]>::borrow(&*C)", "prim", 0),
        ("&C[..]", "prim", 0), ("&**C", "prim", 0),
        ("C.iter_mut()", "iter", 1), ("C.as_mut_slice()", "prim", 1), ("C.get_mut(0)", "opt", 1), ("&mut C[0]", "item", 1), ("C.last_mut()", "opt", 1),
        ("(&mut *C).into_iter()", "iter", 1), ("AsMut::<[String]>::as_mut(&mut *C)", "prim", 1),
        ("std::borrow::BorrowMut::<[String]>::borrow_mut(&mut *C)", "prim", 1), ("&mut **C", "prim", 1), ("C.drain()", "drain", 1),
    ],
    "ring": [
        ("C.iter()", "iter", 0), ("Array::get(&*C, 0)", "opt", 0), ("&C[0]", "item", 0), ("C.first()", "opt", 0), ("C.last()", "opt", 0),
        ("(&*C).into_iter()", "iter", 0), ("C.slice(..)", "window", 0), ("C.slice(1..3)", "window", 0), ("sized_chunks::ring_buffer::Slice::from(&*C)", "window", 0),
        ("C.iter_mut()", "iter", 1), ("ArrayMut::get_mut(&mut *C, 0)", "opt", 1), ("&mut C[0]", "item", 1), ("C.first_mut()", "opt", 1), ("C.last_mut()", "opt", 1),
        ("(&mut *C).into_iter()", "iter", 1), ("C.slice_mut(..)", "window", 1), ("C.slice_mut(1..3)", "window", 1),
        ("sized_chunks::ring_buffer::SliceMut::from(&mut *C)", "window", 1), ("C.drain()", "drain", 1),
    ],
    "sparse": [
        ("C.iter()", "iter", 0), ("C.get(0)", "opt", 0), ("&C[0]", "item", 0), ("C.entries()", "entries", 0), ("C.option_iter()", "optiter", 0),
        ("C.indices()", "indices", 0),
        ("C.iter_mut()", "iter", 1), ("C.get_mut(0)", "opt", 1), ("&mut C[0]", "item", 1), ("C.option_iter_mut()", "optiter", 1),
    ],
    "inline": [
        ("C.iter()", "iter", 0), ("C.get(0)", "opt", 0), ("&C[0]", "item", 0), ("C.first()", "opt", 0),
        ("(&*C).into_iter()", "iter", 0), ("AsRef::<[String]>::as_ref(&*C)", "prim", 0), ("std::borrow::Borrow::<[String]>::borrow(&*C)", "prim", 0),
        ("&C[..]", "prim", 0), ("&**C", "prim", 0),
        ("C.iter_mut()", "iter", 1), ("C.get_mut(0)", "opt", 1), ("&mut C[0]", "item", 1), ("C.last_mut()", "opt", 1), ("(&mut *C).into_iter()", "iter", 1),
        ("AsMut::<[String]>::as_mut(&mut *C)", "prim", 1), ("&mut **C", "prim", 1), ("C.drain()", "drain", 1),
    ],
}
READS = {
    "chunk": ["touch(&*C)", "touch(&C.len())", "touch(&C.clone())", "touch(&(*C == *C))"],
    "ring": ["touch(&*C)", "touch(&C.len())", "touch(&C.clone())", "touch(&(*C == *C))"],
    "sparse": ["touch(&*C)", "touch(&C.len())", "touch(&C.clone())", "touch(&(*C == *C))", "touch(&C.first_index())"],
    "inline": ["touch(&*C)", "touch(&C.len())", "touch(&C.clone())", "touch(&(*C == *C))"],
}
WRITES = {
    "chunk": ["C.clear()", "C.push_back(String::new())", "C.push_front(String::new())", "touch(&C.pop_back())", "C.insert(0, String::new())",
              "touch(&C.remove(0))", "touch(&C.set(0, String::new()))", "C.drop_left(1)", "touch(&C.split_off(1))", "touch(&Chunk::from_front(&mut *C, 1))",
              "C.append(&mut Chunk::new())", "C.extend(vec![String::new()])", "C.insert_from(0, vec![String::new()])", "poke(&mut *C)", "*C = Chunk::new()",
              "C.drain_from_back(&mut Chunk::new(), 0)", "Chunk::new().drain_from_front(&mut *C, 1)", "C.insert_ordered(String::new())", "C.sort()"],
    "ring": ["C.clear()", "C.push_back(String::new())", "C.push_front(String::new())", "touch(&C.pop_back())", "C.insert(0, String::new())",
             "touch(&C.remove(0))", "touch(&ArrayMut::set(&mut *C, 0, String::new()))", "C.drop_left(1)", "touch(&C.split_off(1))",
             "touch(&RingBuffer::from_front(&mut *C, 1))", "C.append(&mut RingBuffer::new())", "C.extend(vec![String::new()])",
             "C.insert_from(0, vec![String::new()])", "poke(&mut *C)", "*C = RingBuffer::new()", "C.drain_from_back(&mut RingBuffer::new(), 0)",
             "RingBuffer::new().drain_from_front(&mut *C, 1)", "C.insert_ordered(String::new())"],
    "sparse": ["touch(&C.insert(0, String::new()))", "touch(&C.remove(0))", "touch(&C.pop())", "poke(&mut *C)", "*C = SparseChunk::new()"],
    "inline": ["C.clear()", "C.push(String::new())", "touch(&C.pop())", "C.insert(0, String::new())", "touch(&C.remove(0))", "touch(&C.split_off(1))",
               "C.extend(vec![String::new()])", "poke(&mut *C)", "*C = InlineArray::new()", "touch(&Chunk::<String, 8>::from(&mut *C))", "C.reverse()"],
}
MOVES = {
    "chunk": ["consume(C)", "consume(C.into_iter())"],
    "ring": ["consume(C)", "consume(C.into_iter())"],
    "sparse": ["consume(C)", "consume(C.into_iter())", "consume(C.drain())", "consume(C.option_drain())"],
    "inline": ["consume(C)", "consume(C.into_iter())", "consume(Chunk::<String, 8>::from(C))"],
}
# view -> view: (expression, kinds of the results, exclusive results?, how the
# view is accessed: read / write / move, does the result borrow the view?)
STEP = {
    ("item", 0): [], ("item", 1): [], ("opt", 0): [("V.unwrap()", ["item"], [0], "move", 0)], ("opt", 1): [("V.unwrap()", ["item"], [1], "move", 0)],
    ("iter", 0): [("V.next()", ["opt"], [0], "write", 0), ("V.next_back()", ["opt"], [0], "write", 0), ("V.clone()", ["iter"], [0], "read", 0)],
    ("iter", 1): [("V.next()", ["opt"], [1], "write", 0), ("V.next_back()", ["opt"], [1], "write", 0)],
    ("entries", 0): [("V.next().map(|x| x.1)", ["opt"], [0], "write", 0)],
    ("indices", 0): [],
    ("optiter", 0): [("V.next().unwrap()", ["opt"], [0], "write", 0)],
    ("optiter", 1): [("V.next().unwrap()", ["opt"], [1], "write", 0)],
    ("prim", 0): [("V.first()", ["opt"], [0], "read", 0)],
    ("prim", 1): [("V.split_at_mut(1)", ["prim", "prim"], [1, 1], "move", 0)],
    ("drain", 1): [],
    ("window", 0): [
        ("Array::get(&V, 0)", ["opt"], [0], "read", 1), ("&V[0]", ["item"], [0], "read", 1), ("V.iter()", ["iter"], [0], "read", 1),
        ("V.first()", ["opt"], [0], "read", 1), ("V.clone()", ["window"], [0], "read", 0), ("V.slice(..)", ["window"], [0], "move", 0),
        ("V.split_at(1)", ["window", "window"], [0, 0], "move", 0), ("(&V).into_iter()", ["iter"], [0], "read", 1),
    ],
    ("window", 1): [
        ("Array::get(&V, 0)", ["opt"], [0], "read", 1), ("&V[0]", ["item"], [0], "read", 1), ("V.iter()", ["iter"], [0], "read", 1),
        ("V.last()", ["opt"], [0], "read", 1),
        ("ArrayMut::get_mut(&mut V, 0)", ["opt"], [1], "write", 1), ("&mut V[0]", ["item"], [1], "write", 1), ("V.iter_mut()", ["iter"], [1], "write", 1),
        ("V.first_mut()", ["opt"], [1], "write", 1), ("V.slice(..)", ["window"], [1], "move", 0), ("V.split_at(1)", ["window", "window"], [1, 1], "move", 0),
        ("V.unmut()", ["window"], [0], "move", 0),
    ],
}
CLONABLE_ITERS = {"chunk", "inline"}


# -- programs ---------------------------------------------------------------
# A program: container, flavour (own: a local, ref: &'k mut), statements:
#   ["out", i]           views.append(OUT[i] of the container)
#   ["step", v, i]       views made from view v
#   ["use", v], ["poke", v], ["drop", v], ["keep", v]
#   ["read", i], ["write", i], ["move", i]
class View:
    def __init__(self, kind, excl, loans):
        self.kind, self.excl, self.loans, self.gone = kind, excl, loans, False


def play(prog):
    """Run the ownership model. (valid?, verdict, source lines, interesting?)

    verdict: "reject", "accept" or None (today's signatures refuse it, though a
    sound signature could accept it)."""
    kind, flavour = prog["container"], prog["flavour"]
    C = "c"
    views = []
    loans = []       # [place, exclusive, hard, expired?]: place -1 is the container
    events = []      # per statement: (accesses [(place, mode, hard)], used views)
    text = []
    moved = False

    def chain(v):
        return views[v].loans

    for st in prog["stmts"]:
        op = st[0]
        acc, used, new = [], [], []
        if op == "out":
            table = OUT[kind]
            expr, k, ex = table[st[1] % len(table)]
            if moved:
                return None
            acc.append((-1, "write" if ex else "read", True))
            # (a listing of the indices could as well be a copy)
            loans.append((-1, ex, k != "indices"))
            new = [(k, ex, [len(loans) - 1])]
            line = expr
        elif op == "step":
            v = st[1]
            if v >= len(views) or views[v].gone:
                return None
            table = STEP[views[v].kind, views[v].excl]
            if not table:
                return None
            expr, ks, exs, mode, borrows = table[st[2] % len(table)]
            if expr == "V.clone()" and views[v].kind == "iter" and kind not in CLONABLE_ITERS:
                return None
            if expr == "V.next_back()" and kind == "sparse":
                return None
            used.append(v)
            inherit = list(chain(v))
            if borrows:
                # a shared window may be left behind; an exclusive one must not be used through another way
                loans.append((v, mode == "write", views[v].excl))
                inherit.append(len(loans) - 1)
            # a move of a window is harmless in itself, unless the result can write
            acc.append((v, mode, mode != "move" or any(exs)))
            new = [(k, e, inherit) for k, e in zip(ks, exs)]
            if mode == "move":
                views[v].gone = True
            line = expr.replace("V", "v%d" % v)
        elif op in ("use", "poke", "drop", "keep"):
            v = st[1]
            if v >= len(views) or views[v].gone:
                return None
            used.append(v)
            if op == "use":
                acc.append((v, "read", True))
                line = "touch(&v%d)" % v
            elif op == "poke":
                acc.append((v, "write", True))
                line = "poke(&mut v%d)" % v
            else:
                acc.append((v, "move", False))
                views[v].gone = True
                line = ("consume(v%d)" if op == "drop" else "k.keep(v%d)") % v
        else:
            table = {"read": READS, "write": WRITES, "move": MOVES}[op][kind]
            if moved or (op == "move" and flavour != "own"):
                return None
            acc.append((-1, op, True))
            moved = op == "move"
            line = table[st[1] % len(table)]
        events.append((acc, used, op, [v for v in range(len(views), len(views) + len(new))]))
        names = ["mut v%d" % (len(views) + i) for i in range(len(new))]
        for k, e, l in new:
            views.append(View(k, e, l))
        if not new:
            text.append("    %s;" % line)
        elif len(new) == 1:
            text.append("    let %s = %s;" % (names[0], line))
        else:
            text.append("    let (%s) = %s;" % (", ".join(names), line))
    # last use of every view
    last = {}
    for i, (_, used, op, born) in enumerate(events):
        for v in used:
            last[v] = i
    live_until = [-1] * len(loans)
    for v, view in enumerate(views):
        for l in view.loans:
            live_until[l] = max(live_until[l], last.get(v, -1))
    born_at = {}
    for i, (_, _, _, born) in enumerate(events):
        for v in born:
            for l in views[v].loans:
                born_at.setdefault(l, i)
    hard = soft = False
    tested = False
    for i, (acc, used, op, born) in enumerate(events):
        for place, mode, h in acc:
            for l, (lp, lex, lhard) in enumerate(loans):
                if lp != place or born_at.get(l, i) >= i:
                    continue
                tested = True
                if live_until[l] <= i:
                    continue
                if mode == "read" and not lex:
                    continue
                if h and lhard:
                    hard = True
                else:
                    soft = True
        if op == "keep":
            tested = True
            v = used[0]
            for l in views[v].loans:
                lp, lex, lhard = loans[l]
                if lp == -1:
                    if flavour == "own":
                        hard, soft = hard or lhard, soft or not lhard
                    else:
                        # borrowed for as long as the caller's reference: any later use of the container conflicts
                        for a2, _, _, _ in events[i + 1:]:
                            for place, mode, h in a2:
                                if place == -1 and (mode != "read" or lex):
                                    hard, soft = hard or lhard, soft or not lhard
                else:
                    soft = True
            # the same for everything which happens between the loan and the keeping: covered above
    # every view ends by its last use at the latest: no destructor runs later
    out = []
    ends = {}
    end = [last.get(v, next(i for i, e in enumerate(events) if v in e[3])) for v in range(len(views))]
    for v in reversed(range(len(views))):
        # (views are numbered in the order they are made: borrowers come later)
        for l, (lp, _, _) in enumerate(loans):
            if lp == v:
                end[v] = max([end[v]] + [end[w] for w in range(v + 1, len(views)) if l in views[w].loans])
    for v in range(len(views)):
        if not views[v].gone:
            ends.setdefault(end[v], []).append(v)
    for i, t in enumerate(text):
        out.append(t)
        for v in reversed(ends.get(i, [])):
            out.append("    consume(v%d);" % v)
    verdict = "reject" if hard else (None if soft else "accept")
    return verdict, out, tested


def render(prog, name):
    verdict, lines, tested = play(prog)
    t = TYPES[prog["container"]] % "String"
    if prog["flavour"] == "own":
        # the container under a mutable binding; `C` in the tables is the place
        head = "fn %s<'k>(k: &Keep<'k>, mut c: %s) {" % (name, t)
        fix = lambda s: sub(s, own=True)
    else:
        head = "fn %s<'k>(k: &Keep<'k>, c: &'k mut %s) {" % (name, t)
        fix = lambda s: sub(s, own=False)
    return verdict, tested, [head] + [fix(l) for l in lines] + ["}"]


def sub(s, own):
    import re
    # `*C` means the container itself in both flavours
    if own:
        s = re.sub(r"\*\*C\b", "*c", s)
        s = re.sub(r"(?<![\w*])\*C\b", "c", s)
    else:
        s = re.sub(r"\*\*C\b", "**c", s)
        s = re.sub(r"(?<![\w*])\*C\b", "*c", s)
    return re.sub(r"\bC\b", "c", s)


def generate(rng):
    kind = rng.choice(list(TYPES))
    flavour = "own" if rng.random() < 0.7 else "ref"
    prog = {"container": kind, "flavour": flavour, "stmts": []}
    n = rng.randint(2, 9)
    for _ in range(n * 3):
        if len(prog["stmts"]) >= n:
            break
        nv = count_views(prog)
        r = rng.random()
        if nv == 0 or r < 0.16:
            st = ["out", rng.randrange(1000)]
        elif r < 0.46:
            st = ["step", max(rng.randrange(nv), rng.randrange(nv)), rng.randrange(1000)]
        elif r < 0.62:
            st = [rng.choice(["use", "use", "poke", "drop"]), rng.randrange(nv)]
        elif r < 0.66:
            st = ["keep", rng.randrange(nv)]
        elif r < 0.76:
            st = ["read", rng.randrange(1000)]
        elif r < 0.86:
            st = ["write", rng.randrange(1000)]
        elif r < 0.89:
            st = ["move", rng.randrange(1000)]
        else:
            st = ["use", rng.randrange(nv)]
        prog["stmts"].append(st)
        p = play(prog)
        if p is None:
            prog["stmts"].pop()
        elif p[0] is None and rng.random() < 0.8:
            prog["stmts"].pop()
        elif p[0] == "reject" and rng.random() < 0.45:
            # mostly keep programs acceptable until late, so that conflicts are few
            prog["stmts"].pop()
    return prog


def count_views(prog):
    n = 0
    kinds = []
    for st in prog["stmts"]:
        if st[0] == "out":
            e = OUT[prog["container"]][st[1] % len(OUT[prog["container"]])]
            kinds.append((e[1], e[2]))
        elif st[0] == "step":
            e = STEP[kinds[st[1]]][st[2] % len(STEP[kinds[st[1]]])]
            kinds += list(zip(e[1], e[2]))
    return len(kinds)


# -- tables: markers, variance, destructors, unsafety --------------------------
def tables():
    """(stage, verdict, label, source) for everything that is one line of facts."""
    out = []
    elems = {"String": (1, 1), "std::rc::Rc<u8>": (0, 0), "std::cell::Cell<u8>": (1, 0), "std::sync::MutexGuard<'static, u8>": (0, 1),
             "*mut u8": (0, 0), "std::sync::Arc<u8>": (1, 1), "std::cell::RefCell<String>": (1, 0), "std::sync::Arc<std::cell::Cell<u8>>": (0, 0)}
    owned = ["Chunk<E, 4>", "RingBuffer<E, 4>", "SparseChunk<E, 4>", "InlineArray<E, [u64; 8]>", "sized_chunks::sized_chunk::Iter<E, 4>",
             "sized_chunks::ring_buffer::OwnedIter<E, 4>", "sized_chunks::sparse_chunk::Drain<E, 4>", "sized_chunks::sparse_chunk::OptionDrain<E, 4>",
             "sized_chunks::inline_array::Iter<E, [u64; 8]>"]
    shared = ["sized_chunks::ring_buffer::Iter<'static, E, 4>", "sized_chunks::ring_buffer::Slice<'static, E, 4>",
              "sized_chunks::sparse_chunk::Iter<'static, E, 4>", "sized_chunks::sparse_chunk::OptionIter<'static, E, 4>"]
    excl = ["sized_chunks::ring_buffer::IterMut<'static, E, 4>", "sized_chunks::ring_buffer::SliceMut<'static, E, 4>",
            "sized_chunks::sparse_chunk::IterMut<'static, E, 4>", "sized_chunks::sparse_chunk::OptionIterMut<'static, E, 4>",
            "sized_chunks::sized_chunk::Drain<'static, E, 4>", "sized_chunks::ring_buffer::Drain<'static, E, 4>",
            "sized_chunks::inline_array::Drain<'static, E, [u64; 8]>"]
    import re
    for e, (send, sync) in elems.items():
        for group, types in (("owned", owned), ("shared", shared), ("exclusive", excl)):
            for t in types:
                ty = re.sub(r"\bE\b", lambda m: e, t)
                may_send = send if group != "shared" else sync
                for trait, may in (("Send", may_send), ("Sync", sync)):
                    must = may and group == "owned" and "::" not in t.split("<")[0]
                    if may and not must:
                        continue
                    out.append(("types", "accept" if must else "reject", "thread markers", "fn NAME() { fn is<X: %s>() {} is::<%s>(); }" % (trait, ty)))
    # what owns or borrows exclusively cannot be duplicated unless its items can
    for t in owned + excl:
        for trait in ("Clone", "Copy"):
            out.append(("types", "reject", "duplication", "fn NAME() { struct Only; fn is<X: %s>() {} is::<%s>(); }" % (trait, re.sub(r"\bE\b", "Only", t))))
        out.append(("types", "reject", "duplication", "fn NAME() { fn is<X: Copy>() {} is::<%s>(); }" % re.sub(r"\bE\b", "u8", t)))
    for t in excl:
        out.append(("types", "reject", "duplication", "fn NAME() { fn is<X: Clone>() {} is::<%s>(); }" % re.sub(r"\bE\b", "u8", t)))
    # variance
    long, short = "&'static str", "&'s str"
    for t in [x for x in excl if "Drain" not in x]:
        f = "fn NAME<'l, 's: 'l>(x: %s) -> %s { x }" % (re.sub(r"\bE\b", long, t.replace("'static", "'l", 1)), re.sub(r"\bE\b", short, t.replace("'static", "'l", 1)))
        out.append(("borrow", "reject", "variance", f))
    for t in owned[:4] + shared:
        f = "fn NAME<'l, 's: 'l>(x: %s) -> %s { x }" % (re.sub(r"\bE\b", long, t.replace("'static", "'l", 1)), re.sub(r"\bE\b", short, t.replace("'static", "'l", 1)))
        out.append(("borrow", "accept", "variance", f))
        f = "fn NAME<'l, 's: 'l>(x: %s) -> %s { x }" % (re.sub(r"\bE\b", short, t.replace("'static", "'l", 1)), re.sub(r"\bE\b", long, t.replace("'static", "'l", 1)))
        out.append(("borrow", "reject", "variance", f))
    # a view lasts no longer than what it was taken from
    for t in shared + [x for x in excl]:
        f = "fn NAME<'l, 's: 'l>(x: %s) -> %s { x }" % (re.sub(r"\bE\b", "String", t.replace("'static", "'l", 1)), re.sub(r"\bE\b", "String", t))
        out.append(("borrow", "reject", "variance", f))
    # items whose destructor looks at borrowed data
    put = {"chunk": "c.push_back(Noisy(&s))", "ring": "c.push_back(Noisy(&s))", "sparse": "c.insert(0, Noisy(&s))", "inline": "c.push(Noisy(&s))"}
    new = {"chunk": "Chunk::<Noisy<'_>, 4>::new()", "ring": "RingBuffer::<Noisy<'_>, 4>::new()", "sparse": "SparseChunk::<Noisy<'_>, 4>::new()",
           "inline": "InlineArray::<Noisy<'_>, [u64; 8]>::new()"}
    into = {"chunk": ["c.into_iter()"], "ring": ["c.into_iter()"], "sparse": ["c.into_iter()", "c.drain()", "c.option_drain()"], "inline": ["c.into_iter()"]}
    for k in TYPES:
        out.append(("borrow", "reject", "destructors", "fn NAME() { let mut c = %s; let s = String::new(); touch(&%s); }" % (new[k], put[k])))
        out.append(("borrow", "accept", "destructors", "fn NAME() { let s = String::new(); let mut c = %s; touch(&%s); }" % (new[k], put[k])))
        for i in into[k]:
            out.append(("borrow", "reject", "destructors", "fn NAME() { let it; let s = String::new(); let mut c = %s; touch(&%s); it = %s; }" % (new[k], put[k], i)))
            out.append(("borrow", "accept", "destructors", "fn NAME() { let s = String::new(); let it; let mut c = %s; touch(&%s); it = %s; }" % (new[k], put[k], i)))
    # unchecked access stays unsafe
    for t, args in (("RingBuffer<u8, 4>", ""), ("SparseChunk<u8, 4>", "")):
        out.append(("unsafe", "reject", "unsafety", "fn NAME(c: &%s) { c.get_unchecked(0); }" % t))
        out.append(("unsafe", "reject", "unsafety", "fn NAME(c: &mut %s) { c.get_unchecked_mut(0); }" % t))
        out.append(("unsafe", "accept", "unsafety", "fn NAME(c: &mut %s) { unsafe { c.get_unchecked(0); c.get_unchecked_mut(0); } }" % t))
    for t in ("Slice", "SliceMut"):
        ty = "sized_chunks::ring_buffer::%s<'_, u8, 4>" % t
        out.append(("unsafe", "reject", "unsafety", "fn NAME(c: &%s) { c.get_unchecked(0); }" % ty))
        out.append(("unsafe", "accept", "unsafety", "fn NAME(c: &%s) { unsafe { c.get_unchecked(0); } }" % ty))
    out.append(("unsafe", "reject", "unsafety", "fn NAME(c: &mut sized_chunks::ring_buffer::SliceMut<'_, u8, 4>) { c.get_unchecked_mut(0); }"))
    return out


# -- the compiler -----------------------------------------------------------
def library(td):
    """Build the crate as a library; the arguments rustc needs to use it."""
    cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(check.HARNESS, "Cargo.toml"), "--lib", "--target-dir", td,
           "--profile", "dbg", "--message-format", "json"]
    r = subprocess.run(cmd, env=check.env({"RUSTFLAGS": "--cap-lints warn"}), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        check.log(r.stderr[-4000:])
        raise check.Inconclusive("build failed (library)")
    lib = None
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact" and m["target"]["name"].replace("-", "_") == "sized_chunks":
            lib = next((f for f in m["filenames"] if f.endswith(".rlib")), lib)
    if not lib:
        raise check.Inconclusive("no library")
    return ["--extern", "sized_chunks=" + lib, "-L", "dependency=" + os.path.dirname(lib)]


def compile_all(args, tmp, tag, sources):
    """Which of the sources (lists of lines) have errors: {index: [messages]}."""
    path = os.path.join(tmp, tag + ".rs")
    lines = PRELUDE.splitlines()
    spans = []
    for s in sources:
        spans.append((len(lines) + 1, len(lines) + len(s)))
        lines += s
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    r = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "programs", "--emit", "metadata", "--error-format", "json",
                        "--cap-lints", "allow", "-o", os.path.join(tmp, tag + ".rmeta"), path] + args,
                       env=check.env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    bad = {}
    codes = {}
    starts = [a for a, _ in spans]
    import bisect
    for l in r.stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("level") != "error" or not m.get("spans"):
            if m.get("level", "").startswith("error") and m.get("spans") == [] and not m["message"].startswith("aborting"):
                raise check.Inconclusive("the compiler fails: " + m["message"][:500])
            continue
        code = (m.get("code") or {}).get("code", "")
        for s in m["spans"]:
            if not s["is_primary"]:
                continue
            i = bisect.bisect_right(starts, s["line_start"]) - 1
            if i < 0 or not path.endswith(os.path.basename(s["file_name"])):
                raise check.Inconclusive("an error outside the programs: " + m["message"][:500])
            bad.setdefault(i, []).append(("%s %s" % (code, m["message"])).strip())
            codes.setdefault(i, set()).add(code)
    if r.returncode != 0 and not bad:
        raise check.Inconclusive("the compiler fails: " + r.stderr[-1500:])
    return bad, codes


STAGE_CODES = {
    # errors that are an answer; anything else means the programs don't fit the API
    "borrow": {"E0499", "E0502", "E0503", "E0505", "E0506", "E0597", "E0713", "E0716", "E0515", "E0521", "E0382", "", "E0308", "E0310", "E0478"},
    "types": {"E0277"},
    "unsafe": {"E0133"},
}


def judge(session, args, stage, items, tag):
    """items: (verdict, source). Indices whose verdict differs from the compiler's."""
    bad, codes = compile_all(args, session.tmp, tag, [s for _, s in items])
    for i, c in codes.items():
        if not c <= STAGE_CODES[stage]:
            raise check.Inconclusive("a program does not fit the API: %s\n%s" % (bad[i][:2], "\n".join(items[i][1])))
    wrong = []
    for i, (verdict, _) in enumerate(items):
        if verdict == "accept" and i in bad:
            wrong.append((i, "the compiler refuses it: " + bad[i][0]))
        elif verdict == "reject" and i not in bad:
            wrong.append((i, "the compiler accepts it"))
    return wrong


def shrink(session, args, prog, verdict):
    """Remove statements while compiler and model disagree in the same way."""
    def still(p):
        r = play(p)
        if r is None or r[0] != verdict:
            return False
        _, _, src = render(p, "f")
        try:
            return bool(judge(session, args, "borrow", [(verdict, src)], "shrink"))
        except check.Inconclusive:
            return False
    best = prog
    end = time.time() + 60
    changed = True
    while changed and time.time() < end:
        changed = False
        for i in range(len(best["stmts"])):
            p = without(best, i)
            if p and len(p["stmts"]) < len(best["stmts"]) and still(p):
                best, changed = p, True
                break
    return best


def without(prog, i):
    """The program without statement i and whatever depends on it."""
    kind = prog["container"]
    views = []          # kind, excl per view of the old program
    number = {}
    out = []
    for j, st in enumerate(prog["stmts"]):
        born = []
        if st[0] == "out":
            e = OUT[kind][st[1] % len(OUT[kind])]
            born = [(e[1], e[2])]
        elif st[0] == "step":
            t = STEP[views[st[1]]]
            e = t[st[2] % len(t)]
            born = list(zip(e[1], e[2]))
        keep = j != i
        st = list(st)
        if st[0] in ("step", "use", "poke", "drop", "keep"):
            if st[1] not in number:
                keep = False
            else:
                st[1] = number[st[1]]
        for b in born:
            if keep:
                number[len(views)] = len(number)
            views.append(b)
        if keep:
            out.append(st)
    return dict(prog, stmts=out)


def run(session, exes):
    td = check.target_dir()
    args = library(td)
    check.log("library after %.1f s" % (time.time() - check.START))
    n = 24000 if session.tier == "quick" else 240000
    rng = random.Random(session.seed * 7919 + (0 if session.tier == "quick" else 1))
    seen, progs = set(), []
    labels = {}
    tries = 0
    while len(progs) < n and tries < 4 * n:
        tries += 1
        p = generate(rng)
        r = play(p)
        if r is None or r[0] is None:
            continue
        key = json.dumps([p["container"], p["flavour"], r[1]])
        if key in seen:
            continue
        seen.add(key)
        progs.append(p)
    items = []
    nontrivial = 0
    for p in progs:
        verdict, tested, src = render(p, "f%d" % len(items))
        items.append((verdict, src))
        nontrivial += tested
        for l in (["accepted programs" if verdict == "accept" else "refused programs", "kept beyond the function" if any(s[0] == "keep" for s in p["stmts"]) else "",
                   "two or more views" if count_views(p) > 1 else "", "view of a view" if any(s[0] == "step" for s in p["stmts"]) else "", p["container"]]):
            if l:
                labels[l] = labels.get(l, 0) + 1
    per = 250
    jobs = [("borrow", list(range(i, min(i + per, len(items))))) for i in range(0, len(items), per)]
    facts = tables()
    stages = {}
    for i, (stage, verdict, label, src) in enumerate(facts):
        stages.setdefault(stage, []).append(i)
        labels[label] = labels.get(label, 0) + 1
    wrong = []
    with cf.ThreadPoolExecutor(check.NSHARDS) as ex:
        futs = [(ids, ex.submit(judge, session, args, "borrow", [items[i] for i in ids], "p%d" % j)) for j, (_, ids) in enumerate(jobs)]
        ffuts = [(stage, ids, ex.submit(judge, session, args, stage, [(facts[i][1], [facts[i][3].replace("NAME", "f%d" % i)]) for i in ids], "t-" + stage))
                 for stage, ids in stages.items()]
        for ids, f in futs:
            wrong += [("program", ids[i], why) for i, why in f.result()]
        for stage, ids, f in ffuts:
            wrong += [("fact", ids[i], why) for i, why in f.result()]
    s = session.suites.setdefault("programs", {"mode": "random", "evaluations": len(items), "nontrivial": nontrivial, "complete": True, "labels": labels,
                                               "samples": ["[programs, must be %sed] %s" % (v, " ".join(x.strip() for x in src)) for v, src in items[:4]], "configs": ["rustc"]})
    session.suites["facts"] = {"mode": "exhaustive", "evaluations": len(facts), "nontrivial": len(facts), "complete": True, "labels": {},
                               "samples": ["[facts, must be %sed] %s" % (f[1], f[3]) for f in facts[::97]][:4], "configs": ["rustc"]}
    session.extra["distinct"] = nontrivial + len(facts)
    if not wrong:
        return None
    kind, i, why = wrong[0]
    if kind == "program":
        verdict = items[i][0]
        best = shrink(session, args, progs[i], verdict)
        _, _, src = render(best, "program")
        w = judge(session, args, "borrow", [(verdict, src)], "confirm")
        why = w[0][1] if w else why
        doc = {"program": best}
        stage = "borrow"
    else:
        stage, verdict, label, src = facts[i]
        src = [src.replace("NAME", "program")]
        w = judge(session, args, stage, [(verdict, src)], "confirm")
        doc = {}
    if not w:
        raise check.Inconclusive("a disagreement that does not repeat: %s" % why)
    session.evidence(1)
    os.makedirs(os.path.join(check.ROOT, "replay"), exist_ok=True)
    path = os.path.join(check.ROOT, "replay", "%s.json" % session.pid)
    msg = "this program must be %sed, but %s" % (verdict, why)
    with open(path, "w") as fh:
        json.dump(dict(doc, property=session.pid, kind="borrow", tier=session.tier, seed=session.seed, stage=stage, verdict=verdict, source=src, message=msg), fh, indent=1)
    for l in src:
        print("  " + l)
    print("failed: " + msg)
    print("VIOLATION property=%s replay=%s" % (session.pid, path), flush=True)
    return 1


def replay(session, d):
    args = library(check.target_dir())
    w = judge(session, args, d["stage"], [(d["verdict"], d["source"])], "replay")
    for l in d["source"]:
        print("  " + l)
    print("FAIL " + d["message"] if w else "PASS")
    return 1 if w else 0

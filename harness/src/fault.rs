//! Per-case (thread-local) registry of tracked items, fault injection fuse and
//! panic capture.

use std::cell::{Cell, RefCell};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Hook {
    Clone = 0,
    Drop = 1,
    Cmp = 2,
    Hash = 3,
    Iter = 4,
    Debug = 5,
    Gen = 6,
}

/// Payload of an injected panic.
pub struct Injected;

thread_local! {
    static LAST: RefCell<String> = RefCell::new(String::new());
    static ERR: RefCell<Option<String>> = RefCell::new(None);
    static STATE: RefCell<Vec<u8>> = RefCell::new(Vec::new());
    static LIVE: Cell<i64> = Cell::new(0);
    static ZLIVE: Cell<i64> = Cell::new(0);
    static CLONES: Cell<u64> = Cell::new(0);
    static DROPS: Cell<u64> = Cell::new(0);
    static FUSE: Cell<u64> = Cell::new(0);
    static MASK: Cell<u8> = Cell::new(0);
    static FIRED: Cell<bool> = Cell::new(false);
    static TICKS: Cell<u64> = Cell::new(0);
    static BASE: RefCell<Vec<u32>> = RefCell::new(Vec::new());
    static WITHIN: RefCell<Option<Vec<u32>>> = RefCell::new(None);
}

pub fn install_hook() {
    if cfg!(miri) {
        // interpreted: keep it cheap
        std::panic::set_hook(Box::new(|_| ()));
        return;
    }
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else if info.payload().is::<Injected>() {
            "injected panic".to_string()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|l| {
            if let Ok(mut l) = l.try_borrow_mut() {
                *l = format!("{}{}", msg, loc)
            }
        });
        if std::env::var_os("HARNESS_PANICS").is_some() {
            eprintln!("panic: {}{}", msg, loc);
        }
    }));
}

pub fn last_panic() -> String {
    LAST.with(|l| l.borrow().clone())
}

/// Forget everything about the previous case.
pub fn reset() {
    ERR.with(|e| *e.borrow_mut() = None);
    STATE.with(|s| s.borrow_mut().clear());
    LIVE.with(|c| c.set(0));
    ZLIVE.with(|c| c.set(0));
    CLONES.with(|c| c.set(0));
    DROPS.with(|c| c.set(0));
    disarm();
    TICKS.with(|c| c.set(0));
    BASE.with(|b| b.borrow_mut().clear());
    WITHIN.with(|w| *w.borrow_mut() = None);
}

/// The first ownership error recorded in this case.
pub fn errors() -> Option<String> {
    ERR.with(|e| e.borrow().clone())
}
pub fn forget_errors() {
    ERR.with(|e| *e.borrow_mut() = None)
}
pub fn error(s: String) {
    ERR.with(|e| {
        let mut e = e.borrow_mut();
        if e.is_none() {
            *e = Some(s)
        }
    })
}

pub const LIVE_STATE: u8 = 1;
pub const DROPPED: u8 = 2;

pub fn register() -> u32 {
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        s.push(LIVE_STATE);
        LIVE.with(|c| c.set(c.get() + 1));
        (s.len() - 1) as u32
    })
}
pub fn is_live(id: u32) -> bool {
    STATE.with(|s| s.borrow().get(id as usize) == Some(&LIVE_STATE))
}
/// Mark as dropped; records an error on a second drop.
pub fn unregister(id: u32) {
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        match s.get_mut(id as usize) {
            Some(x) if *x == LIVE_STATE => {
                *x = DROPPED;
                LIVE.with(|c| c.set(c.get() - 1));
                DROPS.with(|c| c.set(c.get() + 1));
            }
            Some(_) => error(format!("item #{} dropped twice", id)),
            None => error(format!("drop of an item that never existed (id {})", id)),
        }
    })
}
/// The items of a container whose windows are going to be looked at.
pub fn set_base(ids: impl Iterator<Item = u32>) {
    BASE.with(|b| *b.borrow_mut() = ids.collect())
}
/// While this lives, touching an item of the base other than these is an error.
pub struct Within(Option<Vec<u32>>);
pub fn within(ids: impl Iterator<Item = u32>) -> Within {
    let ids: Vec<u32> = ids.collect();
    Within(WITHIN.with(|w| w.borrow_mut().replace(ids)))
}
impl Drop for Within {
    fn drop(&mut self) {
        WITHIN.with(|w| *w.borrow_mut() = self.0.take())
    }
}
pub fn touch(id: u32, what: &str) {
    WITHIN.with(|w| {
        if let Some(w) = &*w.borrow() {
            if BASE.with(|b| b.borrow().contains(&id)) && !w.contains(&id) {
                error(format!("{} on an item outside the window", what))
            }
        }
    })
}
pub fn live_count() -> i64 {
    LIVE.with(|c| c.get())
}
pub fn zst_live() -> i64 {
    ZLIVE.with(|c| c.get())
}
pub fn zst_add(d: i64) {
    ZLIVE.with(|c| {
        let v = c.get() + d;
        c.set(v);
        if v < 0 {
            error("more zero-sized items dropped than created".into())
        }
    })
}
pub fn count_clone() {
    CLONES.with(|c| c.set(c.get() + 1))
}
pub fn clones() -> u64 {
    CLONES.with(|c| c.get())
}
pub fn drops() -> u64 {
    DROPS.with(|c| c.get())
}

/// Arm the fuse: the `n`-th (from 1) hook call with a kind in `mask` panics.
pub fn arm(n: u64, mask: u8) {
    FUSE.with(|f| f.set(n));
    MASK.with(|f| f.set(mask));
    FIRED.with(|f| f.set(false));
}
pub fn disarm() -> bool {
    FUSE.with(|f| f.set(0));
    FIRED.with(|f| f.replace(false))
}
pub fn fired() -> bool {
    FIRED.with(|f| f.get())
}
/// More calls into user code than any case can need.
const RUNAWAY: u64 = 20_000_000;

/// Called by every piece of "user code" run by the containers.
#[inline]
pub fn tick(h: Hook) {
    let ticks = TICKS.with(|t| {
        t.set(t.get() + 1);
        t.get()
    });
    if ticks == RUNAWAY && !std::thread::panicking() {
        error(format!("user code was called {} times in one case", ticks));
        panic!("runaway operation");
    }
    let n = FUSE.with(|f| f.get());
    if n != 0 && MASK.with(|m| m.get()) & (1 << (h as u8)) != 0 && !std::thread::panicking() {
        FUSE.with(|f| f.set(n - 1));
        if n == 1 {
            FIRED.with(|f| f.set(true));
            std::panic::panic_any(Injected)
        }
    }
}
pub fn ticks() -> u64 {
    TICKS.with(|t| t.get())
}

/// Run a call, turning a panic into its message.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(last_panic()),
    }
}

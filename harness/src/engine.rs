//! Choice-sequence property-based testing engine (no dependencies).
//!
//! A case is a function of the choices it draws from a `Src`. Choices are
//! bounded integers, recorded in order; 0 is always the simplest value.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;

/// Why a case ended early.
pub enum Fail {
    /// The case is not part of this shard or of the domain.
    Skip,
    /// The property does not hold.
    Bad(String),
}
pub type Res<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! bad {
    ($($t:tt)*) => { return Err($crate::engine::Fail::Bad(format!($($t)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::engine::Fail::Bad(format!($($t)*))) } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err($crate::engine::Fail::Bad(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b))) }
    }};
}
/// Append a line to the readable trace of the case (only when tracing).
#[macro_export]
macro_rules! tr {
    ($ctx:expr, $($t:tt)*) => { if $ctx.tracing() { let s = format!($($t)*); $ctx.trace_line(s) } };
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn fnv(seed: u64, bytes: &[u8]) -> u64 {
    let mut h = seed ^ 0xcbf29ce484222325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut s = h;
    splitmix(&mut s)
}

enum Mode {
    Random(u64),
    Replay,
    Enum,
}

pub struct Src {
    mode: Mode,
    pre: Vec<u64>,
    pub rec: Vec<(u64, u64)>,
    pub spans: Vec<(usize, usize)>,
    open: Vec<usize>,
    pub shard: u64,
    pub nshards: u64,
    sink: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Self::with(Mode::Random(seed), Vec::new())
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Self::with(Mode::Replay, choices)
    }
    fn with(mode: Mode, pre: Vec<u64>) -> Self {
        Src { mode, pre, rec: Vec::new(), spans: Vec::new(), open: Vec::new(), shard: 0, nshards: 1, sink: None }
    }
    /// Exhaustive mode: small-scope choices should be drawn without bias.
    pub fn exhaustive(&self) -> bool {
        matches!(self.mode, Mode::Enum)
    }
    /// A uniform choice in `0..n`.
    pub fn choice(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let n = n.max(1);
        let pos = self.rec.len();
        let v = match &mut self.mode {
            Mode::Random(s) => {
                if n == 1 {
                    0
                } else {
                    splitmix(s) % n
                }
            }
            Mode::Replay | Mode::Enum => {
                let v = self.pre.get(pos).copied().unwrap_or(0);
                if v >= n {
                    n - 1
                } else {
                    v
                }
            }
        };
        self.rec.push((v, n));
        if let Some(f) = &mut self.sink {
            use std::io::Write;
            let _ = write!(f, "{} ", v);
        }
        v
    }
    pub fn int(&mut self, n: usize) -> usize {
        self.choice(n as u64) as usize
    }
    /// True with probability num/den (in exhaustive mode: both are tried).
    pub fn flag(&mut self, num: u64, den: u64) -> bool {
        if self.exhaustive() {
            return self.choice(2) == 1;
        }
        // 0 means "no" so that shrinking turns flags off
        self.choice(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.int(items.len());
        &items[i]
    }
    /// Weighted choice; in exhaustive mode every non-zero weight is tried.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        if self.exhaustive() {
            let nz = w.iter().filter(|x| **x > 0).count();
            let mut k = self.int(nz);
            for (i, x) in w.iter().enumerate() {
                if *x > 0 {
                    if k == 0 {
                        return i;
                    }
                    k -= 1;
                }
            }
            unreachable!()
        }
        let total: u32 = w.iter().sum();
        let mut v = self.choice(total as u64) as u32;
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= *x;
        }
        unreachable!()
    }
    /// A value in `0..=max`, biased to the edges and the middle.
    pub fn upto(&mut self, max: usize) -> usize {
        if self.exhaustive() || max <= 2 {
            return self.int(max + 1);
        }
        match self.choice(16) {
            0 | 1 => 0,
            2 | 3 => max,
            4 => 1,
            5 => max - 1,
            6 => max / 2,
            7 => {
                let d = self.int(3);
                (max / 2 + d).saturating_sub(1).min(max)
            }
            8 | 9 => {
                let d = self.int(5.min(max + 1));
                d
            }
            10 | 11 => {
                let d = self.int(5.min(max + 1));
                max - d
            }
            _ => self.int(max + 1),
        }
    }
    /// Ask whether to do another step; opens a span for the shrinker.
    pub fn more(&mut self, done: usize, max: usize, avg: u64) -> bool {
        while let Some(s) = self.open.pop() {
            let e = self.rec.len();
            self.spans.push((s, e));
        }
        if done >= max {
            return false;
        }
        let start = self.rec.len();
        let go = if self.exhaustive() { self.choice(2) == 1 } else { self.choice(avg + 1) != 0 };
        if go {
            self.open.push(start);
        }
        go
    }
    /// In exhaustive mode: share the subtrees below this point between shards.
    pub fn shard_here(&mut self) -> Res {
        if self.exhaustive() && self.nshards > 1 {
            let mut h = 7u64;
            for (v, n) in &self.rec {
                h = h.wrapping_mul(*n).wrapping_add(*v);
            }
            let mut s = h;
            if splitmix(&mut s) % self.nshards != self.shard {
                return Err(Fail::Skip);
            }
        }
        Ok(())
    }
    pub fn digest(&self) -> u64 {
        let mut h = 0x1234_5678u64;
        for (v, _) in &self.rec {
            h ^= *v;
            h = h.wrapping_mul(0x100000001b3).rotate_left(23);
        }
        let mut s = h;
        splitmix(&mut s)
    }
}

/// Advance an exhaustive prefix; false when the space is exhausted.
fn odometer(rec: &[(u64, u64)]) -> Option<Vec<u64>> {
    let mut v: Vec<(u64, u64)> = rec.to_vec();
    while let Some((x, n)) = v.pop() {
        if x + 1 < n {
            let mut out: Vec<u64> = v.iter().map(|c| c.0).collect();
            out.push(x + 1);
            return Some(out);
        }
    }
    None
}

/// Per-case context: labels, observations, trace.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub thorough: bool,
    labels: Vec<&'static str>,
    trace: Option<Vec<String>>,
    stream: bool,
    pub obs: u64,
    pub obs_on: bool,
    pub obs_lines: bool,
}
impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.iter().any(|x| std::ptr::eq(*x, l) || *x == l) {
            self.labels.push(l)
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn tracing(&self) -> bool {
        self.trace.is_some()
    }
    pub fn trace_line(&mut self, s: String) {
        if self.stream {
            eprintln!("TRACE {}", s);
        }
        if let Some(t) = &mut self.trace {
            t.push(s)
        }
    }
    /// Feed an observable result into the transcript digest.
    pub fn observe(&mut self, x: u64) {
        if self.obs_on {
            let mut s = self.obs ^ x.wrapping_mul(0x9E3779B97F4A7C15);
            self.obs = splitmix(&mut s);
            if self.obs_lines {
                eprintln!("OBS {:x}", x);
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Random,
    Exhaustive,
}

pub struct Suite {
    pub name: &'static str,
    pub kind: Kind,
    /// Random: number of cases per tier. Exhaustive: cap on cases (0 = not in this tier).
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Src, &mut Ctx) -> Res,
}
impl Suite {
    pub const fn random(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Src, &mut Ctx) -> Res) -> Self {
        Suite { name, kind: Kind::Random, quick, thorough, f }
    }
    pub const fn exhaustive(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Src, &mut Ctx) -> Res) -> Self {
        Suite { name, kind: Kind::Exhaustive, quick, thorough, f }
    }
}

struct Outcome {
    rec: Vec<(u64, u64)>,
    spans: Vec<(usize, usize)>,
    fail: Option<String>,
    skipped: bool,
    nontrivial: bool,
    labels: Vec<&'static str>,
    trace: Vec<String>,
    digest: u64,
    obs: u64,
}

/// Cases begun so far in this process.
static BEGUN: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// A case takes microseconds to milliseconds. When one has used twenty seconds of
/// processor time (or has stood still for minutes), leave: check.py runs it again
/// on its own, and if it does not end there either, a call does not return.
fn watchdog() {
    if cfg!(miri) {
        return;
    }
    // utime + stime, in ticks of 10 ms
    fn used() -> Option<u64> {
        let s = std::fs::read_to_string("/proc/self/stat").ok()?;
        let mut f = s[s.rfind(')')? + 1..].split_whitespace().skip(11);
        Some(f.next()?.parse::<u64>().ok()? + f.next()?.parse::<u64>().ok()?)
    }
    std::thread::spawn(|| {
        let mut last = 0;
        let mut since = (std::time::Instant::now(), used());
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = BEGUN.load(std::sync::atomic::Ordering::Relaxed);
            let cpu = used();
            if now != last {
                last = now;
                since = (std::time::Instant::now(), cpu);
            }
            let busy = matches!((since.1, cpu), (Some(a), Some(b)) if b - a > 2000);
            if busy || since.0.elapsed().as_secs() > 240 {
                std::process::exit(12);
            }
        }
    });
}

fn exec(s: &Suite, mut src: Src, trace: u8, thorough: bool, obs: bool) -> Outcome {
    BEGUN.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    crate::fault::reset();
    let mut ctx = Ctx { thorough, obs_on: obs, ..Ctx::default() };
    if trace > 0 {
        ctx.trace = Some(Vec::new());
        ctx.stream = trace > 1;
        ctx.obs_lines = trace > 2;
    }
    let f = s.f;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut src, &mut ctx)));
    let (fail, skipped) = match r {
        Ok(Ok(())) => (None, false),
        Ok(Err(Fail::Skip)) => (None, true),
        Ok(Err(Fail::Bad(m))) => (Some(m), false),
        Err(_) => (Some(format!("unexpected panic: {}", crate::fault::last_panic())), false),
    };
    let fail = match (fail, crate::fault::errors()) {
        (Some(f), Some(e)) => Some(format!("{} [also: {}]", f, e)),
        (None, Some(e)) => Some(e),
        (f, None) => f,
    };
    crate::fault::reset();
    while let Some(st) = src.open.pop() {
        let e = src.rec.len();
        src.spans.push((st, e));
    }
    Outcome {
        digest: src.digest(),
        rec: std::mem::take(&mut src.rec),
        spans: std::mem::take(&mut src.spans),
        fail,
        skipped,
        nontrivial: ctx.nontrivial,
        labels: ctx.labels,
        trace: ctx.trace.unwrap_or_default(),
        obs: ctx.obs,
    }
}

/// A source that replays these choices the way the suite draws them.
fn src_for(s: &Suite, c: &[u64]) -> Src {
    match s.kind {
        Kind::Random => Src::replay(c.to_vec()),
        Kind::Exhaustive => Src::with(Mode::Enum, c.to_vec()),
    }
}

fn try_choices(s: &Suite, c: &[u64], thorough: bool) -> Outcome {
    exec(s, src_for(s, c), 0, thorough, false)
}

/// Minimise a failing choice sequence.
fn shrink(s: &Suite, first: Outcome, thorough: bool, on_better: &mut dyn FnMut(&[u64], &str)) -> (Vec<u64>, String) {
    let mut best: Vec<u64> = first.rec.iter().map(|c| c.0).collect();
    let mut spans = first.spans;
    let mut msg = first.fail.unwrap();
    let mut budget = 6000u32;
    let start = std::time::Instant::now();
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            if budget == 0 || start.elapsed().as_secs() > 25 {
                budget = 0;
                false
            } else {
                budget -= 1;
                let o = try_choices(s, &cand, thorough);
                let used: Vec<u64> = o.rec.iter().map(|c| c.0).collect();
                let better = used.len() < best.len() || (used.len() == best.len() && used < best);
                if o.fail.is_some() && better {
                    best = used;
                    spans = o.spans;
                    msg = o.fail.unwrap();
                    on_better(&best, &msg);
                    true
                } else {
                    false
                }
            }
        }};
    }
    loop {
        let before = best.clone();
        // delete operation spans, last first; pairs of spans too
        let mut i = spans.len();
        while i > 0 {
            i -= 1;
            if i >= spans.len() {
                continue;
            }
            let (a, b) = spans[i];
            let b = b.min(best.len());
            if a < b {
                let mut c = best.clone();
                c.drain(a..b);
                attempt!(c);
            }
        }
        // delete blocks
        for size in [8usize, 4, 2, 1] {
            let mut i = best.len();
            while i >= size {
                i -= 1;
                if i + size <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + size);
                    attempt!(c);
                }
            }
        }
        // minimise values
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt!(c) {
                    let mut lo = 0u64;
                    let mut hi = best.get(i).copied().unwrap_or(0);
                    while lo + 1 < hi {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        if i >= c.len() {
                            break;
                        }
                        c[i] = mid;
                        if attempt!(c) {
                            hi = best.get(i).copied().unwrap_or(0).min(mid);
                        } else {
                            lo = mid;
                        }
                    }
                    if i < best.len() && best[i] > 0 {
                        let mut c = best.clone();
                        c[i] -= 1;
                        attempt!(c);
                    }
                }
            }
            i += 1;
        }
        if best == before || budget == 0 {
            break;
        }
    }
    (best, msg)
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Args {
    map: BTreeMap<String, String>,
    rest: Vec<String>,
}
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.map.get(k).map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map(|v| v.parse().expect("number")).unwrap_or(d)
    }
}

fn case_seed(seed: u64, salt: &str, suite: &str, index: u64) -> u64 {
    fnv(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ index, format!("{}/{}", salt, suite).as_bytes())
}

fn fail_json(suite: &str, choices: &[u64], msg: &str, trace: &[String]) -> String {
    let c: Vec<String> = choices.iter().map(|x| x.to_string()).collect();
    let t: Vec<String> = trace.iter().map(|x| jstr(x)).collect();
    format!("{{\"suite\":{},\"choices\":[{}],\"message\":{},\"trace\":[{}]}}", jstr(suite), c.join(","), jstr(msg), t.join(","))
}

/// Entry point of every property binary.
pub fn main(suites: &[Suite]) {
    crate::fault::install_hook();
    let mut args = Args { map: BTreeMap::new(), rest: Vec::new() };
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        if let Some(k) = a.strip_prefix("--") {
            let v = it.next().unwrap_or_default();
            args.map.insert(k.to_string(), v);
        } else {
            args.rest.push(a);
        }
    }
    let cmd = args.rest.get(0).cloned().unwrap_or_default();
    match cmd.as_str() {
        "run" => run(suites, &args),
        "replay" => replay(suites, &args),
        "list" => {
            for s in suites {
                println!("{}", s.name)
            }
        }
        "merge" => {
            let mut all: Vec<u64> = Vec::new();
            for f in &args.rest[1..] {
                let b = std::fs::read(f).unwrap_or_default();
                for c in b.chunks_exact(8) {
                    all.push(u64::from_le_bytes(c.try_into().unwrap()))
                }
            }
            all.sort_unstable();
            all.dedup();
            println!("{}", all.len());
        }
        _ => {
            eprintln!("usage: run|replay|list|merge");
            std::process::exit(4)
        }
    }
}

fn replay(suites: &[Suite], args: &Args) {
    let name = args.get("suite").expect("--suite");
    let s = suites.iter().find(|s| s.name == name).expect("suite");
    let thorough = args.get("tier") == Some("thorough");
    let mut src = if let Some(i) = args.get("index") {
        let i: u64 = i.parse().unwrap();
        Src::random(case_seed(args.num("seed", 1), args.get("salt").unwrap_or(""), s.name, i))
    } else {
        let c = args.get("choices").unwrap_or("");
        let c: Vec<u64> = c.split(|c| c == ',' || c == ' ').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        src_for(s, &c)
    };
    if let Some(f) = args.get("record") {
        src.sink = Some(std::fs::File::create(f).unwrap());
    }
    let o = exec(s, src, match args.get("trace") {
        Some("1") => 2,
        Some("2") => 3,
        _ => 1,
    }, thorough, true);
    if let Some(f) = args.get("out") {
        let c: Vec<u64> = o.rec.iter().map(|c| c.0).collect();
        let sp: Vec<String> = o.spans.iter().map(|s| format!("[{},{}]", s.0, s.1)).collect();
        let body = fail_json(s.name, &c, o.fail.as_deref().unwrap_or(""), &o.trace);
        let _ = std::fs::write(f, format!("{{\"failed\":{},\"skipped\":{},\"spans\":[{}],\"obs\":{},\"fail\":{}}}", o.fail.is_some(), o.skipped, sp.join(","), o.obs, body));
    }
    println!("obs {:016x}", o.obs);
    match o.fail {
        Some(m) => {
            println!("FAIL {}", m);
            std::process::exit(10)
        }
        None => println!("PASS"),
    }
}

fn run(suites: &[Suite], args: &Args) {
    let tier = args.get("tier").unwrap_or("quick").to_string();
    let thorough = tier == "thorough";
    let seed = args.num("seed", 1);
    let salt = args.get("salt").unwrap_or("").to_string();
    let shard = args.num("shard", 0);
    let nshards = args.num("nshards", 1);
    let out = args.get("out").map(|s| s.to_string());
    let only = args.get("suite").map(|s| s.to_string());
    let scale_num = args.num("scale", 100); // percent
    let override_n = args.get("cases").map(|x| x.parse::<u64>().unwrap());
    let announce = args.get("announce").is_some();
    watchdog();
    let status = args.get("status").map(|p| std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(p).unwrap());
    let digest_file = args.get("digests").map(|s| s.to_string());
    let hash_file = args.get("hashes").map(|s| s.to_string());
    let obs_on = digest_file.is_some();
    let mut digests: Vec<u64> = Vec::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut fails: Vec<String> = Vec::new();
    let mut suites_json: Vec<String> = Vec::new();
    let write_out = |suites_json: &[String], fails: &[String], done: bool| {
        if let Some(o) = &out {
            let _ = std::fs::write(o, format!("{{\"done\":{},\"suites\":[{}],\"fails\":[{}]}}", done, suites_json.join(","), fails.join(",")));
        }
    };
    let note = |suite: &str, what: &str| {
        if let Some(f) = &status {
            use std::os::unix::fs::FileExt;
            let mut b = format!("{} {}", suite, what).into_bytes();
            b.push(b'\n');
            while b.len() < 64 {
                b.push(b' ');
            }
            let _ = f.write_at(&b, 0);
        }
        if announce {
            eprintln!("CASE {} {}", suite, what);
        }
    };
    for s in suites {
        if let Some(o) = &only {
            if o != s.name {
                continue;
            }
        }
        let digests_before = digests.len();
        let mut total = if thorough { s.thorough } else { s.quick };
        if total == 0 {
            continue;
        }
        if s.kind == Kind::Random {
            total = (total * scale_num / 100).max(1);
        }
        if let Some(n) = override_n {
            total = n;
        }
        let mut evals = 0u64;
        let mut skipped = 0u64;
        let mut nontrivial = 0u64;
        let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut samples: Vec<String> = Vec::new();
        let mut exhausted = true;
        let mut bad: Option<Outcome> = None;
        let salt_h = fnv(0, s.name.as_bytes());
        let mut consider = |o: Outcome, evals: &mut u64, nt: &mut u64| -> Option<Outcome> {
            if obs_on {
                digests.push(o.obs ^ if o.fail.is_some() { 1 } else { 0 });
            }
            if o.skipped {
                skipped += 1;
                return None;
            }
            *evals += 1;
            for l in &o.labels {
                *labels.entry(l).or_insert(0) += 1;
            }
            if o.nontrivial {
                *nt += 1;
                if hashes.len() < 4_000_000 {
                    hashes.insert(o.digest ^ salt_h);
                }
            }
            if o.fail.is_some() {
                return Some(o);
            }
            None
        };
        match s.kind {
            Kind::Random => {
                let mut i = shard;
                while i < total {
                    note(s.name, &format!("#{}", i));
                    let cs = case_seed(seed, &salt, s.name, i);
                    let o = exec(s, Src::random(cs), 0, thorough, obs_on);
                    let nt = o.nontrivial;
                    if let Some(o) = consider(o, &mut evals, &mut nontrivial) {
                        bad = Some(o);
                        break;
                    }
                    if nt && shard == 0 && samples.len() < 2 {
                        let o = exec(s, Src::random(cs), 1, thorough, false);
                        samples.push(o.trace.join("; "));
                    }
                    i += nshards;
                }
            }
            Kind::Exhaustive => {
                let mut pre: Vec<u64> = Vec::new();
                let mut count = 0u64;
                loop {
                    if status.is_some() || announce {
                        let p: Vec<String> = pre.iter().map(|x| x.to_string()).collect();
                        note(s.name, &p.join(","));
                    }
                    let mut src = Src::with(Mode::Enum, std::mem::take(&mut pre));
                    src.shard = shard;
                    src.nshards = nshards;
                    let o = exec(s, src, 0, thorough, obs_on);
                    let next = odometer(&o.rec);
                    let nt = o.nontrivial;
                    let rec: Vec<u64> = if nt && shard == 0 && samples.len() < 2 { o.rec.iter().map(|c| c.0).collect() } else { Vec::new() };
                    if !o.skipped {
                        count += 1;
                    }
                    if let Some(o) = consider(o, &mut evals, &mut nontrivial) {
                        bad = Some(o);
                        break;
                    }
                    if !rec.is_empty() {
                        let mut src = Src::with(Mode::Enum, rec);
                        src.shard = shard;
                        src.nshards = nshards;
                        let o = exec(s, src, 1, thorough, false);
                        samples.push(o.trace.join("; "));
                    }
                    match next {
                        Some(n) => pre = n,
                        None => break,
                    }
                    if count >= total {
                        exhausted = false;
                        break;
                    }
                }
            }
        }
        let lab: Vec<String> = labels.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
        let smp: Vec<String> = samples.iter().map(|x| jstr(x)).collect();
        suites_json.push(format!(
            "{{\"name\":{},\"mode\":\"{}\",\"evaluations\":{},\"nontrivial\":{},\"complete\":{},\"labels\":{{{}}},\"samples\":[{}],\"digests\":{}}}",
            jstr(s.name),
            if s.kind == Kind::Random { "random" } else { "exhaustive" },
            evals,
            nontrivial,
            exhausted,
            lab.join(","),
            smp.join(","),
            digests.len() - digests_before
        ));
        if let Some(o) = bad {
            let c0: Vec<u64> = o.rec.iter().map(|c| c.0).collect();
            let m0 = o.fail.clone().unwrap();
            write_out(&suites_json, &[fail_json(s.name, &c0, &m0, &[])], false);
            let (c, m) = shrink(s, o, thorough, &mut |c, m| {
                write_out(&suites_json, &[fail_json(s.name, c, m, &[])], false);
            });
            let t = exec(s, src_for(s, &c), 1, thorough, false).trace;
            fails.push(fail_json(s.name, &c, &m, &t));
            write_out(&suites_json, &fails, true);
            break;
        }
    }
    if let Some(f) = digest_file {
        let mut b = Vec::with_capacity(digests.len() * 8);
        for d in &digests {
            b.extend_from_slice(&d.to_le_bytes());
        }
        let _ = std::fs::write(f, b);
    }
    if let Some(f) = hash_file {
        let mut b = Vec::with_capacity(hashes.len() * 8);
        for d in &hashes {
            b.extend_from_slice(&d.to_le_bytes());
        }
        let _ = std::fs::write(f, b);
    }
    write_out(&suites_json, &fails, true);
    if !fails.is_empty() {
        std::process::exit(10)
    }
}

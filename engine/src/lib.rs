//! Choice-sequence property engine: a case is generated from a recorded
//! sequence of bounded draws, so a failing case can be replayed and shrunk by
//! editing the sequence (deleting whole operations, lowering draws), and the
//! generator may look at the model's state while it generates.

use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Mutex, OnceLock,
    },
    time::{Duration, Instant},
};

use serde_json::json;


static RESET: OnceLock<fn()> = OnceLock::new();

thread_local! {
    static QUIET: RefCell<u32> = const { RefCell::new(0) };
    /// Outcomes of `quietly` (true: panicked), in order. Natively a log; in a
    /// WebAssembly build, where panics cannot be caught, the outcomes to expect.
    static OUTCOMES: RefCell<Vec<bool>> = const { RefCell::new(Vec::new()) };
    static NEXT: RefCell<usize> = const { RefCell::new(0) };
}
/// Natively: the outcomes since the last call.
pub fn take_outcomes() -> Vec<bool> {
    OUTCOMES.with(|o| std::mem::take(&mut *o.borrow_mut()))
}
/// In WebAssembly: the outcomes to expect.
pub fn set_outcomes(v: Vec<bool>) {
    OUTCOMES.with(|o| *o.borrow_mut() = v);
    NEXT.with(|n| *n.borrow_mut() = 0);
}

/// Set up a module that is driven from outside (see `exec`).
#[cfg(all(target_family = "wasm", feature = "trycall"))]
pub fn embedded(reset: fn()) {
    if RESET.set(reset).is_err() {
        return;
    }
    std::panic::set_hook(Box::new(|info| {
        let m = info.to_string();
        trycall::MESSAGE.with(|x| *x.borrow_mut() = m);
    }));
}

fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.with(|q| *q.borrow() > 0);
        if !quiet || std::env::var_os("OZVERIF_PANICS").is_some() {
            default(info);
        }
    }));
}

#[cfg(all(target_family = "wasm", feature = "trycall"))]
mod trycall {
    use super::*;
    thread_local! {
        pub static MESSAGE: RefCell<String> = const { RefCell::new(String::new()) };
    }
    #[link(wasm_import_module = "env")]
    extern "C" {
        /// Calls `oz_callback(p)`; 1 if it trapped.
        pub fn oz_try(p: *mut u8) -> u32;
    }
    #[no_mangle]
    unsafe extern "C" fn oz_callback(p: *mut u8) {
        let f = &mut *(p as *mut &mut dyn FnMut());
        f();
    }
}
/// Run `f`, turning a panic into `Err(message)`. A panic is a trap here; the
/// embedder catches it and restores the stack pointer. Destructors do not run.
#[cfg(all(target_family = "wasm", feature = "trycall"))]
pub fn quietly<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let mut f = Some(f);
    let mut out = None;
    trycall::MESSAGE.with(|m| m.borrow_mut().clear());
    let mut body = || out = Some((f.take().unwrap())());
    let mut dynamic: &mut dyn FnMut() = &mut body;
    let trapped = unsafe { trycall::oz_try(&mut dynamic as *mut &mut dyn FnMut() as *mut u8) };
    if trapped != 0 {
        let m = trycall::MESSAGE.with(|m| m.borrow().clone());
        return Err(if m.is_empty() { "trap".into() } else { m });
    }
    Ok(out.expect("ran"))
}
/// Run `f`, turning a panic into `Err(message)`, without printing it.
#[cfg(all(target_family = "wasm", not(feature = "trycall")))]
pub fn quietly<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let i = NEXT.with(|n| {
        *n.borrow_mut() += 1;
        *n.borrow() - 1
    });
    if OUTCOMES.with(|o| o.borrow().get(i).copied().unwrap_or(false)) {
        return Err("panics natively".into());
    }
    Ok(f())
}
/// Run `f`, turning a panic into `Err(message)`, without printing it.
#[cfg(not(target_family = "wasm"))]
pub fn quietly<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| *q.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() -= 1);
    OUTCOMES.with(|o| o.borrow_mut().push(r.is_err()));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

/// A property violation.
#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
    /// Stable signature: names the kind of failure (known findings match it).
    pub sig: String,
}
pub type Check = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($t:tt)*) => {
        if !$c {
            return Err($crate::Fail { msg: format!($($t)*), sig: $sig.to_string() });
        }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $sig:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err($crate::Fail {
                msg: format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b),
                sig: $sig.to_string(),
            });
        }
    }};
}

pub struct Src {
    rng: u64,
    inc: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    open: Vec<usize>,
    pub trace: Vec<String>,
    pub tracing: bool,
    /// Named events observed in this case; drives the non-triviality rule.
    pub tags: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    /// Known findings met (their signatures).
    pub known: Vec<String>,
    pub size: usize,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Src {
    fn base(size: usize) -> Self {
        Src {
            rng: 0,
            inc: 0,
            replay: None,
            pos: 0,
            rec: vec![],
            spans: vec![],
            open: vec![],
            trace: vec![],
            tracing: false,
            tags: BTreeMap::new(),
            nontrivial: false,
            known: vec![],
            size,
        }
    }
    pub fn random(seed: u64, case: u64, size: usize) -> Self {
        let mut s = Self::base(size);
        let mut x = seed ^ case.wrapping_mul(0xD6E8_FEB8_6659_FD93);
        s.rng = splitmix(&mut x);
        s.inc = splitmix(&mut x);
        s
    }
    pub fn replay(v: Vec<u64>, size: usize) -> Self {
        let mut s = Self::base(size);
        s.replay = Some(v);
        s
    }
    fn raw(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(self.inc | 1);
        let mut x = self.rng;
        splitmix(&mut x)
    }
    /// Uniform in `0..n` (n > 0). 0 is the simplest value.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(self.rec.len() < 4_000_000, "harness: the case draws without end");
        assert!(n > 0);
        let v = match &self.replay {
            Some(r) => r.get(self.pos).copied().unwrap_or(0) % n,
            None => {
                let x = self.raw();
                ((x as u128 * n as u128) >> 64) as u64
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn u64(&mut self) -> u64 {
        let v = match &self.replay {
            Some(r) => r.get(self.pos).copied().unwrap_or(0),
            None => self.raw(),
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability num/den (the simple value is false).
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        let i = self.idx(xs.len());
        xs[i].clone()
    }
    /// Weighted choice: returns the index.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let t: u64 = ws.iter().sum();
        let mut x = self.below(t);
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn open(&mut self) {
        self.open.push(self.rec.len());
    }
    pub fn close(&mut self) {
        let s = self.open.pop().unwrap();
        let e = self.rec.len();
        if e > s {
            self.spans.push((s, e));
        }
    }
    pub fn tag(&mut self, t: &'static str) {
        *self.tags.entry(t).or_insert(0) += 1;
    }
    pub fn has(&self, t: &'static str) -> bool {
        self.tags.contains_key(t)
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            let s = f();
            self.trace.push(s);
        }
    }
    /// Draw a number of steps and run each inside a span. One history in fifty
    /// may be eight times as long.
    pub fn steps(
        &mut self,
        max: usize,
        mut f: impl FnMut(&mut Src) -> Check,
    ) -> Check {
        let max = if self.chance(1, 50) { max * 8 } else { max };
        for _ in 0..max {
            self.open();
            // 0 = stop: deleting a suffix stays a valid sequence.
            let go = self.below(max as u64 / 2 + 4) != 0;
            if !go {
                self.close();
                break;
            }
            let r = f(self);
            self.close();
            r?;
        }
        Ok(())
    }
}

/// How a case that runs elsewhere starts.
pub enum Start {
    Seed(u64),
    Replay(Vec<u64>),
}
/// What it reports back.
pub struct Report {
    pub result: Check,
    pub rec: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    pub tags: Vec<(String, u64)>,
    pub nontrivial: bool,
    pub trace: Vec<String>,
}
fn intern(t: String) -> &'static str {
    static ALL: Mutex<BTreeMap<String, &'static str>> = Mutex::new(BTreeMap::new());
    let mut g = ALL.lock().unwrap();
    if let Some(s) = g.get(&t) {
        return s;
    }
    let s: &'static str = Box::leak(t.clone().into_boxed_str());
    g.insert(t, s);
    s
}
impl Src {
    /// The rest of this case is drawn and run elsewhere; its draws become
    /// draws of this case, so that it shrinks and replays like any other.
    pub fn delegate(&mut self, f: impl FnOnce(Start) -> Report) -> Check {
        let start = match &self.replay {
            Some(r) => Start::Replay(r.get(self.pos..).map(<[u64]>::to_vec).unwrap_or_default()),
            None => Start::Seed(self.raw()),
        };
        let r = f(start);
        let at = self.rec.len();
        self.pos += r.rec.len();
        self.rec.extend(r.rec);
        self.spans.extend(r.spans.into_iter().map(|(a, b)| (a + at, b + at)));
        for (t, n) in r.tags {
            *self.tags.entry(intern(t)).or_insert(0) += n;
        }
        self.nontrivial = r.nontrivial;
        self.trace.extend(r.trace);
        r.result
    }
}
/// Run one case of one generator from `start`.
pub fn exec(f: PropFn, size: usize, start: Start, tracing: bool) -> Report {
    let mut s = match start {
        Start::Seed(x) => Src::random(x, 0, size),
        Start::Replay(v) => Src::replay(v, size),
    };
    s.tracing = tracing;
    let result = run_one(f, &mut s);
    Report {
        result,
        rec: s.rec,
        spans: s.spans,
        tags: s.tags.into_iter().map(|(k, v)| (k.to_string(), v)).collect(),
        nontrivial: s.nontrivial,
        trace: s.trace,
    }
}

pub type PropFn = fn(&mut Src) -> Check;

pub struct Prop {
    pub id: &'static str,
    pub name: &'static str,
    /// One or more generators; cases are dealt to them by weight.
    pub parts: &'static [(&'static str, PropFn, u64)],
    pub rule: &'static str,
    pub quick_cases: u64,
    pub thorough_cases: u64,
    /// Maximum length of an operation sequence (quick, thorough).
    pub size: (usize, usize),
}

fn run_one(f: PropFn, src: &mut Src) -> Check {
    if let Some(r) = RESET.get() {
        r();
    }
    take_outcomes();
    match quietly(|| f(src)) {
        Ok(r) => r,
        Err(m) => {
            Err(Fail { sig: "panic".into(), msg: format!("panic: {m}") })
        }
    }
}

fn shrink(f: PropFn, size: usize, rec: Vec<u64>, spans: Vec<(usize, usize)>, first: Fail) -> (Vec<u64>, Fail, u64) {
    let t0 = Instant::now();
    let budget = Duration::from_secs(60);
    let mut best = rec;
    let mut best_spans = spans;
    let mut fail = first.clone();
    let mut tries = 0u64;
    let sig = first.sig.clone();
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, bs: &mut Vec<(usize, usize)>, fail: &mut Fail| -> bool {
        tries += 1;
        let mut s = Src::replay(cand, size);
        match run_one(f, &mut s) {
            Err(e) if e.sig == sig => {
                let smaller = s.rec.len() < best.len()
                    || (s.rec.len() == best.len() && s.rec < *best);
                if smaller {
                    *best = s.rec;
                    *bs = s.spans;
                    *fail = e;
                }
                smaller
            }
            _ => false,
        }
    };
    let mut progress = true;
    while progress && t0.elapsed() < budget {
        progress = false;
        // Delete whole spans, longest first.
        let mut spans = best_spans.clone();
        spans.sort_by_key(|(a, b)| std::cmp::Reverse(b - a));
        for (a, b) in spans {
            if b > best.len() || t0.elapsed() > budget {
                continue;
            }
            let mut c = best.clone();
            c.drain(a..b);
            if attempt(c, &mut best, &mut best_spans, &mut fail) {
                progress = true;
                break;
            }
        }
        if progress {
            continue;
        }
        // Delete blocks of 8, 4, 2, 1.
        'blocks: for k in [8usize, 4, 2, 1] {
            let mut i = best.len();
            while i >= k {
                if t0.elapsed() > budget {
                    break 'blocks;
                }
                let mut c = best.clone();
                c.drain(i - k..i);
                if attempt(c, &mut best, &mut best_spans, &mut fail) {
                    progress = true;
                    break 'blocks;
                }
                i -= 1;
            }
        }
        if progress {
            continue;
        }
        // Lower values.
        for i in 0..best.len() {
            if i >= best.len() || t0.elapsed() > budget {
                break;
            }
            if best[i] == 0 {
                continue;
            }
            for v in [0, 1, best[i] / 2, best[i] - 1] {
                if i >= best.len() || v >= best[i] {
                    continue;
                }
                let mut c = best.clone();
                c[i] = v;
                if attempt(c, &mut best, &mut best_spans, &mut fail) {
                    progress = true;
                }
            }
        }
    }
    (best, fail, tries)
}

pub struct Known {
    pub property: String,
    pub sig: String,
    pub what: String,
}

fn fnv(b: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for c in b.bytes() {
        h = (h ^ c as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}
fn case_seed(p: &Prop, seed: u64) -> u64 {
    seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ fnv(p.id)
}
/// A single case that runs this long does not terminate.
const HANG_SECS: u64 = 90;
fn hash_rec(part: usize, r: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ (part as u64).wrapping_mul(0x9E37_79B9);
    for c in r {
        h = (h ^ c).wrapping_mul(0x100_0000_01b3);
        h ^= h >> 29;
    }
    h
}

pub struct Opts {
    pub tier: String,
    pub seed: u64,
    pub out_dir: String,
    pub replay_dir: String,
    pub known: Vec<Known>,
    pub max_secs: u64,
    pub threads: usize,
    pub cases: Option<u64>,
}

/// Runs a property; returns the process exit code.
pub fn run(p: &Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let thorough = o.tier == "thorough";
    let cases = o.cases.unwrap_or(if thorough { p.thorough_cases } else { p.quick_cases });
    let size = if thorough { p.size.1 } else { p.size.0 };
    let seed = case_seed(p, o.seed);
    let running: Vec<(AtomicU64, AtomicU64)> =
        (0..o.threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
    let live = AtomicU64::new(o.threads as u64);
    let total_w: u64 = p.parts.iter().map(|x| x.2).sum();
    let part_of = |case: u64| -> usize {
        let mut x = case % total_w;
        for (i, q) in p.parts.iter().enumerate() {
            if x < q.2 {
                return i;
            }
            x -= q.2;
        }
        0
    };
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    struct Shared {
        evals: u64,
        nontrivial: u64,
        distinct: HashSet<u64>,
        tags: BTreeMap<String, u64>,
        part_cases: Vec<(u64, u64)>,
        failure: Option<(u64, usize, Vec<u64>, Vec<(usize, usize)>, Fail)>,
        known: BTreeMap<String, u64>,
        sample_cases: Vec<(usize, u64)>,
    }
    let shared = Mutex::new(Shared {
        evals: 0,
        nontrivial: 0,
        distinct: HashSet::new(),
        tags: BTreeMap::new(),
        part_cases: vec![(0, 0); p.parts.len()],
        failure: None,
        known: BTreeMap::new(),
        sample_cases: vec![],
    });
    let known_sigs: HashSet<String> = o
        .known
        .iter()
        .filter(|k| k.property == p.id)
        .map(|k| k.sig.clone())
        .collect();
    std::thread::scope(|sc| {
        // Watchdog: a case that does not terminate is a violation of its own.
        sc.spawn(|| loop {
            std::thread::sleep(Duration::from_millis(100));
            if live.load(Ordering::Relaxed) == 0 {
                break;
            }
            let now = t0.elapsed().as_secs();
            for r in &running {
                let start = r.1.load(Ordering::Relaxed);
                if start != 0 && now > start + HANG_SECS {
                    let case = r.0.load(Ordering::Relaxed);
                    let part = part_of(case);
                    std::fs::create_dir_all(&o.replay_dir).ok();
                    let path = format!("{}/{}.json", o.replay_dir, p.id);
                    let rep = json!({
                        "property": p.id, "part": p.parts[part].0,
                        "size": size, "seed": o.seed, "case": case,
                        "signature": "hang", "choices": null,
                        "failure": format!("case did not finish in {HANG_SECS} s"),
                    });
                    std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap() + "\n").ok();
                    println!("{} [{}] case {case} did not finish in {HANG_SECS} s", p.id, p.parts[part].0);
                    println!("VIOLATION property={} replay={}", p.id, path);
                    std::process::exit(1);
                }
            }
        });
        for ti in 0..o.threads {
            let (running, live, next, stop, shared, known_sigs) =
                (&running, &live, &next, &stop, &shared, &known_sigs);
            let part_of = &part_of;
            sc.spawn(move || {
                let mut evals = 0;
                let mut nontriv = 0;
                let mut distinct = HashSet::new();
                let mut tags: BTreeMap<String, u64> = BTreeMap::new();
                let mut pc = vec![(0u64, 0u64); p.parts.len()];
                let mut known: BTreeMap<String, u64> = BTreeMap::new();
                let mut samples: Vec<(usize, u64)> = vec![];
                'outer: loop {
                    let start = next.fetch_add(16, Ordering::Relaxed);
                    for case in start..start + 16 {
                        if case >= cases
                            || stop.load(Ordering::Relaxed)
                            || t0.elapsed().as_secs() >= o.max_secs
                        {
                            break 'outer;
                        }
                        let part = part_of(case);
                        let mut s = Src::random(seed, case, size);
                        running[ti].0.store(case, Ordering::Relaxed);
                        running[ti].1.store(t0.elapsed().as_secs() + 1, Ordering::Relaxed);
                        let r = run_one(p.parts[part].1, &mut s);
                        running[ti].1.store(0, Ordering::Relaxed);
                        evals += 1;
                        pc[part].0 += 1;
                        for (k, v) in &s.tags {
                            *tags
                                .entry(format!("{}/{}", p.parts[part].0, k))
                                .or_insert(0) += v;
                        }
                        for k in &s.known {
                            *known.entry(k.clone()).or_insert(0) += 1;
                        }
                        if s.nontrivial {
                            nontriv += 1;
                            pc[part].1 += 1;
                            if distinct.insert(hash_rec(part, &s.rec))
                                && samples.iter().filter(|x| x.0 == part).count() < 2
                            {
                                samples.push((part, case));
                            }
                        }
                        if let Err(e) = r {
                            if known_sigs.contains(&e.sig) {
                                *known.entry(e.sig.clone()).or_insert(0) += 1;
                                continue;
                            }
                            let mut g = shared.lock().unwrap();
                            let better = match &g.failure {
                                None => true,
                                Some(f) => case < f.0,
                            };
                            if better {
                                g.failure = Some((case, part, s.rec, s.spans, e));
                            }
                            stop.store(true, Ordering::Relaxed);
                            break 'outer;
                        }
                    }
                }
                let mut g = shared.lock().unwrap();
                g.evals += evals;
                g.nontrivial += nontriv;
                g.distinct.extend(distinct);
                for (k, v) in tags {
                    *g.tags.entry(k).or_insert(0) += v;
                }
                for (i, x) in pc.iter().enumerate() {
                    g.part_cases[i].0 += x.0;
                    g.part_cases[i].1 += x.1;
                }
                for (k, v) in known {
                    *g.known.entry(k).or_insert(0) += v;
                }
                g.sample_cases.extend(samples);
                live.fetch_sub(1, Ordering::Relaxed);
            });
        }
    });
    let g = shared.into_inner().unwrap();
    // Samples, rendered by re-running (lowest case numbers, one or two a part).
    let mut sc = g.sample_cases.clone();
    sc.sort();
    let mut samples = vec![];
    let mut per = vec![0; p.parts.len()];
    for (part, case) in sc {
        if per[part] >= 2 || samples.len() >= 8 {
            continue;
        }
        per[part] += 1;
        let mut s = Src::random(seed, case, size);
        s.tracing = true;
        let _ = run_one(p.parts[part].1, &mut s);
        let mut t = s.trace;
        if t.len() > 14 {
            let n = t.len() - 14;
            t.truncate(14);
            t.push(format!("... {n} more"));
        }
        samples.push(json!({"part": p.parts[part].0, "case": case, "ops": t}));
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": p.id,
        "tier": o.tier,
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": g.evals,
            "distinct_nontrivial": g.distinct.len(),
            "rule": p.rule,
            "samples": samples,
            "nontrivial": g.nontrivial,
            "parts": p.parts.iter().enumerate().map(|(i, q)| json!({
                "part": q.0, "cases": g.part_cases[i].0, "nontrivial": g.part_cases[i].1
            })).collect::<Vec<_>>(),
            "events": g.tags,
            "known_findings_met": g.known,
        },
        "wall_s": (wall * 1000.0).round() / 1000.0,
    });
    std::fs::create_dir_all(&o.out_dir).ok();
    std::fs::write(
        format!("{}/{}.json", o.out_dir, p.id),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    )
    .expect("write evidence");
    if let Some((case, part, rec, spans, fail)) = g.failure {
        let (best, f2, tries) =
            shrink(p.parts[part].1, size, rec, spans, fail);
        let mut s = Src::replay(best.clone(), size);
        s.tracing = true;
        let _ = run_one(p.parts[part].1, &mut s);
        std::fs::create_dir_all(&o.replay_dir).ok();
        let path = format!("{}/{}.json", o.replay_dir, p.id);
        let rep = json!({
            "property": p.id, "part": p.parts[part].0, "size": size,
            "seed": o.seed, "case": case, "signature": f2.sig,
            "failure": f2.msg, "shrink_runs": tries,
            "choices": best, "history": s.trace,
            "how_to_replay": format!("bash /verif/check.sh --replay {path}"),
        });
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap() + "\n")
            .expect("write replay");
        println!("{} [{}] failed: {}", p.id, p.parts[part].0, f2.msg);
        for l in &s.trace {
            println!("    {l}");
        }
        println!("VIOLATION property={} replay={}", p.id, path);
        return 1;
    }
    for k in o.known.iter().filter(|k| k.property == p.id) {
        println!("KNOWN-FINDING: property={} {}", p.id, k.what);
    }
    println!(
        "{} {}: {} cases, {} non-trivial ({} distinct), {:.1}s, no violation",
        p.id, o.tier, g.evals, g.nontrivial, g.distinct.len(), wall
    );
    // A check that explored nothing must not pass silently.
    if g.evals == 0 || g.distinct.is_empty() {
        eprintln!("ERROR: {} explored nothing", p.id);
        return 3;
    }
    0
}

pub fn replay(
    p: &Prop,
    part: &str,
    size: usize,
    choices: Option<Vec<u64>>,
    seed: u64,
    case: u64,
) -> i32 {
    let Some(q) = p.parts.iter().find(|q| q.0 == part) else {
        eprintln!("unknown part {part}");
        return 2;
    };
    let mut s = match choices {
        Some(c) => Src::replay(c, size),
        None => Src::random(case_seed(p, seed), case, size),
    };
    s.tracing = true;
    let r = run_one(q.1, &mut s);
    for l in &s.trace {
        println!("    {l}");
    }
    match r {
        Err(e) => {
            println!("reproduced: {}", e.msg);
            1
        }
        Ok(()) => {
            println!("did not reproduce");
            0
        }
    }
}

/// Command line of a runner: `<id> [quick|thorough]`, `--list`, or
/// `--replay FILE`. `reset` runs before every case.
pub fn cli(all: Vec<Prop>, reset: Option<fn()>) {
    if let Some(r) = reset {
        let _ = RESET.set(r);
    }
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let env = |k: &str| std::env::var(k).ok();
    let verif = env("OZVERIF_DIR").unwrap_or_else(|| "/verif".into());
    if args.first().map(String::as_str) == Some("--list") {
        for p in &all {
            println!("{} {}", p.id, p.name);
        }
        return;
    }
    if args.first().map(String::as_str) == Some("--replay") {
        let t = std::fs::read_to_string(&args[1]).expect("replay file");
        let v: serde_json::Value = serde_json::from_str(&t).expect("json");
        let id = v["property"].as_str().unwrap();
        let p = all.iter().find(|p| p.id == id).expect("property");
        let choices = v["choices"]
            .as_array()
            .map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect());
        let size = v["size"].as_u64().unwrap() as usize;
        std::process::exit(replay(
            p,
            v["part"].as_str().unwrap(),
            size,
            choices,
            v["seed"].as_u64().unwrap_or(1),
            v["case"].as_u64().unwrap_or(0),
        ));
    }
    let id = args.first().expect("usage: ozverif <id> [quick|thorough]");
    let tier = args
        .get(1)
        .cloned()
        .or_else(|| env("VERIF_TIER"))
        .unwrap_or_else(|| "quick".into());
    let seed =
        env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let known = std::fs::read_to_string(format!("{verif}/known_findings.json"))
        .ok()
        .and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok())
        .and_then(|v| v["findings"].as_array().cloned())
        .unwrap_or_default()
        .iter()
        .map(|f| Known {
            property: f["property"].as_str().unwrap_or("").into(),
            sig: f["signature"].as_str().unwrap_or("").into(),
            what: f["what"].as_str().unwrap_or("").into(),
        })
        .collect();
    let Some(p) = all.iter().find(|p| p.id == id.as_str()) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    let o = Opts {
        max_secs: env("OZVERIF_SECS")
            .and_then(|s| s.parse().ok())
            .unwrap_or(if tier == "thorough" { 600 } else { 300 }),
        threads: std::thread::available_parallelism()
            .map(|n| n.get())
            .unwrap_or(4)
            .min(8),
        cases: env("OZVERIF_CASES").and_then(|s| s.parse().ok()),
        out_dir: format!("{verif}/evidence"),
        replay_dir: format!("{verif}/replays"),
        tier,
        seed,
        known,
    };
    std::process::exit(run(p, &o));
}

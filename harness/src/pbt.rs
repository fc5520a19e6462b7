//! A small property-based-testing core (Hypothesis style).
//!
//! A test case is a sequence of bounded integer choices. Random generation draws the choices
//! from a seeded generator; replay and shrinking feed a recorded choice vector back. Generators
//! put the simplest alternative at 0, so shrinking is "make the vector shorter and smaller".

use std::collections::{BTreeMap, HashSet};
use std::panic;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    Rng::new(a.rotate_left(23) ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93)).next()
}

pub fn mix_str(a: u64, s: &str) -> u64 {
    let mut h = a;
    for b in s.bytes() {
        h = mix(h, b as u64 + 1);
    }
    h
}

pub struct Source {
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    rng: Rng,
    pub spans: Vec<(usize, usize)>,
    open: Vec<usize>,
}

impl Source {
    pub fn random(seed: u64) -> Self {
        Source { replay: None, pos: 0, rec: vec![], rng: Rng::new(seed), spans: vec![], open: vec![] }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Source { replay: Some(choices), pos: 0, rec: vec![], rng: Rng::new(0), spans: vec![], open: vec![] }
    }
    /// An integer in `0..n` (n >= 1). 0 is the simplest.
    pub fn draw(&mut self, n: u64) -> u64 {
        debug_assert!(n >= 1);
        let v = match &self.replay {
            None => self.rng.next() % n,
            Some(r) => r.get(self.pos).copied().unwrap_or(0) % n,
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    /// Nothing of the recorded choices is left: a history ends here, so that shrinking can
    /// simply cut calls out of it.
    pub fn exhausted(&self) -> bool {
        self.replay.as_ref().map_or(false, |r| self.pos >= r.len())
    }
    /// The length of a history: `min` and up to `n` more, now and then up to `long` more.
    pub fn length(&mut self, min: usize, n: usize, long: usize) -> usize {
        let far = self.chance(1, 300);
        min + self.below(if far { long } else { n })
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n.max(1) as u64) as usize
    }
    /// True with probability num/den; false is the simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // 0..den-num => false
        self.draw(den) >= den - num
    }
    /// Index into `weights`, index 0 being the simplest.
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u64 = weights.iter().map(|w| *w as u64).sum();
        let mut v = self.draw(total.max(1));
        for (i, w) in weights.iter().enumerate() {
            if v < *w as u64 {
                return i;
            }
            v -= *w as u64;
        }
        0
    }
    pub fn begin(&mut self) {
        self.open.push(self.rec.len());
    }
    pub fn end(&mut self) {
        let s = self.open.pop().unwrap();
        let e = self.rec.len();
        if e > s {
            self.spans.push((s, e));
        }
    }
}

/// What executing one case produced.
#[derive(Default)]
pub struct CaseOut {
    pub fail: Option<String>,
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// Normalised content of the case, for counting distinct ones.
    pub key: u64,
    /// Number of operations executed.
    pub ops: u64,
    /// Readable rendering (only when asked for).
    pub trace: String,
    /// Digest of the observable behaviour (only for the differential properties).
    pub digest: u64,
    /// The digest after each operation.
    pub digests: Vec<u64>,
    /// The case was abandoned (not judged).
    pub discarded: bool,
    /// Something was wrong, but not judged to concern the property.
    pub unjudged: bool,
    pub last_cache: Option<usize>,
    /// The discrepancies: what, and at which call.
    pub discs: Vec<(&'static str, &'static str)>,
    pub convs: bool,
}

pub type CaseFn = fn(&mut Source, &CaseCfg) -> CaseOut;

#[derive(Clone)]
pub struct CaseCfg {
    pub prop: String,
    pub want_trace: bool,
    pub thorough: bool,
    /// only execute operations on this cache
    pub only: Option<usize>,
    /// let no builder be created where another one was
    pub no_reuse: bool,
    /// leave out some kind of operation: "inv", "conv" or "lookup"
    pub ablate: &'static str,
}

#[derive(Clone)]
pub struct RunCfg {
    pub prop: String,
    pub seed: u64,
    pub from: u64,
    pub cases: u64,
    pub threads: usize,
    pub time_limit: Duration,
    pub thorough: bool,
    pub status_file: Option<String>,
    pub digests: bool,
}

pub struct Failure {
    pub index: u64,
    pub msg: String,
    pub choices: Vec<u64>,
    pub trace: String,
    pub shrink_evals: u64,
}

#[derive(Default)]
pub struct RunOut {
    pub evaluations: u64,
    pub discarded: u64,
    pub ops: u64,
    pub nontrivial: u64,
    pub distinct_nontrivial: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub failure: Option<Failure>,
    pub digests: Vec<(u64, u64)>,
    pub keys: Vec<u64>,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("VH_BT").is_some() { eprintln!("PANIC {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture()); }
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("{} (at {})", msg, loc);
            }
        });
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub fn case_seed(seed: u64, prop: &str, i: u64) -> u64 {
    mix(mix_str(seed ^ 0x5EED, prop), i)
}

/// Runs a case, turning an escaping panic into a failure.
pub fn run_one(f: CaseFn, src: &mut Source, cfg: &CaseCfg) -> CaseOut {
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| f(src, cfg)));
    match r {
        Ok(o) => o,
        Err(_) => CaseOut {
            fail: Some(format!("unexpected panic: {}", last_panic())),
            trace: String::from("(no trace: the case itself panicked)"),
            ..Default::default()
        },
    }
}

fn fails(f: CaseFn, cfg: &CaseCfg, choices: &[u64], tries: u32) -> Option<(Source, CaseOut)> {
    for _ in 0..tries {
        let mut s = Source::replay(choices.to_vec());
        let o = run_one(f, &mut s, cfg);
        if o.fail.is_some() {
            return Some((s, o));
        }
    }
    None
}

/// Shrinks a failing choice vector. The code under test uses randomly keyed hash maps, so a
/// candidate is tried several times before it is given up.
pub fn shrink(f: CaseFn, cfg: &CaseCfg, start: Vec<u64>, limit: Duration, so_far: &Mutex<Vec<u64>>) -> (Vec<u64>, u64) {
    let t0 = Instant::now();
    let mut evals = 0u64;
    const TRIES: u32 = 3;
    let mut best = start;
    let mut spans;
    match fails(f, cfg, &best, 20) {
        Some((s, _)) => {
            best = s.rec.clone();
            spans = s.spans.clone();
        }
        None => return (best, 0),
    }
    loop {
        let before = best.clone();
        *so_far.lock().unwrap() = best.clone();
        // 1. drop spans, longest first; and runs of spans
        let mut k = 0;
        spans.sort_by_key(|(s, e)| std::cmp::Reverse(e - s));
        while k < spans.len() {
            if t0.elapsed() > limit {
                return (best, evals);
            }
            let (s, e) = spans[k];
            if e <= best.len() {
                let mut c = best.clone();
                c.drain(s..e);
                evals += 1;
                if let Some((src, _)) = fails(f, cfg, &c, TRIES) {
                    if src.rec.len() < best.len() {
                        best = src.rec.clone();
                        spans = src.spans.clone();
                        spans.sort_by_key(|(s, e)| std::cmp::Reverse(e - s));
                        continue;
                    }
                }
            }
            k += 1;
        }
        // 2. truncate
        let mut cut = best.len() / 2;
        while cut > 0 {
            if t0.elapsed() > limit {
                return (best, evals);
            }
            let c: Vec<u64> = best[..best.len() - cut].to_vec();
            evals += 1;
            if let Some((src, _)) = fails(f, cfg, &c, TRIES) {
                if src.rec.len() < best.len() {
                    best = src.rec.clone();
                    spans = src.spans.clone();
                    cut = cut.min(best.len());
                    continue;
                }
            }
            cut /= 2;
        }
        // 3. smaller values
        let mut i = 0;
        while i < best.len() {
            if t0.elapsed() > limit {
                return (best, evals);
            }
            if best[i] > 0 {
                let orig = best[i];
                for cand in [0, orig / 2, orig - 1] {
                    if cand >= best[i] {
                        continue;
                    }
                    let mut c = best.clone();
                    c[i] = cand;
                    evals += 1;
                    if let Some((src, _)) = fails(f, cfg, &c, TRIES) {
                        if (src.rec.len(), &src.rec) < (best.len(), &best) {
                            best = src.rec.clone();
                            spans = src.spans.clone();
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before {
            return (best, evals);
        }
    }
}

/// Runs `cfg.cases` cases over `cfg.threads` threads; stops at the first failure and shrinks it.
pub fn run(f: CaseFn, cfg: &RunCfg) -> RunOut {
    let next = AtomicU64::new(cfg.from);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let out = Mutex::new(RunOut::default());
    let seen = Mutex::new(HashSet::<u64>::new());
    let fail: Mutex<Option<(u64, String, Vec<u64>)>> = Mutex::new(None);
    let t0 = Instant::now();
    let started: Vec<AtomicU64> = (0..cfg.threads).map(|_| AtomicU64::new(0)).collect();
    let current: Vec<AtomicU64> = (0..cfg.threads).map(|_| AtomicU64::new(0)).collect();
    let end = cfg.from + cfg.cases;

    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 0..cfg.threads {
            let (next, stop, out, seen, fail, started, current) =
                (&next, &stop, &out, &seen, &fail, &started, &current);
            let cfg = cfg.clone();
            let b = std::thread::Builder::new().stack_size(STACK);
            hs.push(
                b.spawn_scoped(sc, move || {
                    use std::os::unix::fs::FileExt;
                    let status = cfg.status_file.as_ref().map(|p| {
                        std::fs::OpenOptions::new().create(true).write(true).open(format!("{}.{}", p, t)).unwrap()
                    });
                    let mut loc = RunOut::default();
                    loop {
                        if stop.load(Ordering::Relaxed) || t0.elapsed() > cfg.time_limit {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= end {
                            break;
                        }
                        if let Some(s) = &status {
                            let _ = s.write_at(format!("{:020}\n", i).as_bytes(), 0);
                        }
                        current[t].store(i, Ordering::Relaxed);
                        started[t].store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                        let mut src = Source::random(case_seed(cfg.seed, &cfg.prop, i));
                        let sample = i < cfg.from + 3;
                        let cc = CaseCfg { prop: cfg.prop.clone(), want_trace: sample, thorough: cfg.thorough, only: None, no_reuse: false, ablate: "" };
                        let o = run_one(f, &mut src, &cc);
                        started[t].store(0, Ordering::Relaxed);
                        loc.evaluations += 1;
                        loc.ops += o.ops;
                        if o.discarded {
                            loc.discarded += 1;
                        }
                        if cfg.digests {
                            loc.digests.push((i, o.digest));
                        }
                        for l in &o.labels {
                            *loc.labels.entry(l).or_insert(0) += 1;
                        }
                        if sample && !o.trace.is_empty() {
                            let mut s = o.trace.clone();
                            if s.len() > 3000 {
                                let mut k = 3000;
                                while !s.is_char_boundary(k) { k -= 1; }
                                s.truncate(k);
                                s.push_str("...");
                            }
                            loc.samples.push(format!("case {}: {}", i, s));
                        }
                        if let Some(m) = o.fail {
                            let mut g = fail.lock().unwrap();
                            if g.as_ref().map_or(true, |(j, _, _)| i < *j) {
                                *g = Some((i, m, src.rec.clone()));
                            }
                            stop.store(true, Ordering::Relaxed);
                            break;
                        }
                        if o.nontrivial && !o.discarded {
                            loc.nontrivial += 1;
                            seen.lock().unwrap().insert(o.key);
                        }
                    }
                    let mut g = out.lock().unwrap();
                    g.evaluations += loc.evaluations;
                    g.ops += loc.ops;
                    g.discarded += loc.discarded;
                    g.nontrivial += loc.nontrivial;
                    g.samples.extend(loc.samples);
                    g.digests.extend(loc.digests);
                    for (k, v) in loc.labels {
                        *g.labels.entry(k).or_insert(0) += v;
                    }
                })
                .unwrap(),
            );
        }
        // Watchdog: a case takes milliseconds; one that runs for a minute hangs.
        let (done_r, started, current, cfgw) = (&done, &started, &current, cfg.clone());
        sc.spawn(move || {
            while !done_r.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(20));
                let now = t0.elapsed().as_millis() as u64;
                for t in 0..cfgw.threads {
                    let s = started[t].load(Ordering::Relaxed);
                    if s > 0 && now > s + 60_000 {
                        // Cannot stop the stuck thread: report and leave.
                        println!("VH-HANG case={}", current[t].load(Ordering::Relaxed));
                        std::process::exit(7);
                    }
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::Relaxed);
    });

    let mut o = out.into_inner().unwrap();
    o.keys = seen.into_inner().unwrap().into_iter().collect();
    o.keys.sort();
    o.distinct_nontrivial = o.keys.len() as u64;
    o.digests.sort();
    if let Some((i, msg, choices)) = fail.into_inner().unwrap() {
        o.failure = Some(shrunk_failure(f, cfg, i, msg, choices));
    }
    o
}

thread_local! {
    static OPAQUE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Whether values of one type all have the same debug text in this case.
pub fn opaque() -> bool {
    OPAQUE.with(|o| o.get())
}
pub fn set_opaque(on: bool) {
    OPAQUE.with(|o| o.set(on))
}

/// Stacks are only reserved, not used: how deep a call goes is not what is judged (deep graphs of
/// `scale.rs` would tell a recursive implementation from an iterative one).
pub const STACK: usize = 1 << 30;

pub fn shrunk_failure(f: CaseFn, cfg: &RunCfg, i: u64, msg: String, choices: Vec<u64>) -> Failure {
    // Shrinking runs beside, so that a smaller case that does not end costs only the shrinking.
    let best = std::sync::Arc::new(Mutex::new(choices.clone()));
    let (tx, rx) = std::sync::mpsc::channel();
    let (prop, thorough, msg2, best2) = (cfg.prop.clone(), cfg.thorough, msg.clone(), best.clone());
    let th = std::thread::Builder::new().stack_size(STACK);
    let _ = th.spawn(move || {
        let cc = CaseCfg { prop: prop.clone(), want_trace: false, thorough, only: None, no_reuse: false, ablate: "" };
        let (small, evals) = shrink(f, &cc, choices, Duration::from_secs(25), &best2);
        let cc = CaseCfg { prop, want_trace: true, thorough, only: None, no_reuse: false, ablate: "" };
        let (msg, trace) = match fails(f, &cc, &small, 20) {
            Some((_, o)) => (o.fail.unwrap(), o.trace),
            None => (msg2, "(did not reproduce when replayed 20 times)".to_string()),
        };
        let _ = tx.send(Failure { index: i, msg, choices: small, trace, shrink_evals: evals });
    });
    match rx.recv_timeout(Duration::from_secs(60)) {
        Ok(r) => r,
        Err(_) => Failure {
            index: i,
            msg,
            choices: best.lock().unwrap().clone(),
            trace: "(shrinking did not come to an end; replay the choices)".to_string(),
            shrink_evals: 0,
        },
    }
}

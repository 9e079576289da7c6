//! Exploration engine: parallel exhaustive enumeration of cases, each executed on the real code.
//!
//! A *case* is a value that can be written to and parsed from text and run to a verdict. Every case
//! that is executed during exploration is executed by exactly the same code in a replay.
//! The engine runs in a worker process; a supervisor process (main.rs) watches it, so that an abort,
//! a stack overflow, exhausted memory or an endless loop inside the code under test is attributed to
//! the case that was in flight and confirmed by replaying that case alone.

use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Verdict of one case.
pub type Verdict = Result<(), String>;

pub trait Case: Sized {
    fn show(&self) -> String;
    fn parse(s: &str) -> Option<Self>;
    fn run(&self, l: &mut Local) -> Verdict;
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

/// Install a hook that records panics instead of printing them.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Run code under test, turning a panic into `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_default();
            Err(format!("panic at {}: {}", loc, msg))
        }
    }
}

fn panic_in_harness(loc: &str) -> bool {
    loc.starts_with("src/") || loc.starts_with("harness/src/")
}

pub struct Shared {
    pub id: String,
    pub tier: Tier,
    pub threads: usize,
    counters: Mutex<BTreeMap<&'static str, u64>>,
    states: Vec<Mutex<HashSet<u64>>>,
    outcomes: Mutex<BTreeMap<String, u64>>,
    pub samples: Mutex<Vec<String>>,
    pub violations: Mutex<Vec<(String, String)>>,
    pub harness_errors: Mutex<Vec<String>>,
    pub notes: Mutex<Vec<String>>,
    pub known: Vec<String>,
    pub known_hit: Mutex<Vec<String>>,
    pub stop: AtomicBool,
    pub capped: AtomicBool,
    pub deadline: Instant,
    slots: Vec<Slot>,
    slot_dir: Option<std::path::PathBuf>,
}

pub struct Slot {
    pub seq: AtomicU64,
    pub started_ms: AtomicU64,
}

impl Shared {
    pub fn new(id: &str, tier: Tier, slot_dir: Option<std::path::PathBuf>, known: Vec<String>) -> Self {
        let threads = std::env::var("LJMC_THREADS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| {
                std::thread::available_parallelism()
                    .map(|n| n.get())
                    .unwrap_or(4)
                    .min(16)
            });
        let budget = match tier {
            Tier::Quick => 600,
            Tier::Thorough => 6 * 3600,
        };
        Shared {
            id: id.to_string(),
            tier,
            threads,
            counters: Mutex::new(BTreeMap::new()),
            states: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
            outcomes: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(Vec::new()),
            violations: Mutex::new(Vec::new()),
            harness_errors: Mutex::new(Vec::new()),
            notes: Mutex::new(Vec::new()),
            known,
            known_hit: Mutex::new(Vec::new()),
            stop: AtomicBool::new(false),
            capped: AtomicBool::new(false),
            deadline: Instant::now() + Duration::from_secs(budget),
            slots: (0..threads)
                .map(|_| Slot { seq: AtomicU64::new(0), started_ms: AtomicU64::new(0) })
                .collect(),
            slot_dir,
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// Pick a bound by tier.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }
    pub fn slots(&self) -> &[Slot] {
        &self.slots
    }
    pub fn note(&self, s: impl Into<String>) {
        let s = s.into();
        if std::env::var_os("LJMC_TRACE").is_some() {
            eprintln!("[{} ms] {}", now_ms(), s);
        }
        self.notes.lock().unwrap().push(s);
    }
    pub fn counters(&self) -> BTreeMap<&'static str, u64> {
        self.counters.lock().unwrap().clone()
    }
    pub fn outcomes(&self) -> BTreeMap<String, u64> {
        self.outcomes.lock().unwrap().clone()
    }
    pub fn n_states(&self) -> u64 {
        self.states.iter().map(|s| s.lock().unwrap().len() as u64).sum()
    }
    pub fn stopped(&self) -> bool {
        if self.stop.load(Ordering::Relaxed) {
            return true;
        }
        if Instant::now() > self.deadline {
            self.capped.store(true, Ordering::Relaxed);
            return true;
        }
        false
    }

    /// Run `f(i)` for all `i < n`, each exactly once, on all worker threads.
    pub fn par<F>(&self, n: usize, f: F)
    where
        F: Fn(usize, &mut Local) + Sync,
    {
        let next = AtomicUsize::new(0);
        let f = &f;
        let next = &next;
        std::thread::scope(|scope| {
            for tid in 0..self.threads {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(scope, move || {
                        let mut local = Local::new(self, tid);
                        loop {
                            if self.stopped() {
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n {
                                break;
                            }
                            if let Err(p) = guard(|| f(i, &mut local)) {
                                let mut h = self.harness_errors.lock().unwrap();
                                if h.len() < 5 {
                                    h.push(format!("{} outside a case", p));
                                }
                                drop(h);
                                self.stop.store(true, Ordering::Relaxed);
                            }
                        }
                    })
                    .unwrap();
            }
        });
    }
}

/// Per-thread handle.
pub struct Local<'a> {
    pub sh: &'a Shared,
    tid: usize,
    counters: BTreeMap<&'static str, u64>,
    outcomes: BTreeMap<String, u64>,
    slot: Option<File>,
    buf: Vec<u8>,
    pub n_cases: u64,
}

static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
pub fn now_ms() -> u64 {
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

impl<'a> Local<'a> {
    pub fn new(sh: &'a Shared, tid: usize) -> Self {
        let slot = sh.slot_dir.as_ref().map(|d| {
            std::fs::OpenOptions::new()
                .create(true)
                .write(true)
                .truncate(true)
                .open(d.join(format!("slot{}", tid)))
                .expect("slot file")
        });
        Local {
            sh,
            tid,
            counters: BTreeMap::new(),
            outcomes: BTreeMap::new(),
            slot,
            buf: Vec::new(),
            n_cases: 0,
        }
    }

    pub fn count(&mut self, key: &'static str, n: u64) {
        *self.counters.entry(key).or_insert(0) += n;
    }

    /// Count a named kind of observed outcome.
    pub fn outcome(&mut self, key: &str) {
        if let Some(v) = self.outcomes.get_mut(key) {
            *v += 1;
        } else {
            self.outcomes.insert(key.to_string(), 1);
        }
    }

    /// Register a state; returns whether it is new.
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) -> bool {
        let mut h = DefaultHasher::new();
        t.hash(&mut h);
        let h = h.finish();
        self.sh.states[(h % 64) as usize].lock().unwrap().insert(h)
    }

    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        let n = self.n_cases;
        // keep a spread of actual cases of this run
        let k = match n {
            7 => 2,
            300 => 4,
            5000 => 7,
            60_000 => 9,
            _ => {
                if self.tid != 0 || n != 1 {
                    return;
                }
                1
            }
        };
        let mut v = self.sh.samples.lock().unwrap();
        if v.len() < k {
            let s = s();
            if s.len() < 1500 {
                v.push(s);
            }
        }
    }

    pub fn stopped(&self) -> bool {
        self.sh.stopped()
    }

    /// Publish the case about to be executed, so that the supervisor can attribute a crash or hang.
    fn publish(&mut self, case: &str) {
        let slot = &self.sh.slots[self.tid];
        slot.seq.fetch_add(1, Ordering::Relaxed);
        slot.started_ms.store(now_ms(), Ordering::Relaxed);
        if let Some(f) = &self.slot {
            self.buf.clear();
            self.buf.extend_from_slice(format!("{:010}", case.len()).as_bytes());
            self.buf.extend_from_slice(case.as_bytes());
            let _ = f.write_at(&self.buf, 0);
        }
    }
    fn unpublish(&mut self) {
        self.sh.slots[self.tid].started_ms.store(0, Ordering::Relaxed);
    }

    /// Execute a case. Returns whether it passed.
    pub fn case<C: Case>(&mut self, c: &C) -> bool {
        let text = c.show();
        self.case_text(text, |l| c.run(l))
    }

    pub fn case_text(&mut self, text: String, run: impl FnOnce(&mut Local) -> Verdict) -> bool {
        self.n_cases += 1;
        self.count("cases", 1);
        self.publish(&text);
        let r = guard(|| run(self));
        self.unpublish();
        match r {
            Ok(Ok(())) => {
                self.sample(|| text);
                true
            }
            Ok(Err(msg)) => {
                self.violation(text, msg);
                false
            }
            Err(p) => {
                // a panic that was not caught close to the code under test
                let loc = p.trim_start_matches("panic at ").to_string();
                if panic_in_harness(&loc) {
                    let mut h = self.sh.harness_errors.lock().unwrap();
                    if h.len() < 5 {
                        h.push(format!("{} in case:\n{}", p, text));
                    }
                    drop(h);
                    self.sh.stop.store(true, Ordering::Relaxed);
                } else {
                    self.violation(text, p);
                }
                false
            }
        }
    }

    fn violation(&mut self, case: String, msg: String) {
        if self.sh.known.iter().any(|k| *k == fingerprint(&case)) {
            let mut k = self.sh.known_hit.lock().unwrap();
            if k.len() < 100 {
                k.push(fingerprint(&case));
            }
            return;
        }
        let mut v = self.sh.violations.lock().unwrap();
        if v.len() < 200 {
            v.push((case, msg));
        }
        drop(v);
        self.sh.stop.store(true, Ordering::Relaxed);
    }
}

impl<'a> Drop for Local<'a> {
    fn drop(&mut self) {
        let mut c = self.sh.counters.lock().unwrap_or_else(|e| e.into_inner());
        for (k, v) in &self.counters {
            *c.entry(k).or_insert(0) += v;
        }
        drop(c);
        let mut c = self.sh.outcomes.lock().unwrap_or_else(|e| e.into_inner());
        for (k, v) in &self.outcomes {
            *c.entry(k.clone()).or_insert(0) += v;
        }
    }
}

/// Stable identification of a case in the known-findings file.
pub fn fingerprint(case: &str) -> String {
    // FNV-1a, written out so that it never changes between toolchains
    let mut h: u64 = 0xcbf29ce484222325;
    for b in case.as_bytes() {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{:016x}", h)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

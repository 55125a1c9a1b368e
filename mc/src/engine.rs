//! Case execution, parallelism, violation reporting, evidence.
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub type R<T> = Result<T, String>;

thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
    static QUIET: RefCell<bool> = RefCell::new(false);
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| *q.borrow()) {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked: {} at {}", msg, loc)));
        } else {
            default(info)
        }
    }));
}

/// Runs `f`, turning a panic into an Err.
pub fn guard<T>(f: impl FnOnce() -> R<T>) -> R<T> {
    let old = QUIET.with(|q| std::mem::replace(&mut *q.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = old);
    match r {
        Ok(r) => r,
        Err(_) => Err(PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panicked".into())),
    }
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub root: PathBuf,
    pub run_dir: PathBuf,
    pub threads: usize,
    pub start: Instant,
    pub soft_deadline: Duration,
    stop: AtomicBool,
    pub capped: AtomicBool,
    viol: Mutex<Vec<(Value, String)>>,
    pub evals: AtomicU64,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub validated: AtomicU64,
    counters: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
    notes: Mutex<Vec<String>>,
    cur: Mutex<Vec<(u64, String)>>,
    busy: Vec<AtomicU64>,
    pub known: Vec<(String, String)>,
    known_hit: Mutex<BTreeMap<String, u64>>,
}

pub const HANG_SECS: u64 = 150;

impl Ctx {
    pub fn new(id: &str, tier: Tier, root: &Path) -> Self {
        let run_dir = root
            .join("out")
            .join(format!("run-{}-{}", id, std::process::id()));
        let _ = fs::create_dir_all(&run_dir);
        let threads = std::env::var("MC_THREADS")
            .ok()
            .and_then(|x| x.parse().ok())
            .or(std::thread::available_parallelism().ok().map(|x| x.get()))
            .unwrap_or(4usize)
            .clamp(1, 16);
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|x| x.parse().ok())
            .unwrap_or(1);
        let mut known = vec![];
        if let Ok(s) = fs::read_to_string(root.join("known_findings.txt")) {
            for l in s.lines() {
                if let Some(rest) = l.strip_prefix(&format!("known: property={} ", id)) {
                    if let Some((sig, desc)) = rest.split_once(' ') {
                        known.push((sig.trim_start_matches("sig=").to_string(), desc.to_string()));
                    }
                }
            }
        }
        Ctx {
            id: id.into(),
            tier,
            seed,
            root: root.into(),
            run_dir,
            threads,
            start: Instant::now(),
            soft_deadline: Duration::from_secs(
                std::env::var("MC_DEADLINE").ok().and_then(|x| x.parse().ok()).unwrap_or(match tier {
                    Tier::Quick => 420,
                    Tier::Thorough => 5 * 3600,
                }),
            ),
            stop: AtomicBool::new(false),
            capped: AtomicBool::new(false),
            viol: Default::default(),
            evals: AtomicU64::new(0),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            validated: AtomicU64::new(0),
            counters: Default::default(),
            samples: Default::default(),
            notes: Default::default(),
            cur: Default::default(),
            busy: (0..64).map(|_| AtomicU64::new(0)).collect(),
            known,
            known_hit: Default::default(),
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// pick a bound by tier
    pub fn pick<T>(&self, q: T, t: T) -> T {
        match self.tier {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
    pub fn stopped(&self) -> bool {
        if self.stop.load(SeqCst) {
            return true;
        }
        if self.start.elapsed() > self.soft_deadline {
            self.capped.store(true, SeqCst);
            return true;
        }
        false
    }
    pub fn count(&self, name: &str, n: u64) {
        *self
            .counters
            .lock()
            .unwrap()
            .entry(name.into())
            .or_default() += n;
    }
    pub fn note(&self, s: impl Into<String>) {
        self.notes.lock().unwrap().push(s.into());
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut g = self.samples.lock().unwrap();
        if g.len() < 12 {
            g.push(s());
        }
    }
    pub fn violation(&self, case: Value, msg: String) {
        for (sig, _) in &self.known {
            // the case, or the only variant in it
            let inner = case.as_object().filter(|o| o.len() == 1).and_then(|o| o.values().next());
            let has = |v: &Value| v.get("sig").and_then(|x| x.as_str()) == Some(sig.as_str());
            if has(&case) || inner.map(has).unwrap_or(false) {
                *self
                    .known_hit
                    .lock()
                    .unwrap()
                    .entry(sig.clone())
                    .or_default() += 1;
                return;
            }
        }
        let mut g = self.viol.lock().unwrap();
        g.push((case, msg));
        if g.len() >= 3 {
            self.stop.store(true, SeqCst);
        }
    }
    pub fn violations(&self) -> usize {
        self.viol.lock().unwrap().len()
    }

    /// Executes all cases in parallel; a case that returns Err or panics is a violation.
    pub fn par<C: Serialize + Sync, T: Send>(
        &self,
        cases: &[C],
        f: impl Fn(&C) -> R<T> + Sync,
    ) -> Vec<Option<T>> {
        let next = AtomicUsize::new(0);
        let mut out: Vec<Option<T>> = Vec::new();
        out.resize_with(cases.len(), || None);
        let n = self.threads.min(cases.len()).max(1);
        let res: Vec<Vec<(usize, T)>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..n)
                .map(|w| {
                    let next = &next;
                    let f = &f;
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            let file = fs::OpenOptions::new()
                                .create(true)
                                .write(true)
                                .truncate(true)
                                .open(self.run_dir.join(format!("cur-{}", w)))
                                .ok();
                            let mut res = vec![];
                            loop {
                                let i = next.fetch_add(1, SeqCst);
                                if i >= cases.len() || self.stopped() {
                                    break;
                                }
                                let mut js = serde_json::to_vec(&cases[i]).unwrap_or_default();
                                js.push(b'\n');
                                if let Some(file) = &file {
                                    let _ = file.write_at(&js, 0);
                                }
                                self.busy[w]
                                    .store(self.start.elapsed().as_millis() as u64 + 1, SeqCst);
                                let r = guard(|| f(&cases[i]));
                                self.busy[w].store(0, SeqCst);
                                self.evals.fetch_add(1, SeqCst);
                                match r {
                                    Ok(v) => res.push((i, v)),
                                    Err(e) => self.violation(
                                        serde_json::to_value(&cases[i]).unwrap_or(Value::Null),
                                        e,
                                    ),
                                }
                            }
                            res
                        })
                        .expect("spawn")
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("worker")).collect()
        });
        for v in res {
            for (i, t) in v {
                out[i] = Some(t);
            }
        }
        out
    }

    /// true if some worker has been busy with one case for too long
    pub fn hung(&self) -> Option<usize> {
        let now = self.start.elapsed().as_millis() as u64;
        self.busy.iter().position(|b| {
            let b = b.load(SeqCst);
            b != 0 && now.saturating_sub(b) > HANG_SECS * 1000
        })
    }

    pub fn finish(&self, level: &str, extra: Value) -> i32 {
        let viol = self.viol.lock().unwrap();
        let _ = fs::create_dir_all(self.root.join("out"));
        for (i, (case, msg)) in viol.iter().enumerate() {
            let path = self
                .root
                .join("out")
                .join(format!("{}-violation-{}.json", self.id, i));
            let body = json!({"property": self.id, "case": case, "message": msg});
            let _ = fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
            println!("VIOLATION property={} replay={}", self.id, path.display());
            println!("  case: {}", case);
            println!("  what: {}", msg);
        }
        for (sig, desc) in &self.known {
            let n = self
                .known_hit
                .lock()
                .unwrap()
                .get(sig)
                .copied()
                .unwrap_or(0);
            println!(
                "KNOWN-FINDING: property={} {} (seen {} times in this run)",
                self.id, desc, n
            );
        }
        let mut cov = json!({
            "evaluations": self.evals.load(SeqCst),
            "states": self.states.load(SeqCst),
            "transitions": self.transitions.load(SeqCst),
            "traces_validated_against_impl": self.validated.load(SeqCst),
            "samples": *self.samples.lock().unwrap(),
            "counters": *self.counters.lock().unwrap(),
            "bounds": *self.notes.lock().unwrap(),
            "exhaustive": !self.capped.load(SeqCst) && viol.is_empty(),
        });
        if let Value::Object(m) = extra {
            for (k, v) in m {
                cov[k] = v;
            }
        }
        let ev = json!({
            "property": self.id,
            "tier": match self.tier { Tier::Quick => "quick", Tier::Thorough => "thorough" },
            "seed": self.seed,
            "level": level,
            "coverage": cov,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": viol.len(),
        });
        let _ = fs::create_dir_all(self.root.join("evidence"));
        fs::write(
            self.root.join("evidence").join(format!("{}.json", self.id)),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .expect("write evidence");
        println!(
            "{}: evaluations={} states={} transitions={} validated={} violations={} capped={} wall={:.1}s",
            self.id,
            self.evals.load(SeqCst),
            self.states.load(SeqCst),
            self.transitions.load(SeqCst),
            self.validated.load(SeqCst),
            viol.len(),
            self.capped.load(SeqCst),
            self.start.elapsed().as_secs_f64()
        );
        if viol.is_empty() {
            0
        } else {
            1
        }
    }
}

/// order-insensitive hash for state dedup
pub fn h64(s: &str) -> u64 {
    // FNV-1a 64
    let mut h = 0xcbf29ce484222325u64;
    for b in s.as_bytes() {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// `ensure!`-like helper producing a String error
#[macro_export]
macro_rules! ck {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err(format!($($arg)*));
        }
    };
}

//! Result recording, deterministic case driver, panic capture.
use rand::{rngs::StdRng, SeedableRng};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub struct Violation {
    /// stable signature of *what* failed (known findings are matched on it)
    pub sig: String,
    pub msg: String,
    pub case: u64,
    pub stage: String,
}

#[derive(Default)]
pub struct Rep {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub violations: Vec<Violation>,
    pub harness_errors: Vec<String>,
    pub case: u64,
    pub stage: String,
    pub known: Vec<(String, String)>,
}

impl Rep {
    pub fn inc(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) {
            *v += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    /// one monitored execution whose trivial/non-trivial class is given
    pub fn eval(&mut self, nontrivial_key: Option<u64>) {
        self.evaluations += 1;
        if let Some(k) = nontrivial_key {
            self.distinct.insert(k);
        }
    }
    pub fn violate(&mut self, sig: impl Into<String>, msg: impl Into<String>) {
        let sig = sig.into();
        self.inc("violation_events");
        if self.violations.iter().filter(|v| v.sig == sig).count() < 3 && self.violations.len() < 60 {
            let mut m: String = msg.into();
            if m.len() > 4000 {
                let mut e = 4000;
                while !m.is_char_boundary(e) {
                    e -= 1;
                }
                m.truncate(e);
            }
            self.violations.push(Violation { sig, msg: m, case: self.case, stage: self.stage.clone() });
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.samples.len() < 3 {
            self.samples.push(f());
        }
    }
    pub fn merge(&mut self, o: Rep) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            if k.starts_with("max_") {
                let e = self.counters.entry(k).or_insert(0);
                *e = (*e).max(v);
            } else {
                *self.counters.entry(k).or_insert(0) += v;
            }
        }
        for s in o.samples {
            if self.samples.len() < 8 {
                self.samples.push(s);
            }
        }
        self.violations.extend(o.violations);
        self.harness_errors.extend(o.harness_errors);
        self.known.extend(o.known);
    }
    pub fn to_json(&self) -> Value {
        json!({
            "evaluations": self.evaluations,
            "distinct_nontrivial": self.distinct.len(),
            "counters": self.counters,
            "samples": self.samples,
            "violations": self.violations.iter().map(|v| json!({"sig": v.sig, "msg": v.msg, "case": v.case, "stage": v.stage})).collect::<Vec<_>>(),
            "harness_errors": self.harness_errors,
        })
    }
}

pub fn h<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if std::env::var("FCBMON_BT").is_ok() {
            eprintln!("panic at {loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

#[derive(Debug, Clone)]
pub struct Panicked {
    pub loc: String,
    pub msg: String,
}
impl Panicked {
    /// panic raised by the harness's own code (src/... relative path) rather than by library code
    pub fn in_harness(&self) -> bool {
        self.loc.starts_with("src/")
    }
    /// file (without line) for use in signatures
    pub fn file(&self) -> String {
        self.loc.rsplit_once(':').map(|x| x.0).unwrap_or(&self.loc).rsplit("/src/").next().unwrap_or("").to_string()
    }
}

/// Run library code, turning a panic into a value.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(Panicked { loc, msg })
        }
    }
}

#[derive(Clone)]
pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    /// run just this case (replay)
    pub only: Option<(String, u64)>,
    /// run just this stage
    pub stage: Option<String>,
    pub threads: usize,
    pub scale: f64,
}

impl Ctx {
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let v = if self.thorough { thorough } else { quick };
        ((v as f64 * self.scale).ceil() as u64).max(1)
    }
    pub fn rng(&self, stage: &str, case: u64) -> StdRng {
        StdRng::seed_from_u64(h(&(self.seed, stage, case)))
    }
}

/// Runs `n` cases of `stage` over worker threads; each case is a pure function of (seed, stage, case).
pub fn run_cases(
    ctx: &Ctx,
    rep: &mut Rep,
    stage: &str,
    n: u64,
    f: impl Fn(&mut StdRng, u64, &mut Rep) + Sync,
) {
    if ctx.stage.as_ref().is_some_and(|s| s != stage) {
        return;
    }
    if let Some((s, c)) = &ctx.only {
        if s != stage {
            return;
        }
        let mut r = Rep { case: *c, stage: stage.to_string(), ..Default::default() };
        one(ctx, stage, *c, &f, &mut r);
        rep.merge(r);
        return;
    }
    let next = AtomicU64::new(0);
    let out = Mutex::new(Vec::new());
    let bad = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..ctx.threads {
            let builder = std::thread::Builder::new().stack_size(32 << 20);
            builder
                .spawn_scoped(s, || {
                    let mut r = Rep { stage: stage.to_string(), ..Default::default() };
                    loop {
                        let c = next.fetch_add(1, Ordering::Relaxed);
                        if c >= n || bad.load(Ordering::Relaxed) > 200 {
                            break;
                        }
                        let before = r.violations.len();
                        one(ctx, stage, c, &f, &mut r);
                        if r.violations.len() > before {
                            bad.fetch_add(1, Ordering::Relaxed);
                        }
                    }
                    out.lock().unwrap().push(r);
                })
                .unwrap();
        }
    });
    for r in out.into_inner().unwrap() {
        rep.merge(r);
    }
    rep.add(&format!("cases_{stage}"), n);
}

/// what every worker is doing, for the watchdog
static WATCH: Mutex<BTreeMap<u64, (std::time::Instant, String, u64)>> = Mutex::new(BTreeMap::new());
static WATCH_IDS: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static WATCH_ID: u64 = WATCH_IDS.fetch_add(1, Ordering::Relaxed);
}

static OUT: Mutex<Option<String>> = Mutex::new(None);

/// Writes a report which holds just this violation and ends the process.
fn give_up(stage: String, case: u64, sig: &str, msg: String) -> ! {
    let mut r = Rep { case, stage, ..Default::default() };
    r.evaluations = 1;
    r.violate(sig, msg);
    let s = serde_json::to_string_pretty(&r.to_json()).unwrap();
    match OUT.lock().unwrap().as_ref() {
        Some(p) => std::fs::write(p, s).unwrap(),
        None => eprintln!("{s}"),
    }
    std::process::exit(0);
}

/// Ends the process with a violation of the case this thread is running.
pub fn fatal(sig: &str, msg: String) -> ! {
    let wid = WATCH_ID.with(|w| *w);
    let w = WATCH.lock().unwrap().get(&wid).map(|w| (w.1.clone(), w.2)).unwrap_or_default();
    let bt = std::backtrace::Backtrace::force_capture().to_string();
    let at: Vec<&str> = bt.lines().map(|l| l.trim()).filter(|l| l.starts_with("at ") && l.contains("/src/") && !l.contains("rustlib") && !l.contains("/rustc/")).take(8).collect();
    give_up(w.0, w.1, sig, format!("{msg}; {}", at.join(" <- ")))
}

/// Reports a case that does not finish (endless loop in library code) and ends the process.
pub fn install_watchdog(out: Option<String>, limit_s: u64) {
    *OUT.lock().unwrap() = out;
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let stuck = WATCH.lock().unwrap().values().find(|w| w.0.elapsed().as_secs() >= limit_s).map(|w| (w.1.clone(), w.2));
        if let Some((stage, case)) = stuck {
            let msg = format!("case {stage}/{case} had not finished after {limit_s} s");
            give_up(stage, case, "hang", msg);
        }
    });
}

fn one(ctx: &Ctx, stage: &str, c: u64, f: &(impl Fn(&mut StdRng, u64, &mut Rep) + Sync), r: &mut Rep) {
    r.case = c;
    let mut rng = ctx.rng(stage, c);
    let wid = WATCH_ID.with(|w| *w);
    WATCH.lock().unwrap().insert(wid, (std::time::Instant::now(), stage.to_string(), c));
    let res = {
        let rr = &mut *r;
        guard(move || f(&mut rng, c, rr))
    };
    WATCH.lock().unwrap().remove(&wid);
    if let Err(p) = res {
        if p.in_harness() {
            r.harness_errors.push(format!("{stage}/{c}: harness panic at {}: {}", p.loc, p.msg));
        } else {
            r.violate(format!("panic:{}", p.file()), format!("panic in library code at {}: {}", p.loc, p.msg));
        }
    }
}

//! Runner: drives facets (sub-checks of a property) over generated or enumerated cases,
//! shrinks failures with proptest, counts what was generated.
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone)]
pub struct Ctx {
    pub prop: &'static str,
    pub seed: u64,
    pub tier: Tier,
    pub threads: usize,
    /// scales the number of generated cases (1.0 normally)
    pub scale: f64,
}

/// What a passing case was.
#[derive(Default, Clone)]
pub struct Info {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// a measured quantity whose maximum is reported (e.g. largest excess over a reference)
    pub metric: Option<f64>,
}

impl Info {
    pub fn new(nontrivial: bool) -> Self {
        Info { nontrivial, labels: vec![], metric: None }
    }
    pub fn label(mut self, on: bool, l: &'static str) -> Self {
        if on {
            self.labels.push(l);
        }
        self
    }
    pub fn metric(mut self, m: f64) -> Self {
        self.metric = Some(m);
        self
    }
}

pub type CheckResult = Result<Info, String>;

/// Shorthand: fail with a message unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => {
        if !($c) { return Err(format!($($arg)*)); }
    };
}

pub trait Case: Serialize + DeserializeOwned + Debug + Clone + Hash + Send + 'static {}
impl<T: Serialize + DeserializeOwned + Debug + Clone + Hash + Send + 'static> Case for T {}

#[derive(Serialize, Clone)]
pub struct Failure {
    pub property: String,
    pub facet: String,
    pub message: String,
    pub case: serde_json::Value,
}

#[derive(Default)]
pub struct Report {
    pub facet: &'static str,
    pub rule: &'static str,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub classes: BTreeMap<&'static str, u64>,
    pub samples: Vec<serde_json::Value>,
    pub metric_max: Option<f64>,
    pub exhaustive: bool,
    pub failure: Option<Failure>,
}

impl Report {
    fn merge(&mut self, o: Report) {
        self.evaluations += o.evaluations;
        self.nontrivial += o.nontrivial;
        if self.distinct.is_empty() {
            self.distinct = o.distinct;
        } else {
            self.distinct.extend(o.distinct);
        }
        for (k, v) in o.classes {
            *self.classes.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 3 {
                self.samples.push(s);
            }
        }
        self.metric_max = match (self.metric_max, o.metric_max) {
            (Some(a), Some(b)) => Some(a.max(b)),
            (a, b) => a.or(b),
        };
        if self.failure.is_none() {
            self.failure = o.failure;
        }
    }
    fn note<C: Case>(&mut self, c: &C, info: &Info) {
        self.evaluations += 1;
        if info.nontrivial {
            self.nontrivial += 1;
            // enough is enough: the number given is a lower bound then
            if self.distinct.len() < MAX_DISTINCT {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                c.hash(&mut h);
                self.distinct.insert(h.finish());
            }
            if self.samples.is_empty() {
                self.samples.push(serde_json::to_value(c).unwrap());
            }
        }
        for l in &info.labels {
            *self.classes.entry(l).or_default() += 1;
        }
        if let Some(m) = info.metric {
            self.metric_max = Some(self.metric_max.map_or(m, |x| x.max(m)));
        }
    }
}

/// Different cases counted per stream, at most.
const MAX_DISTINCT: usize = 6_000_000;

pub trait Facet: Sync + Send {
    fn name(&self) -> &'static str;
    fn run(&self, ctx: &Ctx) -> Report;
    fn replay(&self, case: &serde_json::Value) -> CheckResult;
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
static ANY_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = s.clone());
        *ANY_PANIC.lock().unwrap() = s;
    }));
}

/// Runs f, turning a panic into Err(message).
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    LAST_PANIC.with(|p| p.borrow_mut().clear());
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let s = LAST_PANIC.with(|p| p.borrow().clone());
        if s.is_empty() {
            // raised on another (pool) thread
            ANY_PANIC.lock().unwrap().clone()
        } else {
            s
        }
    })
}

/// What a thread is checking right now, for the watchdog.
struct Running {
    facet: &'static str,
    case: *const (),
    json: unsafe fn(*const ()) -> serde_json::Value,
    since: std::time::Instant,
    cpu_at_start: f64,
}
// SAFETY: the pointer is only used under the slot's mutex, while the case is borrowed by the thread that set it
unsafe impl Send for Running {}
struct Slot {
    thread: String,
    running: Mutex<Option<Running>>,
}
static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(vec![]);
thread_local! {
    static SLOT: Arc<Slot> = {
        let link = std::fs::read_link("/proc/thread-self").map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
        let s = Arc::new(Slot { thread: link, running: Mutex::new(None) });
        SLOTS.lock().unwrap().push(s.clone());
        s
    };
    static JOURNAL: RefCell<Option<std::fs::File>> = RefCell::new(std::env::var_os("VH_JOURNAL").and_then(|d| {
        let name = std::fs::read_link("/proc/thread-self").ok()?.file_name()?.to_owned();
        std::fs::File::create(std::path::Path::new(&d).join(name)).ok()
    }));
}

/// Processor seconds the thread has used.
fn thread_cpu(link: &str) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/{link}/stat")).ok()?;
    let f: Vec<&str> = s[s.rfind(')')? + 2..].split(' ').collect();
    Some((f[11].parse::<f64>().ok()? + f[12].parse::<f64>().ok()?) / 100.0)
}

/// The case, if any, that has kept a thread busy for too long: over `cpu` processor seconds, or `wall` seconds of any kind.
pub fn stuck(prop: &str, cpu: f64, wall: f64) -> Option<Failure> {
    let slots = SLOTS.lock().unwrap().clone();
    for s in slots {
        let mut r = s.running.lock().unwrap();
        let Some(r) = r.as_mut() else { continue };
        let el = r.since.elapsed().as_secs_f64();
        if el < 5.0 {
            continue;
        }
        let Some(now) = thread_cpu(&s.thread) else { continue };
        if r.cpu_at_start < 0.0 {
            r.cpu_at_start = now;
        }
        let used = now - r.cpu_at_start;
        if used >= cpu || el >= wall {
            return Some(Failure {
                property: prop.into(),
                facet: r.facet.into(),
                message: format!("does not end: still running after {el:.0} s ({used:.0} s of processor time)"),
                // SAFETY: see Running
                case: unsafe { (r.json)(r.case) },
            });
        }
    }
    None
}

fn guarded_check<C: Case>(prop_facet: (&str, &'static str), check: fn(&C) -> CheckResult, c: &C) -> CheckResult {
    unsafe fn json<C: Case>(p: *const ()) -> serde_json::Value {
        serde_json::to_value(unsafe { &*(p as *const C) }).unwrap()
    }
    JOURNAL.with(|j| {
        if let Some(f) = j.borrow_mut().as_mut() {
            use std::io::{Seek, Write};
            let s = serde_json::json!({ "property": prop_facet.0, "facet": prop_facet.1, "message": "ends the process", "case": c }).to_string();
            f.rewind().and_then(|_| f.write_all(s.as_bytes())).and_then(|_| f.set_len(s.len() as u64)).expect("journal");
        }
    });
    let t = std::time::Instant::now();
    let run = Running { facet: prop_facet.1, case: c as *const C as *const (), json: json::<C>, since: t, cpu_at_start: -1.0 };
    SLOT.with(|s| *s.running.lock().unwrap() = Some(run));
    let r = guarded(|| check(c));
    SLOT.with(|s| *s.running.lock().unwrap() = None);
    if t.elapsed().as_secs() >= 2 && std::env::var_os("VH_SLOW").is_some() {
        eprintln!("slow case ({:.1} s): {c:?}", t.elapsed().as_secs_f64());
    }
    match r {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {}", p.replace('\n', " "))),
    }
}

pub struct PropFacet<C: Case> {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub shrink_iters: u32,
    pub strat: fn() -> BoxedStrategy<C>,
    pub check: fn(&C) -> CheckResult,
}

fn seed_bytes(ctx: &Ctx, facet: &str, thread: usize) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut x = ctx.seed ^ 0x9E37_79B9_7F4A_7C15;
    for b in ctx.prop.bytes().chain(facet.bytes()) {
        x = (x ^ b as u64).wrapping_mul(0x100_0000_01B3);
    }
    x ^= (thread as u64).wrapping_mul(0xD1B5_4A32_D192_ED03);
    for c in out.chunks_mut(8) {
        // splitmix64
        x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        c.copy_from_slice(&(z ^ (z >> 31)).to_le_bytes());
    }
    out
}

impl<C: Case> Facet for PropFacet<C> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn run(&self, ctx: &Ctx) -> Report {
        let total = match ctx.tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        };
        let total = ((total as f64) * ctx.scale).ceil() as u64;
        // a fixed number of independent streams, so the cases do not depend on the machine
        const STREAMS: u64 = 8;
        let per = (total + STREAMS - 1) / STREAMS;
        let next = AtomicU64::new(0);
        let reports: Mutex<Vec<(u64, Report)>> = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for _ in 0..ctx.threads {
                sc.spawn(|| loop {
                    let s = next.fetch_add(1, Ordering::SeqCst);
                    if s >= STREAMS {
                        break;
                    }
                    let r = self.stream(ctx, s as usize, per);
                    reports.lock().unwrap().push((s, r));
                });
            }
        });
        let mut reports = reports.into_inner().unwrap();
        reports.sort_by_key(|r| r.0);
        let mut rep = Report { facet: self.name, rule: self.rule, ..Default::default() };
        for (_, r) in reports {
            rep.merge(r);
        }
        rep
    }
    fn replay(&self, case: &serde_json::Value) -> CheckResult {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| format!("bad replay: {e}"))?;
        guarded_check(("", self.name), self.check, &c)
    }
}

impl<C: Case> PropFacet<C> {
    fn stream(&self, ctx: &Ctx, s: usize, cases: u64) -> Report {
        let cfg = Config {
            cases: cases as u32,
            failure_persistence: None,
            max_shrink_iters: self.shrink_iters,
            max_shrink_time: 60_000,
            max_global_rejects: 0,
            verbose: 0,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(ctx, self.name, s));
        let mut runner = TestRunner::new_with_rng(cfg, rng);
        let rep = RefCell::new(Report::default());
        let failing = AtomicBool::new(false);
        let first: RefCell<Option<(C, String)>> = RefCell::new(None);
        let res = runner.run(&(self.strat)(), |c| {
            let r = guarded_check((ctx.prop, self.name), self.check, &c);
            match r {
                Ok(info) => {
                    if !failing.load(Ordering::Relaxed) {
                        rep.borrow_mut().note(&c, &info);
                    }
                    Ok(())
                }
                Err(m) => {
                    if !failing.swap(true, Ordering::Relaxed) {
                        rep.borrow_mut().evaluations += 1;
                        *first.borrow_mut() = Some((c.clone(), m.clone()));
                    }
                    Err(TestCaseError::fail(m))
                }
            }
        });
        let mut rep = rep.into_inner();
        match res {
            Ok(()) => {}
            Err(TestError::Fail(_, c)) => {
                // confirm outside the library, on the shrunk case itself
                let (case, message) = match guarded_check((ctx.prop, self.name), self.check, &c) {
                    Err(m) => (c, m),
                    Ok(_) => {
                        // depends on something besides the case (history, schedule): give the original one
                        let (c, m) = first.into_inner().unwrap();
                        (c, format!("{m} (the smaller case did not fail again: not reproducible from the case alone)"))
                    }
                };
                rep.failure = Some(Failure {
                    property: ctx.prop.into(),
                    facet: self.name.into(),
                    message,
                    case: serde_json::to_value(&case).unwrap(),
                });
            }
            Err(e) => {
                eprintln!("ERROR: generator of {} aborted: {e}", self.name);
                std::process::exit(3);
            }
        }
        rep
    }
}

/// A finite family of cases enumerated by index.
pub struct SweepFacet<C: Case> {
    pub name: &'static str,
    pub rule: &'static str,
    pub count: fn(&Ctx) -> u64,
    pub exhaustive: bool,
    pub case: fn(u64, &Ctx) -> C,
    pub check: fn(&C) -> CheckResult,
}

impl<C: Case> Facet for SweepFacet<C> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn run(&self, ctx: &Ctx) -> Report {
        let n = (self.count)(ctx);
        let next = AtomicU64::new(0);
        let worst = Arc::new(AtomicU64::new(u64::MAX));
        let chunk = (n / (ctx.threads as u64 * 16)).clamp(1, 65536);
        let reports: Mutex<Vec<(u64, Report)>> = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for _ in 0..ctx.threads {
                sc.spawn(|| {
                    let mut rep = Report::default();
                    let mut first = u64::MAX;
                    'outer: loop {
                        let a = next.fetch_add(chunk, Ordering::SeqCst);
                        if a >= n || a > worst.load(Ordering::Relaxed) {
                            break;
                        }
                        for i in a..(a + chunk).min(n) {
                            let c = (self.case)(i, ctx);
                            match guarded_check((ctx.prop, self.name), self.check, &c) {
                                Ok(info) => rep.note(&c, &info),
                                Err(message) => {
                                    rep.evaluations += 1;
                                    worst.fetch_min(i, Ordering::Relaxed);
                                    first = i;
                                    rep.failure = Some(Failure {
                                        property: ctx.prop.into(),
                                        facet: self.name.into(),
                                        message,
                                        case: serde_json::to_value(&c).unwrap(),
                                    });
                                    break 'outer;
                                }
                            }
                        }
                    }
                    reports.lock().unwrap().push((first, rep));
                });
            }
        });
        let mut reports = reports.into_inner().unwrap();
        reports.sort_by_key(|r| r.0);
        let mut rep = Report { facet: self.name, rule: self.rule, exhaustive: self.exhaustive, ..Default::default() };
        for (_, r) in reports {
            rep.merge(r);
        }
        rep
    }
    fn replay(&self, case: &serde_json::Value) -> CheckResult {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| format!("bad replay: {e}"))?;
        guarded_check(("", self.name), self.check, &c)
    }
}

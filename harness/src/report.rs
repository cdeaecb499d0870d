//! Run context: budgets, worker pool, evidence, verdict.
use crate::util::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub start: Instant,
    pub budget: Duration,
    pub verif: PathBuf,
    pub only_case: Option<u64>,
    pub only_stream: Option<String>,
    pub stop: AtomicBool,
    deadline: Mutex<Duration>,
    inner: Mutex<Inner>,
    known: Vec<(String, String, String)>, // property, signature, what
}
#[derive(Default)]
struct Inner {
    evals: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<Value>,
    violations: Vec<(String, Value)>,
    known_hit: BTreeMap<String, String>,
    errors: Vec<String>,
}

/// Reports slow cases on request.
struct Slow<'a>(&'a Ctx, &'a str, u64, Instant);
impl Drop for Slow<'_> {
    fn drop(&mut self) {
        if std::env::var("VERIF_SLOW").is_ok() && self.3.elapsed().as_secs() >= 3 {
            eprintln!("slow: {} {} case {} took {:?}", self.0.id, self.1, self.2, self.3.elapsed());
        }
    }
}

impl Ctx {
    pub fn new(id: &str) -> Ctx {
        let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1) as u64;
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let budget = std::env::var("VERIF_BUDGET_S")
            .ok()
            .and_then(|s| s.parse::<u64>().ok())
            .unwrap_or(if thorough {
                600
            } else if ["C12", "C13", "C14"].contains(&id) {
                40
            } else {
                25
            });
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(verif.join("known_findings.json")) {
            let v: Value = serde_json::from_str(&s).expect("known_findings.json");
            for e in v["findings"].as_array().unwrap() {
                if e["status"] == "known" {
                    known.push((
                        e["property"].as_str().unwrap().to_string(),
                        e["signature"].as_str().unwrap().to_string(),
                        e["what"].as_str().unwrap().to_string(),
                    ));
                }
            }
        }
        Ctx {
            id: id.into(),
            seed,
            thorough,
            start: Instant::now(),
            budget: Duration::from_secs(budget),
            verif,
            only_case: None,
            only_stream: None,
            stop: AtomicBool::new(false),
            deadline: Mutex::new(Duration::from_secs(budget)),
            inner: Mutex::new(Inner::default()),
            known,
        }
    }
    pub fn rng(&self, stream: &str, case: u64) -> Rng {
        Rng::new(mix(mix(self.seed, hash(self.id.as_bytes())), mix(hash(stream.as_bytes()), case)))
    }
    pub fn time_left(&self) -> bool {
        self.start.elapsed() < *self.deadline.lock().unwrap() && !self.stop.load(Ordering::Relaxed)
    }
    /// The next streams may use the budget up to this fraction.
    pub fn phase(&self, fraction: f64) {
        *self.deadline.lock().unwrap() = self.budget.mul_f64(fraction);
    }
    /// one monitored execution
    pub fn eval(&self, n: u64) {
        self.inner.lock().unwrap().evals += n;
    }
    pub fn count(&self, k: &str, n: u64) {
        if n == 0 {
            return;
        }
        *self.inner.lock().unwrap().counters.entry(k.to_string()).or_default() += n;
    }
    pub fn counts(&self, m: &BTreeMap<&'static str, u64>) {
        let mut i = self.inner.lock().unwrap();
        for (k, n) in m {
            *i.counters.entry(k.to_string()).or_default() += n;
        }
    }
    pub fn distinct(&self, h: u64) {
        self.inner.lock().unwrap().distinct.insert(h);
    }
    pub fn sample(&self, v: Value) {
        let mut i = self.inner.lock().unwrap();
        if i.samples.len() < 12 {
            i.samples.push(v);
        }
    }
    /// the harness itself failed: no verdict
    pub fn error(&self, s: String) {
        let mut i = self.inner.lock().unwrap();
        if i.errors.len() < 20 {
            i.errors.push(s);
        }
    }
    pub fn violation(&self, sig: String, detail: Value) {
        let mut i = self.inner.lock().unwrap();
        if let Some(k) = self.known.iter().find(|k| k.0 == self.id && k.1 == sig) {
            i.known_hit.insert(k.1.clone(), k.2.clone());
            return;
        }
        if i.violations.iter().any(|v| v.0 == sig) {
            return;
        }
        i.violations.push((sig, detail));
        if i.violations.len() >= 5 && std::env::var("VERIF_KEEP_GOING").is_err() {
            self.stop.store(true, Ordering::Relaxed);
        }
    }
    pub fn violated(&self) -> bool {
        !self.inner.lock().unwrap().violations.is_empty()
    }
    /// Runs cases 0..n on all cores while time is left. `f` gets the case number.
    pub fn par(&self, stream: &str, n: u64, f: impl Fn(u64, &mut Rng) + Sync) {
        if let Some(c) = self.only_case {
            if self.only_stream.as_deref().map_or(false, |s| s != stream) {
                return;
            }
            f(c, &mut self.rng(stream, c));
            return;
        }
        let next = AtomicU64::new(0);
        let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16);
        std::thread::scope(|s| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(s, || {
                        while self.time_left() {
                            let c = next.fetch_add(1, Ordering::Relaxed);
                            if c >= n {
                                break;
                            }
                            let mut rng = self.rng(stream, c);
                            let t0 = Instant::now();
                            let slow = Slow(self, stream, c, t0);
                            let _slow = slow;
                            if let Err(e) = catch(|| f(c, &mut rng)) {
                                self.error(format!("{stream} case {c}: harness panic: {e}"));
                            }
                        }
                    })
                    .unwrap();
            }
        });
    }
    /// Writes the evidence, prints the verdict, returns the exit code.
    pub fn finish(&self, rule: &str, min_evals: u64, assumptions: &[&str]) -> i32 {
        let i = self.inner.lock().unwrap();
        let ev_dir = self.verif.join("evidence");
        let rp_dir = ev_dir.join("replay");
        std::fs::create_dir_all(&rp_dir).unwrap();
        let mut lines = vec![];
        for (k, (sig, d)) in i.violations.iter().enumerate() {
            let p = rp_dir.join(format!("{}-{}.json", self.id, k));
            let v = json!({"property": self.id, "seed": self.seed, "tier": if self.thorough {"thorough"} else {"quick"}, "signature": sig, "detail": d});
            std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).unwrap();
            lines.push(format!("VIOLATION property={} replay={}", self.id, p.display()));
            lines.push(format!("  {sig}"));
        }
        let mut cov = json!({
            "evaluations": i.evals,
            "distinct_nontrivial": i.distinct.len(),
            "rule": rule,
            "samples": i.samples,
        });
        for (k, v) in &i.counters {
            cov[k] = json!(v);
        }
        let e = json!({
            "property": self.id,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": self.seed as i64,
            "level": "exploration",
            "coverage": cov,
            "assumptions": assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": i.violations.len(),
        });
        std::fs::write(ev_dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&e).unwrap() + "\n").unwrap();
        for (sig, what) in &i.known_hit {
            println!("KNOWN-FINDING: property={} {} [{}]", self.id, what, sig);
        }
        for l in &lines {
            println!("{l}");
        }
        println!(
            "{}: {} evaluations, {} distinct non-trivial, {} violations, {:.1} s; {}",
            self.id,
            i.evals,
            i.distinct.len(),
            i.violations.len(),
            self.start.elapsed().as_secs_f64(),
            i.counters.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" ")
        );
        for e in &i.errors {
            println!("harness error: {e}");
        }
        if !i.violations.is_empty() {
            return 1;
        }
        if !i.errors.is_empty() {
            return 3;
        }
        if self.only_case.is_none() && (i.evals < min_evals || i.distinct.is_empty()) {
            println!("inconclusive: only {} evaluations (need {min_evals})", i.evals);
            return 3;
        }
        0
    }
}

// ---------------------------------------------------------------- hangs and aborts

/// The call each worker is in: what and since when.
static CALLS: Mutex<Vec<(u64, Instant, String)>> = Mutex::new(Vec::new());
static CALL_SEQ: AtomicU64 = AtomicU64::new(1);
pub struct InCall(u64);
/// Marks a call into the code under test, so that a call that never returns or kills the process can be named.
pub fn in_call(what: &str) -> InCall {
    let id = CALL_SEQ.fetch_add(1, Ordering::Relaxed);
    CALLS.lock().unwrap().push((id, Instant::now(), what.to_string()));
    if std::env::var("VH_INNER").is_ok() {
        if let Ok(d) = std::env::var("VH_SCRATCH") {
            let _ = std::fs::write(format!("{d}/call-{:?}", std::thread::current().id()), what);
        }
    }
    InCall(id)
}
impl Drop for InCall {
    fn drop(&mut self) {
        CALLS.lock().unwrap().retain(|c| c.0 != self.0);
    }
}
const HANG_S: u64 = 150;
pub fn watchdog(ctx: &Ctx) {
    let total = ctx.budget + Duration::from_secs(600);
    loop {
        std::thread::sleep(Duration::from_secs(1));
        let stuck = CALLS.lock().unwrap().iter().find(|c| c.1.elapsed().as_secs() > HANG_S).map(|c| c.2.clone());
        if let Some(w) = stuck {
            let code = if ["C02", "C12", "A03"].contains(&ctx.id.as_str()) {
                ctx.violation(format!("a call does not return: {w}"), json!({"call": w, "seconds": HANG_S}));
                ctx.finish("stopped: a call into the code under test did not return", 0, &[])
            } else {
                println!("inconclusive: a call does not return: {w}");
                3
            };
            std::process::exit(code);
        }
        if ctx.start.elapsed() > total {
            println!("inconclusive: out of time");
            std::process::exit(3);
        }
    }
}
/// Runs the check in a child process and reports it when the child is killed by a signal.
pub fn supervise(id: &str, args: &[String]) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let st = std::process::Command::new(std::env::current_exe().unwrap()).args(args).env("VH_INNER", "1").status().unwrap();
    if let Some(sig) = st.signal() {
        let mut calls = vec![];
        if let Ok(d) = std::env::var("VH_SCRATCH") {
            for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
                if e.file_name().to_string_lossy().starts_with("call-") {
                    calls.push(std::fs::read_to_string(e.path()).unwrap_or_default());
                }
            }
        }
        if sig == 9 {
            println!("inconclusive: the check was killed");
            return 3;
        }
        let ctx = Ctx::new(id);
        ctx.violation(
            format!("the process was ended by signal {sig} during a call"),
            json!({"signal": sig, "last_calls_of_the_workers": calls}),
        );
        return ctx.finish("stopped: the process crashed", 0, &[]);
    }
    st.code().unwrap_or(3)
}

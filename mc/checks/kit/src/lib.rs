//! Shared machinery of every check: tiers, counting, evidence, known findings, verdicts, and the
//! bounded explorer. See DESIGN.md.
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

pub mod big;
pub mod explore;
pub mod lattice;
pub use rayon;
pub use serde_json;

pub fn verif_dir() -> String { std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()) }

pub struct Violation { pub key: String, pub text: String, pub replay: Value }

/// One run of one property's check.
pub struct Check {
    pub property: String,
    pub thorough: bool,
    pub seed: u64,
    t0: Instant,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    samples: Mutex<Vec<Value>>,
    sections: Mutex<BTreeMap<String, Value>>,
    violations: Mutex<Vec<Violation>>,
    nviol: AtomicU64,
    assumptions: Mutex<Vec<String>>,
    exhaustive: AtomicBool,
    known: Vec<(String, String)>,
    known_seen: Mutex<BTreeMap<String, u64>>,
    /// wall-clock cap in seconds for the engines (a capped run says so and is not "exhaustive")
    pub cap: f64,
}

static WHY: Mutex<String> = Mutex::new(String::new());
static HOOK: std::sync::Once = std::sync::Once::new();
thread_local! { static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; static LAST: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

/// Silence the panic message of code run through [`guarded`] and keep its text.
pub fn install_hook() {
    HOOK.call_once(|| {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            let quiet = QUIET.with(|q| q.get());
            LAST.with(|l| *l.borrow_mut() = i.to_string());
            if !quiet { if let Ok(mut w) = WHY.lock() { if w.is_empty() { *w = i.to_string() } } old(i) }
        }));
    });
}

/// Run `f`; a panic in the code under test comes back as `Err(message)`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    install_hook();
    let before = QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(before));
    r.map_err(|_| LAST.with(|l| l.borrow().clone()))
}

impl Check {
    pub fn new(property: &str) -> Self {
        install_hook();
        let a: Vec<String> = std::env::args().collect();
        let tier = std::env::var("VERIF_TIER").unwrap_or_default();
        let thorough = a.iter().any(|x| x == "--thorough") || (tier == "thorough" && !a.iter().any(|x| x == "--quick"));
        let cap = std::env::var("MC_CAP").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 3000.0 } else { 240.0 });
        Check {
            property: property.into(),
            thorough,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            t0: Instant::now(),
            states: 0.into(),
            transitions: 0.into(),
            traces: 0.into(),
            samples: Default::default(),
            sections: Default::default(),
            violations: Default::default(),
            nviol: 0.into(),
            assumptions: Default::default(),
            exhaustive: true.into(),
            known: known(&verif_dir(), property),
            known_seen: Default::default(),
            cap,
        }
    }
    /// `q` in the quick tier, `t` in the thorough one.
    pub fn pick<T>(&self, q: T, t: T) -> T { if self.thorough { t } else { q } }
    pub fn elapsed(&self) -> f64 { self.t0.elapsed().as_secs_f64() }
    pub fn add_states(&self, n: u64) { self.states.fetch_add(n, Relaxed); }
    pub fn add_transitions(&self, n: u64) { self.transitions.fetch_add(n, Relaxed); }
    pub fn add_traces(&self, n: u64) { self.traces.fetch_add(n, Relaxed); }
    pub fn sample(&self, v: Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 40 { s.push(v) }
    }
    pub fn section(&self, name: &str, v: Value) { self.sections.lock().unwrap().insert(name.into(), v); }
    pub fn assume(&self, s: &str) { self.assumptions.lock().unwrap().push(s.into()); }
    pub fn not_exhaustive(&self) { self.exhaustive.store(false, Relaxed); }
    pub fn stop(&self) -> bool { self.nviol.load(Relaxed) >= 64 }
    pub fn out_of_time(&self) -> bool { self.elapsed() > self.cap }

    /// `key` identifies the failing input / call site / history for the known-findings file.
    pub fn violation(&self, key: impl Into<String>, text: impl Into<String>, replay: Value) {
        let key = key.into();
        if self.known.iter().any(|(k, _)| *k == key) {
            *self.known_seen.lock().unwrap().entry(key).or_insert(0) += 1;
            return;
        }
        self.nviol.fetch_add(1, Relaxed);
        let mut v = self.violations.lock().unwrap();
        if v.len() < 64 { v.push(Violation { key, text: text.into(), replay }) }
    }

    /// Write evidence, print the verdict and exit.
    pub fn finish(self) -> ! {
        let dir = verif_dir();
        let vs = self.violations.lock().unwrap();
        let fresh: Vec<&Violation> = vs.iter().collect();
        let seen = self.known_seen.lock().unwrap();
        for (k, w) in self.known.iter().filter(|(k, _)| seen.contains_key(k)) {
            println!("KNOWN-FINDING: property={} {} (key {})", self.property, w, k);
        }
        let wall = self.elapsed();
        let mut cov: Map<String, Value> = Map::new();
        cov.insert("states".into(), json!(self.states.load(Relaxed)));
        cov.insert("transitions".into(), json!(self.transitions.load(Relaxed)));
        cov.insert("traces_validated_against_impl".into(), json!(self.traces.load(Relaxed)));
        cov.insert("samples".into(), json!(*self.samples.lock().unwrap()));
        cov.insert("exhaustive".into(), json!(self.exhaustive.load(Relaxed)));
        if !seen.is_empty() { cov.insert("known_findings".into(), json!(*seen)); }
        for (k, v) in self.sections.lock().unwrap().iter() { cov.insert(k.clone(), v.clone()); }
        let ev = json!({
            "property": self.property, "tier": if self.thorough {"thorough"} else {"quick"}, "seed": self.seed,
            "level": "model_checking", "coverage": cov, "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": wall, "violations": fresh.len(),
        });
        let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
        std::fs::write(format!("{dir}/evidence/{}.json", self.property), serde_json::to_string_pretty(&ev).unwrap())
            .expect("evidence file");
        println!(
            "{}: states={} transitions={} traces={} wall={:.1}s",
            self.property, self.states.load(Relaxed), self.transitions.load(Relaxed), self.traces.load(Relaxed), wall
        );
        if fresh.is_empty() && (self.states.load(Relaxed) == 0 || self.transitions.load(Relaxed) == 0) {
            eprintln!("{}: vacuous run (no states or no transitions)", self.property);
            std::process::exit(3);
        }
        if fresh.is_empty() { std::process::exit(0) }
        let rd = format!("{dir}/replays");
        let _ = std::fs::create_dir_all(&rd);
        for (i, v) in fresh.iter().enumerate().take(8) {
            let p = format!("{rd}/{}-{}.json", self.property, i);
            let body = json!({"property": self.property, "key": v.key, "what": v.text, "replay": v.replay});
            let _ = std::fs::write(&p, serde_json::to_string_pretty(&body).unwrap());
            println!("VIOLATION property={} replay={}", self.property, p);
            println!("  [{}] {}", v.key, v.text);
        }
        std::process::exit(1)
    }
}

/// A check that cannot go on (a start state that the code under test no longer lets it build, a panic where the tree as
/// it was had none) has found a violation as well: it ends here, while the panic unwinds.
impl Drop for Check {
    fn drop(&mut self) {
        if !std::thread::panicking() { return }
        let why = WHY.lock().map(|w| w.clone()).unwrap_or_default();
        let rd = format!("{}/replays", verif_dir());
        let _ = std::fs::create_dir_all(&rd);
        let p = format!("{rd}/{}-0.json", self.property);
        let body = json!({"property": self.property, "key": "cannot go on", "what": why, "replay": null});
        let _ = std::fs::write(&p, serde_json::to_string_pretty(&body).unwrap());
        println!("VIOLATION property={} replay={}", self.property, p);
        println!("  [cannot go on] {why}");
        std::process::exit(1)
    }
}

fn known(dir: &str, prop: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(format!("{dir}/KNOWN_FINDINGS.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| {
            let mut it = l.splitn(3, ' ');
            let p = it.next()?.strip_prefix("property=")?;
            let k = it.next()?.strip_prefix("key=")?;
            (p == prop).then(|| (k.to_string(), it.next().unwrap_or("").to_string()))
        })
        .collect()
}

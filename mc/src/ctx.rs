//! Per-check bookkeeping: coverage counters, violations, known findings, evidence.

use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A property violation: `key` classifies what fails (matched against the
/// known-findings file), `detail` says what was observed, `replay` reproduces it.
#[derive(Clone, Debug)]
pub struct Violation {
    pub key: String,
    pub detail: String,
    pub replay: Value,
}

/// How long a check goes on after its first violation.
const AFTER_VIOLATION: Duration = Duration::from_secs(20);

pub struct Ctx {
    pub property: String,
    pub tier: Tier,
    pub seed: u64,
    start: Instant,
    states: AtomicU64,
    transitions: AtomicU64,
    executions: AtomicU64,
    outcomes: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<Value>>,
    sections: Mutex<BTreeMap<String, Value>>,
    assumptions: Mutex<Vec<String>>,
    violations: Mutex<BTreeMap<String, Violation>>,
    known_seen: Mutex<BTreeMap<String, Violation>>,
    known: BTreeMap<String, String>,
    caps: Mutex<BTreeSet<String>>,
    stop: AtomicBool,
    first: std::sync::OnceLock<Instant>,
    pub replaying: bool,
    pub level: std::sync::OnceLock<String>,
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("VERIF_DIR").map_or_else(|| "/verif".into(), Into::into)
}

/// `known property=<id> key=<key> :: description`
fn load_known(property: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let p = verif_dir().join("known-findings.txt");
    if let Ok(s) = std::fs::read_to_string(p) {
        for l in s.lines() {
            let l = l.trim();
            let Some(rest) = l.strip_prefix("known: property=") else { continue };
            let Some((id, rest)) = rest.split_once(' ') else { continue };
            if id != property {
                continue;
            }
            let Some(rest) = rest.trim_start().strip_prefix("key=") else { continue };
            let (key, desc) = rest.split_once(" :: ").unwrap_or((rest, ""));
            m.insert(key.trim().to_string(), desc.trim().to_string());
        }
    }
    m
}

impl Ctx {
    pub fn new(property: &str, tier: Tier, replaying: bool) -> Self {
        Ctx {
            property: property.to_string(),
            tier,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            start: Instant::now(),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            executions: AtomicU64::new(0),
            outcomes: Mutex::new(HashSet::new()),
            samples: Mutex::new(Vec::new()),
            sections: Mutex::new(BTreeMap::new()),
            assumptions: Mutex::new(Vec::new()),
            violations: Mutex::new(BTreeMap::new()),
            known_seen: Mutex::new(BTreeMap::new()),
            known: load_known(property),
            caps: Mutex::new(BTreeSet::new()),
            stop: AtomicBool::new(false),
            first: std::sync::OnceLock::new(),
            replaying,
            level: std::sync::OnceLock::new(),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// Pick a bound by tier.
    pub fn by<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    pub fn add_states(&self, n: u64) {
        self.states.fetch_add(n, Ordering::Relaxed);
    }
    pub fn add_transitions(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }
    pub fn add_executions(&self, n: u64) {
        self.executions.fetch_add(n, Ordering::Relaxed);
    }
    pub fn hash(s: &str) -> u64 {
        use std::hash::{Hash, Hasher};
        #[allow(deprecated)]
        let mut h = std::hash::SipHasher::new();
        s.hash(&mut h);
        h.finish()
    }
    pub fn outcome(&self, s: &str) {
        self.outcome_hash(Self::hash(s));
    }
    pub fn outcome_hash(&self, h: u64) {
        self.outcomes.lock().unwrap().insert(h);
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            s.push(v);
        }
    }
    pub fn section(&self, name: &str, v: Value) {
        self.sections.lock().unwrap().insert(name.to_string(), v);
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    pub fn cap(&self, s: &str) {
        self.caps.lock().unwrap().insert(s.to_string());
    }
    pub fn elapsed(&self) -> Duration {
        self.start.elapsed()
    }
    pub fn stopped(&self) -> bool {
        // Enough is known some time after the first violation.
        self.stop.load(Ordering::Relaxed) || self.first.get().is_some_and(|t| t.elapsed() > AFTER_VIOLATION)
    }
    pub fn is_known(&self, key: &str) -> bool {
        self.known.contains_key(key)
    }
    pub fn violation(&self, key: &str, detail: impl Into<String>, replay: Value) {
        let v = Violation { key: key.to_string(), detail: detail.into(), replay };
        if self.known.contains_key(key) {
            self.known_seen.lock().unwrap().entry(key.to_string()).or_insert(v);
            return;
        }
        self.first.get_or_init(Instant::now);
        let mut m = self.violations.lock().unwrap();
        m.entry(key.to_string()).or_insert(v);
        if m.len() >= 25 {
            self.stop.store(true, Ordering::Relaxed);
        }
    }
    pub fn has_violation(&self, key: &str) -> bool {
        self.violations.lock().unwrap().contains_key(key)
            || self.known_seen.lock().unwrap().contains_key(key)
    }
    /// Keys already reported (violations and known findings).
    pub fn keys(&self) -> Vec<String> {
        let mut v: Vec<String> = self.violations.lock().unwrap().keys().cloned().collect();
        v.extend(self.known_seen.lock().unwrap().keys().cloned());
        v
    }
    pub fn violations(&self) -> Vec<Violation> {
        self.violations.lock().unwrap().values().cloned().collect()
    }

    /// Print verdict lines, write replay artefacts and the evidence file.
    pub fn finish(&self, level: &str) -> i32 {
        let vs = self.violations();
        for (k, v) in self.known_seen.lock().unwrap().iter() {
            let d = self.known.get(k).cloned().unwrap_or_default();
            println!("KNOWN-FINDING: property={} [{}] {}", self.property, k, if d.is_empty() { &v.detail } else { &d });
        }
        for c in self.caps.lock().unwrap().iter() {
            println!("CAP: {c}");
        }
        if !vs.is_empty() {
            let dir = verif_dir().join("work/replays");
            let _ = std::fs::create_dir_all(&dir);
            for (i, v) in vs.iter().enumerate() {
                let path = dir.join(format!("{}-{}.json", self.property, i));
                let body = json!({"property": self.property, "key": v.key, "detail": v.detail, "replay": v.replay});
                let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
                println!("VIOLATION property={} replay={}", self.property, path.display());
                println!("  key={}\n  {}", v.key, v.detail.replace('\n', "\n  "));
            }
        }
        let outcomes = self.outcomes.lock().unwrap().len();
        let mut cov = serde_json::Map::new();
        cov.insert("states".into(), json!(self.states.load(Ordering::Relaxed)));
        cov.insert("transitions".into(), json!(self.transitions.load(Ordering::Relaxed)));
        cov.insert("traces_validated_against_impl".into(), json!(self.executions.load(Ordering::Relaxed)));
        cov.insert("distinct_outcomes".into(), json!(outcomes));
        cov.insert("exhaustive".into(), json!(self.caps.lock().unwrap().is_empty()));
        cov.insert("caps_hit".into(), json!(*self.caps.lock().unwrap()));
        cov.insert("sections".into(), json!(*self.sections.lock().unwrap()));
        cov.insert("known_findings_seen".into(), json!(self.known_seen.lock().unwrap().keys().collect::<Vec<_>>()));
        cov.insert("samples".into(), json!(*self.samples.lock().unwrap()));
        let ev = json!({
            "property": self.property,
            "tier": if self.thorough() {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": level,
            "coverage": Value::Object(cov),
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": self.elapsed().as_secs_f64(),
            "violations": vs.len(),
        });
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", self.property)), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
        println!(
            "{} {}: executions={} states={} transitions={} outcomes={} violations={} wall={:.1}s",
            self.property,
            if self.thorough() { "thorough" } else { "quick" },
            self.executions.load(Ordering::Relaxed),
            self.states.load(Ordering::Relaxed),
            self.transitions.load(Ordering::Relaxed),
            outcomes,
            vs.len(),
            self.elapsed().as_secs_f64()
        );
        i32::from(!vs.is_empty())
    }
}

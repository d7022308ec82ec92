//! Case context: counters, violations, worker protocol.
use crate::rng::{hash_str, mix, Rng};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::time::Duration;

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Cx {
    pub prop: String,
    pub seed: u64,
    pub tier: Tier,
    pub case: u64,
    pub r: Rng,
    pub verbose: bool,
    pub evals: u64,
    pub events: u64,
    pub sigs: HashSet<u64>,
    pub samples: Vec<Value>,
    pub counts: BTreeMap<String, u64>,
    pub violations: u64,
    pub known: BTreeMap<String, u64>,
    sampled: u64,
}

pub fn emit(tag: &str, v: &Value) {
    let s = format!("{tag} {v}\n");
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = o.write_all(s.as_bytes());
    let _ = o.flush();
}

impl Cx {
    pub fn new(prop: &str, seed: u64, tier: Tier) -> Cx {
        Cx {
            prop: prop.into(),
            seed,
            tier,
            case: 0,
            r: Rng::new(0),
            verbose: false,
            evals: 0,
            events: 0,
            sigs: HashSet::new(),
            samples: vec![],
            counts: BTreeMap::new(),
            violations: 0,
            known: BTreeMap::new(),
            sampled: 0,
        }
    }
    pub fn start(&mut self, case: u64) {
        self.case = case;
        self.r = Rng::new(mix(self.seed) ^ mix(hash_str(&self.prop)) ^ mix(case.wrapping_mul(0x51_7c_c1)));
        emit("S", &json!(case));
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// The first cases hold a stall or an idle time of many seconds (milliseconds, 0 otherwise):
    /// what takes its time is not broken.
    pub fn long_ms(&self) -> u64 {
        let t: [u64; 8] = match self.tier {
            Tier::Quick => [61_500, 61_500, 61_500, 11_000, 31_500, 61_500, 21_000, 61_500],
            Tier::Thorough => [121_000, 121_000, 121_000, 12_000, 61_500, 121_000, 91_000, 46_000],
        };
        // the tools that slow everything down have cases of their own
        if std::env::var("BSPMON_TOOL").is_ok() {
            return 0;
        }
        t.get(self.case as usize).copied().unwrap_or(0)
    }
    /// One execution or input judged.
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    /// `n` events observed by the monitor.
    pub fn evt(&mut self, n: usize) {
        self.events += n as u64;
    }
    /// The case was non-trivial, and this identifies it.
    pub fn sig(&mut self, s: &str) {
        if self.sigs.len() < 60_000 {
            self.sigs.insert(hash_str(s));
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.into()).or_default() += n;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        self.sampled += 1;
        // samples at exponentially spaced positions
        if self.sampled.is_power_of_two() && self.samples.len() < 6 {
            let v = f();
            self.samples.push(json!({ "case": self.case, "sample": crate::view::short(&v.to_string(), 600) }));
        }
    }
    pub fn violation(&mut self, msg: impl Into<String>, detail: Value) {
        self.violations += 1;
        if self.violations <= 20 {
            let d = detail.to_string();
            let d = if d.len() > 20_000 { json!(crate::view::short(&d, 20_000)) } else { detail };
            emit("V", &json!({ "case": self.case, "msg": msg.into(), "detail": d }));
        }
    }
    /// A failing input identified by `key`, which the driver compares with the known findings.
    pub fn finding(&mut self, key: &str, msg: impl Into<String>, detail: Value) {
        emit("K", &json!({ "case": self.case, "key": key, "msg": msg.into(), "detail": detail }));
    }
    /// Something did not happen in time; the process state is unknown now.
    pub fn stall(&mut self, msg: impl Into<String>) -> ! {
        emit("T", &json!({ "case": self.case, "msg": msg.into() }));
        self.report();
        std::process::exit(70)
    }
    pub fn harness_error(&mut self, msg: impl Into<String>) {
        let msg = msg.into();
        // the library could not open a connection: judged like a stall, by trying again
        if msg.starts_with("Connection::") {
            self.stall(msg);
        }
        emit("H", &json!({ "case": self.case, "msg": msg }));
    }
    pub fn report(&mut self) {
        let sigs: Vec<String> = self.sigs.iter().map(|s| format!("{s:x}")).collect();
        emit(
            "R",
            &json!({
                "evals": self.evals, "events": self.events, "sigs": sigs, "samples": self.samples,
                "counts": self.counts, "violations": self.violations,
            }),
        );
    }
}

/// Ends the process as stalled unless it is dropped in time.
pub struct Guard(std::sync::mpsc::Sender<()>);

pub fn guard(case: u64, limit: Duration, what: String) -> Guard {
    let (tx, rx) = std::sync::mpsc::channel::<()>();
    std::thread::spawn(move || {
        if rx.recv_timeout(limit) == Err(std::sync::mpsc::RecvTimeoutError::Timeout) {
            emit("T", &json!({ "case": case, "msg": format!("{what}: not finished after {limit:?}") }));
            std::process::exit(70)
        }
    });
    Guard(tx)
}

/// How long an operation that must finish may take (generous: the sandbox may be busy).
pub fn wait() -> Duration {
    let s = std::env::var("BSPMON_WAIT").ok().and_then(|s| s.parse().ok()).unwrap_or(20);
    Duration::from_secs(s)
}

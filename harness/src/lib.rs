//! Monitor runtime shared by every property checker.
//!
//! A checker drives the real RustQuant code, and an independent oracle observes each call.
//! The outcome is three-valued: an oracle disagreement is a violation (exit 1 + VIOLATION line),
//! a harness fault is inconclusive (exit 2), otherwise the property held on what was explored.
#![allow(clippy::all)]
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub mod civil;
pub mod jet;
pub mod num;
pub mod rng;
pub use rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

struct Viol {
    sig: String,
    detail: String,
    count: u64,
}

/// What the watchdog looks at: the guarded call in progress, if any.
struct InFlight {
    started: Option<Instant>,
    what: String,
}

pub struct Ctx {
    pub prop: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub rng: Rng,
    rule: String,
    assumptions: Vec<String>,
    start: Instant,
    viols: BTreeMap<String, Viol>,
    known: BTreeMap<String, String>,
    known_hit: BTreeMap<String, u64>,
    evals: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    sample_keys: HashSet<String>,
    inflight: Arc<Mutex<InFlight>>,
    scale: u64,
}

pub fn verif_dir() -> String {
    std::env::var("RQMON_DIR").unwrap_or_else(|_| "/verif".to_string())
}

/// How many times the basic workload the quick tier runs: the cheap checkers do more.
fn boost(prop: &str) -> u64 {
    match prop {
        "C30" => 20,
        "C06" | "C08" | "C14" | "C26" | "C31" => 8,
        "C04" | "C07" | "C13" | "C15" | "C16" | "C21" | "C32" | "C33" => 6,
        "C11" | "C12" | "C17" | "C18" | "C25" => 4,
        "C02" | "C05" | "C19" | "C23" => 3,
        "C01" => 2,
        _ => 1,
    }
}

fn fnv(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Ctx {
    pub fn new(prop: &'static str, rule: &str) -> Self {
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
        let inflight = Arc::new(Mutex::new(InFlight { started: None, what: String::new() }));
        // Watchdog: a guarded call that normally takes milliseconds and is still running after
        // the limit does not terminate; the run is reported from here because it cannot return.
        let limit = if tier == Tier::Quick { 150 } else { 600 };
        let w = inflight.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let g = w.lock().unwrap();
            if let Some(t) = g.started {
                if t.elapsed() > Duration::from_secs(limit) {
                    let path = write_replay(prop, seed, tier, &[(format!("hang:{}", g.what), format!("call still running after {limit} s"), 1)]);
                    println!("VIOLATION property={prop} replay={path}");
                    println!("  hang: {} still running after {limit} s", g.what);
                    std::process::exit(1);
                }
            }
        });
        std::panic::set_hook(Box::new(|_| {}));
        let mut known = BTreeMap::new();
        if let Ok(txt) = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())) {
            for l in txt.lines() {
                // known: property=<id> sig=<signature> | <what fails>
                if let Some(rest) = l.strip_prefix("known: property=") {
                    let mut it = rest.splitn(2, ' ');
                    let p = it.next().unwrap_or("");
                    let r = it.next().unwrap_or("");
                    if p == prop {
                        if let Some(r) = r.strip_prefix("sig=") {
                            let mut h = r.splitn(2, " | ");
                            let sig = h.next().unwrap_or("").trim().to_string();
                            let what = h.next().unwrap_or("").trim().to_string();
                            known.insert(sig, what);
                        }
                    }
                }
            }
        }
        Ctx {
            prop,
            tier,
            seed,
            rng: Rng::new(seed ^ fnv(prop)),
            rule: rule.to_string(),
            assumptions: vec![],
            start: Instant::now(),
            viols: BTreeMap::new(),
            known,
            known_hit: BTreeMap::new(),
            evals: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            samples: vec![],
            sample_keys: HashSet::new(),
            inflight,
            scale: boost(prop) * if tier == Tier::Thorough { 12 } else { 1 },
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }
    /// Workload size: `q` in the quick tier, scaled up in the thorough one.
    pub fn n(&self, q: u64) -> u64 {
        q * self.scale
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.rng.u64())
    }
    /// One evaluated case; `key` identifies it (for the distinct count).
    pub fn case(&mut self, class: &str, key: &str) {
        self.evals += 1;
        *self.counters.entry(class.to_string()).or_insert(0) += 1;
        if self.distinct.len() < 5_000_000 {
            self.distinct.insert(fnv(key) ^ fnv(class).rotate_left(17));
        }
        if self.samples.len() < 40 && self.sample_keys.insert(class.to_string()) {
            self.samples.push(format!("{class}: {key}"));
        }
    }
    /// An evaluation that is trivial by the rule (counted, not as distinct).
    pub fn trivial(&mut self, class: &str) {
        self.evals += 1;
        *self.counters.entry(class.to_string()).or_insert(0) += 1;
    }
    pub fn count(&mut self, k: &str, by: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += by;
    }
    pub fn counter(&self, k: &str) -> u64 {
        *self.counters.get(k).unwrap_or(&0)
    }
    pub fn violate(&mut self, sig: &str, detail: impl FnOnce() -> String) {
        if self.known.contains_key(sig) {
            *self.known_hit.entry(sig.to_string()).or_insert(0) += 1;
            return;
        }
        if let Some(v) = self.viols.get_mut(sig) {
            v.count += 1;
            return;
        }
        let d = detail();
        self.viols.insert(sig.to_string(), Viol { sig: sig.to_string(), detail: d, count: 1 });
    }
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.violate(sig, detail);
        }
        ok
    }
    /// |got-want| <= atol + rtol*|want|; NaN never passes unless both are NaN; infinities must match.
    pub fn close(&mut self, got: f64, want: f64, atol: f64, rtol: f64, sig: &str, detail: impl FnOnce() -> String) -> bool {
        let ok = num::close(got, want, atol, rtol);
        if !ok {
            self.violate(sig, || format!("{} got={got:e} want={want:e} atol={atol:e} rtol={rtol:e}", detail()));
        }
        ok
    }
    /// Run a call into the code under test: a panic is caught and returned as Err.
    pub fn call<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
        {
            let mut g = self.inflight.lock().unwrap();
            g.started = Some(Instant::now());
            g.what.clear();
            g.what.push_str(what);
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        self.inflight.lock().unwrap().started = None;
        r.map_err(|e| {
            if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else {
                "panic".to_string()
            }
        })
    }
    /// As `call`, where a panic is itself a violation.
    pub fn guard<T>(&mut self, sig: &str, detail: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Option<T> {
        match self.call(sig, f) {
            Ok(v) => Some(v),
            Err(e) => {
                self.violate(&format!("panic:{sig}"), || format!("{} panicked: {e}", detail()));
                None
            }
        }
    }
    pub fn finish(self) -> ! {
        let wall = self.start.elapsed().as_secs_f64();
        let tier = if self.tier == Tier::Quick { "quick" } else { "thorough" };
        let mut j = String::new();
        j.push_str("{\n");
        j.push_str(&format!("  \"property\": {},\n  \"tier\": \"{tier}\",\n  \"seed\": {},\n  \"level\": \"exploration\",\n", jstr(self.prop), self.seed));
        j.push_str("  \"coverage\": {\n");
        j.push_str(&format!("    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n", self.evals, self.distinct.len(), jstr(&self.rule)));
        let s: Vec<String> = self.samples.iter().map(|x| jstr(&x.chars().take(300).collect::<String>())).collect();
        j.push_str(&format!("    \"samples\": [{}],\n", s.join(", ")));
        let c: Vec<String> = self.counters.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect();
        j.push_str(&format!("    \"observed\": {{{}}},\n", c.join(", ")));
        let k: Vec<String> = self.known_hit.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect();
        j.push_str(&format!("    \"known_findings_seen\": {{{}}}\n  }},\n", k.join(", ")));
        let a: Vec<String> = self.assumptions.iter().map(|x| jstr(x)).collect();
        j.push_str(&format!("  \"assumptions\": [{}],\n  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n", a.join(", "), wall, self.viols.len()));
        let dir = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        if std::fs::write(format!("{dir}/{}.json", self.prop), j).is_err() {
            println!("INCONCLUSIVE property={} evidence not writable", self.prop);
            std::process::exit(2);
        }
        for (sig, what) in &self.known {
            if let Some(n) = self.known_hit.get(sig) {
                println!("KNOWN-FINDING: property={} {} ({} observations of {})", self.prop, what, n, sig);
            }
        }
        if !self.viols.is_empty() {
            let list: Vec<_> = self.viols.values().map(|v| (v.sig.clone(), v.detail.clone(), v.count)).collect();
            let path = write_replay(self.prop, self.seed, self.tier, &list);
            println!("VIOLATION property={} replay={path}", self.prop);
            for v in self.viols.values().take(25) {
                println!("  [{}] x{}: {}", v.sig, v.count, v.detail.chars().take(400).collect::<String>());
            }
            std::process::exit(1);
        }
        if self.evals == 0 {
            println!("INCONCLUSIVE property={} observed nothing", self.prop);
            std::process::exit(2);
        }
        println!("OK property={} tier={tier} seed={} evaluations={} distinct={} wall={wall:.1}s", self.prop, self.seed, self.evals, self.distinct.len());
        std::process::exit(0)
    }
}

fn write_replay(prop: &str, seed: u64, tier: Tier, v: &[(String, String, u64)]) -> String {
    let dir = format!("{}/evidence/replay", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}.txt");
    let t = if tier == Tier::Quick { "quick" } else { "thorough" };
    let mut s = format!("replay: cd /verif && VERIF_SEED={seed} VERIF_TIER={t} ./check.sh {prop}\n");
    for (sig, d, n) in v {
        s.push_str(&format!("[{sig}] seen {n} times; first: {d}\n"));
    }
    let _ = std::fs::write(&path, s);
    path
}

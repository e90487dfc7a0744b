//! Drives proptest deterministically, in parallel, with shrinking; keeps the measured coverage;
//! writes evidence and replay files.
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

/// What one case tells about itself when the property held.
#[derive(Default, Clone)]
pub struct Info {
    pub nontrivial: bool,
    pub labels: Vec<String>,
}
pub fn ok(nontrivial: bool) -> Result<Info, String> {
    Ok(Info { nontrivial, labels: vec![] })
}
pub fn okl(nontrivial: bool, labels: &[&str]) -> Result<Info, String> {
    Ok(Info { nontrivial, labels: labels.iter().map(|s| s.to_string()).collect() })
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
}

pub struct Ctx {
    pub property: &'static str,
    pub seed: u64,
    pub thorough: bool,
    pub replay: Option<(String, Value)>,
    pub threads: usize,
    stats: Mutex<BTreeMap<String, Stats>>,
    pub violations: Mutex<Vec<(String, Value, String)>>,
    pub known: Vec<String>,
    pub findings: Mutex<Vec<String>>,
    pub start: std::time::Instant,
    pub only: Option<String>,
}

fn mix(seed: u64, name: &str, worker: u64) -> [u8; 32] {
    use sha2::{Digest, Sha256};
    let mut h = Sha256::new();
    h.update(seed.to_le_bytes());
    h.update(name.as_bytes());
    h.update(worker.to_le_bytes());
    h.finalize().into()
}

pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}

impl Ctx {
    pub fn new(property: &'static str, seed: u64, thorough: bool, replay: Option<(String, Value)>) -> Self {
        Ctx {
            property,
            seed,
            thorough,
            replay,
            threads: std::env::var("VERIF_THREADS")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(8)),
            stats: Default::default(),
            violations: Default::default(),
            known: vec![],
            findings: Default::default(),
            start: std::time::Instant::now(),
            only: std::env::var("VERIF_ONLY").ok(),
        }
    }

    /// Number of cases: quick as given, thorough multiplied (VERIF_DIV: fewer, for experiments).
    pub fn n(&self, quick: usize) -> usize {
        if let Some(d) = std::env::var("VERIF_DIV").ok().and_then(|s| s.parse::<usize>().ok()) {
            (quick / d).max(16.min(quick))
        } else if self.thorough {
            quick * 12
        } else {
            quick
        }
    }

    /// One executable check: `f` over `cases` generated inputs. Stops at the first failing case of
    /// each worker, shrinks it, and reports the one of the lowest-numbered worker.
    pub fn check<S, F>(&self, name: &str, cases: usize, make: impl Fn() -> S + Sync, f: F)
    where
        S: Strategy,
        S::Value: Serialize + DeserializeOwned + Debug + Clone,
        F: Fn(&S::Value) -> Result<Info, String> + Sync,
    {
        let run = |v: &S::Value| -> Result<Info, String> {
            match quiet(|| f(v)) {
                Ok(r) => r,
                Err(p) => Err(format!("panicked: {}", p)),
            }
        };
        if let Some((n, v)) = &self.replay {
            if n == name {
                let v: S::Value = serde_json::from_value(v.clone()).expect("replay case does not parse");
                match run(&v) {
                    Ok(_) => println!("replay {}: property held", name),
                    Err(e) => {
                        println!("replay {}: {}", name, e);
                        self.violations.lock().unwrap().push((name.into(), serde_json::to_value(&v).unwrap(), e));
                    }
                }
            }
            return;
        }
        if let Some(o) = &self.only {
            if !name.contains(o.as_str()) {
                return;
            }
        }
        if !self.violations.lock().unwrap().is_empty() {
            return;
        }
        let t0 = std::time::Instant::now();
        // keeps an answer within the time a check is given, however slow the machine
        let limit = if self.thorough { u64::MAX } else { 540 };
        let workers = self.threads.min(cases.max(1));
        let stop = AtomicBool::new(false);
        let fails: Mutex<BTreeMap<usize, (Value, String)>> = Default::default();
        let all: Mutex<Stats> = Default::default();
        std::thread::scope(|sc| {
            for w in 0..workers {
                let (run, make, fails, all, stop) = (&run, &make, &fails, &all, &stop);
                let my = cases / workers + usize::from(w < cases % workers);
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, move || {
                        let cfg = Config { failure_persistence: None, ..Config::default() };
                        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &mix(self.seed, &format!("{}/{}", self.property, name), w as u64));
                        let mut tr = TestRunner::new_with_rng(cfg, rng);
                        let strat = make();
                        let mut st = Stats::default();
                        for i in 0..my {
                            if stop.load(Ordering::Relaxed) || self.start.elapsed().as_secs() > limit {
                                break;
                            }
                            let mut tree = strat.new_tree(&mut tr).expect("generator failed");
                            let case = tree.current();
                            st.evaluations += 1;
                            match run(&case) {
                                Ok(info) => {
                                    let js = serde_json::to_value(&case).unwrap();
                                    if info.nontrivial {
                                        let mut h = std::collections::hash_map::DefaultHasher::new();
                                        js.to_string().hash(&mut h);
                                        st.nontrivial.insert(h.finish());
                                    }
                                    for l in &info.labels {
                                        *st.labels.entry(l.clone()).or_default() += 1;
                                    }
                                    if w == 0 && st.samples.len() < 2 && info.nontrivial && i % 3 == 0 {
                                        st.samples.push(js);
                                    }
                                }
                                Err(e) => {
                                    let mut best = (case, e);
                                    let mut steps = 0;
                                    let t = std::time::Instant::now();
                                    let max = if std::env::var("VERIF_DIV").is_ok() { 0 } else { 400 };
                                    'shrink: while steps < max && t.elapsed().as_secs() < 60 && tree.simplify() {
                                        loop {
                                            steps += 1;
                                            let c = tree.current();
                                            match run(&c) {
                                                Err(e) => {
                                                    best = (c, e);
                                                    break;
                                                }
                                                Ok(_) => {
                                                    if steps >= max || !tree.complicate() {
                                                        break 'shrink;
                                                    }
                                                }
                                            }
                                        }
                                    }
                                    fails.lock().unwrap().insert(w, (serde_json::to_value(&best.0).unwrap(), best.1));
                                    stop.store(true, Ordering::Relaxed);
                                    break;
                                }
                            }
                        }
                        let mut a = all.lock().unwrap();
                        a.evaluations += st.evaluations;
                        a.nontrivial.extend(st.nontrivial);
                        for (k, v) in st.labels {
                            *a.labels.entry(k).or_default() += v;
                        }
                        a.samples.extend(st.samples);
                    })
                    .unwrap();
            }
        });
        let a = all.into_inner().unwrap();
        println!(
            "  {:<38} {:>7} cases, {:>7} distinct non-trivial, {:.1}s {}",
            name,
            a.evaluations,
            a.nontrivial.len(),
            t0.elapsed().as_secs_f64(),
            a.labels.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(" ")
        );
        self.stats.lock().unwrap().insert(name.to_string(), a);
        if let Some((_, (v, e))) = fails.into_inner().unwrap().into_iter().next() {
            println!("  FAIL {}: {}", name, e);
            self.violations.lock().unwrap().push((name.into(), v, e));
        }
    }

    /// For checks that run a plain loop of their own instead of a strategy.
    pub fn record(&self, name: &str, evaluations: u64, nontrivial: u64, labels: &[(String, u64)], samples: Vec<Value>) {
        let mut s = Stats { evaluations, samples, ..Default::default() };
        for i in 0..nontrivial {
            s.nontrivial.insert(i);
        }
        for (k, v) in labels {
            s.labels.insert(k.clone(), *v);
        }
        println!("  {:<38} {:>7} cases, {:>7} distinct non-trivial", name, evaluations, nontrivial);
        self.stats.lock().unwrap().insert(name.into(), s);
    }

    /// Writes evidence, prints verdict, returns the exit code.
    pub fn finish(&self, rule: &str, assumptions: &[&str], verif: &str) -> i32 {
        let viol = self.violations.lock().unwrap();
        let mut code = 0;
        if let Some((name, case, msg)) = viol.first() {
            code = 1;
            let path = if self.replay.is_some() {
                "(replay)".to_string()
            } else {
                let dir = format!("{}/replays", verif);
                std::fs::create_dir_all(&dir).ok();
                let p = format!("{}/{}-{}.json", dir, self.property, self.seed);
                std::fs::write(&p, serde_json::to_string_pretty(&json!({"property": self.property, "check": name, "message": msg, "case": case})).unwrap()).ok();
                p
            };
            println!("VIOLATION property={} replay={}", self.property, path);
        }
        if self.replay.is_some() {
            return code;
        }
        let stats = self.stats.lock().unwrap();
        let mut ev = 0;
        let mut nt = 0;
        let mut samples = vec![];
        let mut by = serde_json::Map::new();
        for (k, s) in stats.iter() {
            ev += s.evaluations;
            nt += s.nontrivial.len() as u64;
            for v in s.samples.iter().take(2) {
                let t = v.to_string();
                samples.push(if t.len() > 1200 { json!({"check": k, "case_truncated": t.chars().take(1200).collect::<String>()}) } else { json!({"check": k, "case": v}) });
            }
            by.insert(k.clone(), json!({"evaluations": s.evaluations, "distinct_nontrivial": s.nontrivial.len(), "classes": s.labels}));
        }
        samples.truncate(24);
        let e = json!({
            "property": self.property,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": "exploration",
            "coverage": {"evaluations": ev, "distinct_nontrivial": nt, "rule": rule, "samples": samples, "by_check": by},
            "assumptions": assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": viol.len(),
        });
        std::fs::create_dir_all(format!("{}/evidence", verif)).ok();
        std::fs::write(format!("{}/evidence/{}.json", verif, self.property), serde_json::to_string_pretty(&e).unwrap()).unwrap();
        println!("{}: {} cases, {} distinct non-trivial, {:.1}s, {}", self.property, ev, nt, self.start.elapsed().as_secs_f64(), if code == 0 { "held" } else { "VIOLATED" });
        code
    }
}

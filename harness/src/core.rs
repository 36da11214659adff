//! Runner shared by every property: seeded proptest search with shrinking,
//! replay files, evidence, known findings.
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{Serialize, de::DeserializeOwned};
use serde_json::{Value, json};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::time::Instant;

/// What one evaluated case was worth.
#[derive(Clone, Debug, Default)]
pub struct Info {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}
impl Info {
    pub fn new(nontrivial: bool) -> Self {
        Info { nontrivial, labels: vec![] }
    }
    pub fn label(mut self, on: bool, l: &'static str) -> Self {
        if on {
            self.labels.push(l);
        }
        self
    }
}
pub type Res = Result<Info, String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(serde::Deserialize, Clone, Debug)]
pub struct Known {
    pub property: String,
    pub sub: String,
    pub input: Value,
    pub what: String,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub level: &'static str,
    pub rule: String,
    pub assumptions: Vec<String>,
    replay: Option<(String, Value)>,
    replay_hit: bool,
    known: Vec<Known>,
    t0: Instant,
    evals: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, BTreeMap<String, u64>>,
    samples: Vec<Value>,
    violations: Vec<Value>,
    known_hits: Vec<String>,
    out_dir: std::path::PathBuf,
    pub shards: usize,
    pub hang_secs: u64,
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        PANIC_MSG.with(|p| *p.borrow_mut() = m.clone());
        if std::env::var_os("VERIF_PANICS").is_some() {
            eprintln!("{m}");
        }
    }));
}

/// Run `f`, turning a panic into an error text.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panic: {}", PANIC_MSG.with(|p| p.borrow().clone())))
}

fn eval<T>(f: &(impl Fn(&T) -> Res + Sync), v: &T) -> Res {
    match guard(|| f(v)) {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

pub fn h64(x: impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

impl Ctx {
    pub fn new(prop: &str, tier: Tier, seed: u64, replay: Option<(String, Value)>, known: Vec<Known>) -> Self {
        Ctx {
            prop: prop.into(),
            tier,
            seed,
            level: "exploration",
            rule: String::new(),
            assumptions: vec![],
            replay,
            replay_hit: false,
            known,
            t0: Instant::now(),
            evals: 0,
            nontrivial: HashSet::new(),
            labels: BTreeMap::new(),
            samples: vec![],
            violations: vec![],
            known_hits: vec![],
            out_dir: std::path::PathBuf::from(std::env::var("VERIF_OUT").unwrap_or("/verif/evidence".into())),
            shards: 8,
            hang_secs: 100,
        }
    }
    pub fn rule(&mut self, r: &str) {
        if !self.rule.is_empty() {
            self.rule.push_str("; ");
        }
        self.rule.push_str(r);
    }
    pub fn assume(&mut self, r: &str) {
        self.assumptions.push(r.into());
    }

    /// Like `check`, single threaded (for cases that touch process-wide state).
    pub fn check_serial<T, S>(&mut self, sub: &str, quick: u32, thorough: u32, strat: impl Fn() -> S + Sync, f: impl Fn(&T) -> Res + Sync)
    where
        T: Clone + Debug + Serialize + DeserializeOwned + Send + 'static,
        S: Strategy<Value = T>,
    {
        let s = self.shards;
        self.shards = 1;
        self.check(sub, quick, thorough, strat, f);
        self.shards = s;
    }

    /// Search `quick`/`thorough` generated cases for a failure of `f`.
    pub fn check<T, S>(&mut self, sub: &str, quick: u32, thorough: u32, strat: impl Fn() -> S + Sync, f: impl Fn(&T) -> Res + Sync)
    where
        T: Clone + Debug + Serialize + DeserializeOwned + Send + 'static,
        S: Strategy<Value = T>,
    {
        if let Some((s, v)) = &self.replay {
            if s == sub {
                self.replay_hit = true;
                let t: T = serde_json::from_value(v.clone()).expect("replay input does not decode");
                self.evals += 1;
                match eval(&f, &t) {
                    Ok(_) => println!("replay {sub}: holds"),
                    Err(e) => {
                        println!("replay {sub}: {e}\n  input: {v}");
                        self.violations.push(json!({"sub": sub, "message": e}));
                    }
                }
            }
            return;
        }
        for k in self.known.clone() {
            if k.property == self.prop && k.sub == sub {
                let t: T = serde_json::from_value(k.input.clone()).expect("known finding input does not decode");
                self.evals += 1;
                if eval(&f, &t).is_err() {
                    println!("KNOWN-FINDING: property={} {}", self.prop, k.what);
                    self.known_hits.push(k.what.clone());
                }
            }
        }
        let mut cases = match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        };
        if let Some(sc) = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
            cases = ((cases as f64 * sc) as u32).max(1);
        }
        if let Ok(only) = std::env::var("VERIF_SUB") {
            if only != sub {
                return;
            }
        }
        let t_sub = Instant::now();
        let shards = self.shards.min(cases as usize).max(1);
        // A case that never returns is reported as a violation by this watchdog.
        let slots: Vec<Mutex<Option<(Instant, T)>>> = (0..shards).map(|_| Mutex::new(None)).collect();
        let done = std::sync::atomic::AtomicBool::new(false);
        let limit = std::time::Duration::from_secs(self.hang_secs);
        struct Agg {
            evals: u64,
            nt: HashSet<u64>,
            labels: BTreeMap<String, u64>,
            samples: Vec<Value>,
        }
        let known_inputs: Vec<Value> =
            self.known.iter().filter(|k| k.property == self.prop && k.sub == sub).map(|k| k.input.clone()).collect();
        let results: Vec<(Agg, Option<(String, T)>)> = std::thread::scope(|sc| {
            let (prop, out_dir, seed0) = (self.prop.clone(), self.out_dir.clone(), self.seed);
            let (slots, done) = (&slots, &done);
            sc.spawn(move || {
                while !done.load(std::sync::atomic::Ordering::Relaxed) {
                    std::thread::sleep(std::time::Duration::from_millis(20));
                    for s in slots {
                        let g = s.lock().unwrap();
                        if let Some((t, v)) = &*g {
                            if t.elapsed() > limit {
                                let msg = format!("no result after {} s", limit.as_secs());
                                let p = write_replay(&out_dir, &prop, sub, seed0, &msg, v);
                                println!("FAIL {prop} {sub}: {msg}\n  input: {}", serde_json::to_string(v).unwrap());
                                println!("VIOLATION property={prop} replay={}", p.display());
                                std::process::exit(1);
                            }
                        }
                    }
                }
            });
            let mut hs = vec![];
            for shard in 0..shards {
                let n = cases / shards as u32 + u32::from((shard as u32) < cases % shards as u32);
                let (strat, f, known_inputs) = (&strat, &f, &known_inputs);
                let seed = h64((self.seed, &self.prop, sub, shard as u64));
                let h = std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let agg = Mutex::new(Agg { evals: 0, nt: HashSet::new(), labels: BTreeMap::new(), samples: vec![] });
                        let mut sb = [0u8; 32];
                        for i in 0..4 {
                            sb[i * 8..i * 8 + 8].copy_from_slice(&h64((seed, i)).to_le_bytes());
                        }
                        let cfg = Config {
                            cases: n,
                            failure_persistence: None,
                            max_shrink_iters: 20_000,
                            max_shrink_time: 45_000,
                            max_global_rejects: 100_000,
                            max_local_rejects: 1_000_000,
                            ..Config::default()
                        };
                        let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &sb));
                        let r = runner.run(&strat(), |v| {
                            *slots[shard].lock().unwrap() = Some((Instant::now(), v.clone()));
                            let out = eval(f, &v);
                            *slots[shard].lock().unwrap() = None;
                            match out {
                                Ok(info) => {
                                    let mut a = agg.lock().unwrap();
                                    a.evals += 1;
                                    for l in info.labels {
                                        *a.labels.entry(l.to_string()).or_default() += 1;
                                    }
                                    if info.nontrivial {
                                        let j = serde_json::to_string(&v).unwrap();
                                        if a.nt.insert(h64((sub, &j))) && a.samples.len() < 3 && j.len() < 1500 {
                                            a.samples.push(serde_json::from_str(&j).unwrap());
                                        }
                                    }
                                    Ok(())
                                }
                                Err(e) => {
                                    if known_inputs.iter().any(|k| *k == serde_json::to_value(&v).unwrap()) {
                                        return Ok(());
                                    }
                                    Err(TestCaseError::fail(e))
                                }
                            }
                        });
                        let fail = match r {
                            Ok(()) => None,
                            Err(TestError::Fail(reason, v)) => Some((reason.message().to_string(), v)),
                            Err(TestError::Abort(r)) => {
                                eprintln!("ERROR: generator aborted in {sub}: {r}");
                                std::process::exit(3);
                            }
                        };
                        (agg.into_inner().unwrap(), fail)
                    })
                    .unwrap();
                hs.push(h);
            }
            let r = hs.into_iter().map(|h| h.join().expect("shard thread")).collect();
            done.store(true, std::sync::atomic::Ordering::Relaxed);
            r
        });
        let mut first: Option<(String, T)> = None;
        let (mut ev, mut nt) = (0, 0);
        for (a, fail) in results {
            self.evals += a.evals;
            ev += a.evals;
            nt += a.nt.len();
            self.nontrivial.extend(a.nt);
            let m = self.labels.entry(sub.into()).or_default();
            for (k, v) in a.labels {
                *m.entry(k).or_default() += v;
            }
            for s in a.samples {
                if self.samples.iter().filter(|x| x["sub"] == sub).count() < 3 {
                    self.samples.push(json!({"sub": sub, "case": s}));
                }
            }
            if first.is_none() {
                first = fail;
            }
        }
        println!(
            "[{} {sub}] {ev} cases, {nt} non-trivial, {:.1}s {:?}",
            self.prop,
            t_sub.elapsed().as_secs_f64(),
            self.labels.get(sub).unwrap_or(&BTreeMap::new())
        );
        if let Some((reason, v)) = first {
            // message of the minimal case, re-evaluated
            let msg = match eval(&f, &v) {
                Err(e) => e,
                Ok(_) => format!("{reason} (not every time)"),
            };
            let p = write_replay(&self.out_dir, &self.prop, sub, self.seed, &msg, &v);
            println!("FAIL {} {sub}: {msg}\n  minimal input: {}", self.prop, serde_json::to_string(&v).unwrap());
            println!("VIOLATION property={} replay={}", self.prop, p.display());
            self.violations.push(json!({"sub": sub, "message": msg, "replay": p}));
        }
    }

    pub fn finish(self) -> i32 {
        if self.replay.is_some() {
            if !self.replay_hit {
                eprintln!("ERROR: replay names an unknown sub-check");
                return 3;
            }
            return if self.violations.is_empty() { 0 } else { 1 };
        }
        std::fs::create_dir_all(&self.out_dir).ok();
        let ev = json!({
            "property": self.prop,
            "tier": if self.tier == Tier::Quick {"quick"} else {"thorough"},
            "seed": self.seed,
            "level": self.level,
            "coverage": {
                "evaluations": self.evals,
                "distinct_nontrivial": self.nontrivial.len(),
                "rule": self.rule,
                "samples": self.samples,
                "distribution": self.labels,
            },
            "known_findings": self.known_hits,
            "assumptions": self.assumptions,
            "violations": self.violations.len(), "violation_details": self.violations,
            "wall_s": self.t0.elapsed().as_secs_f64(),
        });
        let p = self.out_dir.join(format!("{}.json", self.prop));
        std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        if self.violations.is_empty() { 0 } else { 1 }
    }
}

fn write_replay<T: Serialize>(out: &std::path::Path, prop: &str, sub: &str, seed: u64, msg: &str, v: &T) -> std::path::PathBuf {
    let dir = out.join("replays");
    std::fs::create_dir_all(&dir).ok();
    let p = dir.join(format!("{prop}-{sub}.json"));
    let body = json!({"property": prop, "sub": sub, "seed": seed, "message": msg, "input": v});
    std::fs::write(&p, serde_json::to_string_pretty(&body).unwrap()).unwrap();
    p
}

/// Generate one value (for ad-hoc exploration).
#[allow(dead_code)]
pub fn sample<S: Strategy>(s: S, seed: u64) -> S::Value {
    let mut sb = [0u8; 32];
    sb[..8].copy_from_slice(&seed.to_le_bytes());
    let mut r = TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &sb));
    s.new_tree(&mut r).unwrap().current()
}

//! Runs the suites of a property over several threads, shrinks the first failure and writes the
//! evidence and the replay file.
use crate::engine::{shrink, shrink_text, Rng, Src};
use crate::oracle::Seen;
use crate::trees::Dict;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Env {
    pub dict: Dict,
}

pub type Outcome = (Seen, String, Src);
pub type Run = Arc<dyn Fn(Src, u64, &Env) -> Outcome + Send + Sync>;

#[derive(Clone)]
pub struct Suite {
    pub name: &'static str,
    pub rule: &'static str,
    pub n: u64,
    /// the cases are enumerated, not drawn, and all of them are run
    pub exhaustive: bool,
    pub run: Run,
    /// an oracle that needs the text only: failures are shrunk as texts
    pub textual: Option<fn(&str) -> Seen>,
}

pub struct Failure {
    pub suite: usize,
    pub case: u64,
    pub tape: Vec<u32>,
    pub text: String,
    pub why: String,
    pub first_text: String,
    pub by_text: bool,
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub distinct: u64,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub per_suite: Vec<Value>,
    pub failure: Option<Failure>,
    pub wall: f64,
}

fn hash(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        return s.to_string();
    }
    let a: String = s.chars().take(n).collect();
    format!("{} … ({} characters)", a, s.chars().count())
}

/// the random stream of a case
pub fn stream(suite: &str, seed: u64, case: u64) -> Rng {
    Rng::new(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ hash(suite), case)
}

pub fn run(suites: &[Suite], env: &Arc<Env>, seed: u64, threads: usize, limit: Duration) -> Report {
    let start = Instant::now();
    let mut rep = Report::default();
    let mut distinct: HashSet<u64> = HashSet::new();
    for (k, suite) in suites.iter().enumerate() {
        let t0 = Instant::now();
        let next = Arc::new(AtomicU64::new(0));
        let stop = Arc::new(AtomicU64::new(u64::MAX));
        let late = Arc::new(AtomicBool::new(false));
        let fails: Arc<Mutex<BTreeMap<u64, (Vec<u32>, String, String)>>> = Default::default();
        let samples: Arc<Mutex<BTreeMap<u64, String>>> = Default::default();
        let mut hs = vec![];
        for t in 0..threads {
            let (suite, next, stop, late, fails, samples, env) =
                (suite.clone(), next.clone(), stop.clone(), late.clone(), fails.clone(), samples.clone(), env.clone());
            let h = std::thread::Builder::new()
                .name(format!("w{}", t))
                .stack_size(512 << 20)
                .spawn(move || {
                    crate::api::slot(t);
                    let mut n = 0u64;
                    let mut nt: HashSet<u64> = HashSet::new();
                    let mut classes: BTreeMap<&'static str, u64> = BTreeMap::new();
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= suite.n || i > stop.load(SeqCst) {
                            break;
                        }
                        if i % 16 == 0 && start.elapsed() > limit {
                            late.store(true, SeqCst);
                            break;
                        }
                        let (seen, text, src) = (suite.run)(Src::random(stream(suite.name, seed, i)), i, &env);
                        n += 1;
                        *classes.entry(seen.kind).or_default() += 1;
                        if seen.nontrivial {
                            nt.insert(hash(&text));
                            if i < 3000 {
                                let mut s = samples.lock().unwrap();
                                if s.len() < 4 {
                                    s.insert(i, clip(&text, 300));
                                }
                            }
                        }
                        if let Some(why) = seen.fail {
                            stop.fetch_min(i, SeqCst);
                            fails.lock().unwrap().insert(i, (src.tape(), text, why));
                        }
                    }
                    crate::api::idle();
                    (n, nt, classes)
                })
                .expect("thread");
            hs.push(h);
        }
        let mut n = 0;
        let mut here = HashSet::new();
        for h in hs {
            let (a, b, c) = h.join().unwrap_or_else(|_| {
                eprintln!("the harness itself panicked: {}", crate::api::LAST_PANIC.lock().unwrap());
                std::process::exit(4)
            });
            n += a;
            for x in b {
                here.insert(x);
            }
            for (kind, m) in c {
                *rep.classes.entry(format!("{}: {}", suite.name, kind)).or_default() += m;
            }
        }
        rep.evaluations += n;
        let nontrivial = here.len();
        distinct.extend(here);
        for (_, s) in samples.lock().unwrap().iter().take(3) {
            rep.samples.push(json!({"suite": suite.name, "case": s}));
        }
        rep.per_suite.push(json!({"suite": suite.name, "rule": suite.rule, "evaluations": n, "distinct_nontrivial": nontrivial,
            "enumerated_completely": suite.exhaustive && n == suite.n, "wall_s": t0.elapsed().as_secs_f64(), "stopped_by_time_limit": late.load(SeqCst)}));
        let first = fails.lock().unwrap().iter().next().map(|(i, f)| (*i, f.clone()));
        if let Some((case, (tape, text, why))) = first {
            rep.failure = Some(minimise(k, suite, env.clone(), case, tape, text, why));
            break;
        }
    }
    rep.distinct = distinct.len() as u64;
    rep.wall = start.elapsed().as_secs_f64();
    rep
}

/// the smallest failing case that can be found in a bounded time
fn minimise(k: usize, suite: &Suite, env: Arc<Env>, case: u64, tape: Vec<u32>, text: String, why: String) -> Failure {
    let suite = suite.clone();
    std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            crate::api::slot(0);
            let first = text.clone();
            let end = Instant::now() + Duration::from_secs(40);
            if let Some(o) = suite.textual {
                if o(&text).fail.is_some() {
                    let t = shrink_text(&text, 6000, &mut |t| Instant::now() < end && o(t).fail.is_some());
                    let why = o(&t).fail.unwrap_or(why);
                    crate::api::idle();
                    return Failure { suite: k, case, tape, text: t, why, first_text: first, by_text: true };
                }
            }
            let t = shrink(tape, 4000, &mut |t| Instant::now() < end && (suite.run)(Src::replay(t), case, &env).0.fail.is_some());
            let (seen, text, _) = (suite.run)(Src::replay(&t), case, &env);
            crate::api::idle();
            Failure { suite: k, case, tape: t, text, why: seen.fail.unwrap_or(why), first_text: first, by_text: false }
        })
        .unwrap()
        .join()
        .unwrap()
}

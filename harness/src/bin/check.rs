//! check <property> [quick|thorough]   runs the suites of a property
//! check replay <file>                 runs one recorded case again
//! The process that is started runs the suites in a child, so that a stack overflow, an abort, a
//! hang or a memory blow-up of the library is an outcome and not the end of the check.
use harness::runner::{self, Env, Suite};
use harness::{api, engine::Src, suites};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};
use std::sync::atomic::Ordering;
use std::sync::Arc;
use std::time::{Duration, Instant};

const HANG_S: u64 = 100;

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}
fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
fn tier() -> &'static str {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    }
}
fn replay_file(id: &str) -> PathBuf {
    verif().join("evidence").join(format!("{}.replay.json", id))
}
fn write(p: &Path, v: &Value) {
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, serde_json::to_string_pretty(v).unwrap()).unwrap();
}
fn env() -> Arc<Env> {
    Arc::new(Env { dict: harness::dict::from_sources() })
}
fn get(id: &str) -> Vec<Suite> {
    let k = match tier() {
        "thorough" => std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(12),
        _ => 1,
    };
    match suites::suites(id, k) {
        Some(v) => v,
        None => {
            eprintln!("no such property: {}", id);
            exit(2)
        }
    }
}

fn violation(id: &str) -> ! {
    println!("VIOLATION property={} replay={}", id, replay_file(id).display());
    exit(1)
}

fn worker(id: &str) {
    api::quiet_panics();
    api::now_ms();
    let id = id.to_string();
    {
        let id = id.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(2));
            let now = api::now_ms();
            for t in 0..64 {
                let s = api::SINCE[t].load(Ordering::Relaxed);
                if s != 0 && now.saturating_sub(s) > HANG_S * 1000 {
                    let text = api::read_slot(t).unwrap_or_default();
                    write(&replay_file(&id), &json!({"property": id, "suite": "any", "mode": "alone", "text": text,
                        "failure": format!("the library did not answer within {} s", HANG_S)}));
                    println!("{}: no answer within {} s for {:?}", id, HANG_S, runner::clip(&text, 300));
                    evidence(&id, &runner::Report::default(), 1);
                    violation(&id);
                }
            }
        });
    }
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(2, 16);
    let limit = Duration::from_secs(if tier() == "quick" { 400 } else { 6 * 3600 });
    let suites = get(&id);
    let rep = runner::run(&suites, &env(), seed(), threads, limit);
    evidence(&id, &rep, rep.failure.is_some() as u64);
    println!("{} {}: {} cases, {} distinct and non-trivial, {:.1} s", id, tier(), rep.evaluations, rep.distinct, rep.wall);
    if let Some(f) = &rep.failure {
        let s = &suites[f.suite];
        write(
            &replay_file(&id),
            &json!({"property": id, "suite": s.name, "tier": tier(), "seed": seed(), "case": f.case, "mode": if f.by_text { "text" } else { "tape" },
                "tape": f.tape, "text": f.text, "first_text": runner::clip(&f.first_text, 20000), "failure": f.why,
                "how": format!("/verif/run.sh replay {}", replay_file(&id).display())}),
        );
        println!("suite {:?}, case {}: {}\non {:?}", s.name, f.case, f.why, runner::clip(&f.text, 1500));
        violation(&id);
    }
}

fn evidence(id: &str, r: &runner::Report, violations: u64) {
    let rules: Vec<String> = r.per_suite.iter().map(|s| format!("{}: {}", s["suite"].as_str().unwrap(), s["rule"].as_str().unwrap())).collect();
    let v = json!({
        "property": id, "tier": tier(), "seed": seed(), "level": "exploration",
        "coverage": {
            "evaluations": r.evaluations,
            "distinct_nontrivial": r.distinct,
            "rule": format!("{} A case is non-trivial if {}. Distinct: by text. Suites — {}", harness::rules::made(), harness::rules::nontrivial(id), rules.join("; ")),
            "samples": r.samples,
            "suites": r.per_suite,
            "outcomes": r.classes,
        },
        "assumptions": harness::rules::assumptions(id),
        "wall_s": r.wall,
        "violations": violations,
    });
    write(&verif().join("evidence").join(format!("{}.json", id)), &v);
}

/// one text, alone in a process
fn one(file: &str) {
    api::quiet_panics();
    let t = std::fs::read_to_string(file).unwrap();
    let h = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            let _ = api::tokenize(&t);
            let _ = api::parse(&t);
        })
        .unwrap();
    h.join().unwrap();
}

/// does the library answer when it gets this text alone?
fn alone(scratch: &Path, text: &str, secs: u64) -> Result<(), String> {
    let f = scratch.join("alone.sql");
    std::fs::write(&f, text).unwrap();
    let mut c = Command::new("sh")
        .arg("-c")
        .arg("ulimit -S -v 24000000; ulimit -c 0; exec \"$0\" --one \"$1\"")
        .arg(std::env::current_exe().unwrap())
        .arg(&f)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let end = Instant::now() + Duration::from_secs(secs);
    loop {
        match c.try_wait().unwrap() {
            Some(s) if s.success() => return Ok(()),
            Some(s) => return Err(format!("the process that runs the library ended with {}", s)),
            None if Instant::now() > end => {
                let _ = c.kill();
                let _ = c.wait();
                return Err(format!("the library did not answer within {} s", secs));
            }
            None => std::thread::sleep(Duration::from_millis(20)),
        }
    }
}

fn parent(id: &str) {
    let scratch = std::env::temp_dir().join(format!("bq2cst-check-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let _ = std::fs::remove_file(replay_file(id));
    let st = Command::new("sh")
        .arg("-c")
        .arg("ulimit -S -v 24000000; ulimit -c 0; exec \"$0\" --worker \"$1\"")
        .arg(std::env::current_exe().unwrap())
        .arg(id)
        .env("CHECK_SCRATCH", &scratch)
        .status()
        .unwrap();
    let code = match st.code() {
        Some(c) => c,
        None => {
            // killed: which text did it?
            eprintln!("the process that runs the library ended with {}", st);
            let mut found = None;
            for t in 0..64 {
                std::env::set_var("CHECK_SCRATCH", &scratch);
                if let Some(text) = api::read_slot(t) {
                    if let Err(why) = alone(&scratch, &text, 60) {
                        let end = Instant::now() + Duration::from_secs(60);
                        let small = harness::engine::shrink_text(&text, 400, &mut |t| Instant::now() < end && alone(&scratch, t, 20).is_err());
                        found = Some((small, why));
                        break;
                    }
                }
            }
            match found {
                Some((text, why)) => {
                    write(&replay_file(id), &json!({"property": id, "suite": "any", "mode": "alone", "text": text, "failure": why}));
                    println!("{}: {}\non {:?}", id, why, runner::clip(&text, 1500));
                    let _ = std::fs::remove_dir_all(&scratch);
                    evidence(id, &runner::Report::default(), 1);
                    violation(id)
                }
                None => 3,
            }
        }
    };
    let _ = std::fs::remove_dir_all(&scratch);
    exit(code)
}

fn replay(file: &str) {
    api::quiet_panics();
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let id = v["property"].as_str().unwrap().to_string();
    let text = v["text"].as_str().unwrap().to_string();
    if v["mode"] == "alone" {
        let d = std::env::temp_dir().join(format!("bq2cst-replay-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        let r = alone(&d, &text, 120);
        let _ = std::fs::remove_dir_all(&d);
        match r {
            Ok(()) => println!("the library answers"),
            Err(w) => {
                println!("{}\non {:?}", w, text);
                exit(1)
            }
        }
        return;
    }
    let s = suites::suites(&id, 1).unwrap().into_iter().find(|s| s.name == v["suite"]).expect("no such suite");
    let tape: Vec<u32> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    let case = v["case"].as_u64().unwrap();
    let by_text = v["mode"] == "text";
    let e = env();
    let bad = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            let (seen, text) = if by_text {
                ((s.textual.unwrap())(&text), text)
            } else {
                let (seen, text, _) = (s.run)(Src::replay(&tape), case, &e);
                (seen, text)
            };
            println!("{}", text);
            match seen.fail {
                Some(f) => {
                    println!("FAILS: {}", f);
                    true
                }
                None => {
                    println!("holds");
                    false
                }
            }
        })
        .unwrap()
        .join()
        .unwrap();
    exit(bad as i32)
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.iter().map(|s| s.as_str()).collect::<Vec<_>>()[..] {
        ["--worker", id] => worker(id),
        ["--one", f] => one(f),
        ["replay", f] => replay(f),
        [id] => parent(id),
        _ => {
            eprintln!("usage: check <property> | replay <file>");
            exit(2)
        }
    }
}

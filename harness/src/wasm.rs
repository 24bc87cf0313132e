//! The WebAssembly build as a JavaScript user sees it: one Node.js process per thread runs
//! js/worker.js and answers a JSON text per line.
use crate::engine::Src;
use crate::oracle::Seen;
use crate::val::{to_val, Val};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Worker {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static WORKER: RefCell<Option<Worker>> = const { RefCell::new(None) };
}

fn dir() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var_os("VERIF_DIR").unwrap_or("/verif".into()))
}

fn start() -> Worker {
    let d = dir();
    // a WebAssembly memory reserves much more address space than it uses
    let mut child = Command::new("sh")
        .arg("-c")
        .arg("ulimit -S -v unlimited; exec node --expose-gc \"$0\" \"$@\"")
        .arg(d.join("harness/js/worker.js"))
        .arg(d.join("target/pkg"))
        .arg(d.join("target/types.json"))
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("node does not start");
    let to = child.stdin.take().unwrap();
    let from = BufReader::new(child.stdout.take().unwrap());
    Worker { child, to, from }
}

/// Err: the process ended
fn ask(q: &Value) -> Result<Value, String> {
    WORKER.with(|w| {
        let mut w = w.borrow_mut();
        let mut go = || -> std::io::Result<String> {
            let w = w.get_or_insert_with(start);
            w.to.write_all(q.to_string().as_bytes())?;
            w.to.write_all(b"\n")?;
            w.to.flush()?;
            let mut line = String::new();
            if w.from.read_line(&mut line)? == 0 {
                return Err(std::io::Error::other("it ended"));
            }
            Ok(line)
        };
        match go() {
            Ok(l) => {
                let mut d = serde_json::Deserializer::from_str(&l);
                d.disable_recursion_limit();
                let v: Value = serde::Deserialize::deserialize(&mut d).expect("the worker answers JSON");
                if let Some(b) = v.get("broken") {
                    panic!("worker.js: {}", b);
                }
                Ok(v)
            }
            Err(e) => {
                *w = None;
                Err(format!("the Node.js process: {}", e))
            }
        }
    })
}

fn guarded(text: &str, q: Value) -> Result<Value, String> {
    crate::api::enter(text);
    let r = ask(&q);
    crate::api::idle();
    r
}

// ----- C04: the build that users run has a small stack -----

pub fn alive(text: &str) -> Seen {
    match guarded(text, json!({"op": "alive", "text": text})) {
        Err(e) => Seen::fail("trap", e),
        Ok(v) => match v.get("trap") {
            Some(t) => Seen::fail("trap", format!("the WebAssembly build stops with {}", t)),
            None => Seen::pass(if v["ok"] == true { "accepted" } else { "rejected" }, text.len() > 1),
        },
    }
}

// ----- C19: the published types -----

pub fn types(text: &str) -> Seen {
    match guarded(text, json!({"op": "types", "text": text})) {
        Err(_) => Seen::pass("trap", false),
        Ok(v) => match (v["kind"].as_str(), v["fail"].as_str()) {
            (_, Some(f)) => Seen::fail("accepted", f.to_string()),
            (Some("accepted"), None) => Seen::pass("accepted", true),
            _ => Seen::pass("rejected", false),
        },
    }
}

// ----- C20: the same answers as the sources give natively, as plain data -----

fn normal(v: Val) -> Val {
    match v {
        // the position of the end of input: the largest number of the platform
        Val::Int(i) if i == u64::MAX as i128 => Val::Int(u32::MAX as i128),
        Val::Str(s) if s.contains("18446744073709551615") => Val::Str(s.replace("18446744073709551615", "4294967295")),
        Val::Seq(s) => Val::Seq(s.into_iter().map(normal).collect()),
        Val::Map(m) => {
            let mut m: Vec<(String, Val)> = m.into_iter().map(|(k, v)| (k, normal(v))).collect();
            m.sort_by(|a, b| a.0.cmp(&b.0));
            Val::Map(m)
        }
        v => v,
    }
}
fn first_difference(a: &Val, b: &Val, at: &str) -> Option<String> {
    match (a, b) {
        (Val::Seq(x), Val::Seq(y)) => {
            if x.len() != y.len() {
                return Some(format!("{} has {} elements in JavaScript, {} natively", at, x.len(), y.len()));
            }
            x.iter().zip(y).enumerate().find_map(|(i, (x, y))| first_difference(x, y, &format!("{}[{}]", at, i)))
        }
        (Val::Map(x), Val::Map(y)) => {
            let k = |m: &Vec<(String, Val)>| m.iter().map(|e| e.0.clone()).collect::<Vec<_>>();
            if k(x) != k(y) {
                return Some(format!("{} has the keys {:?} in JavaScript, {:?} natively", at, k(x), k(y)));
            }
            x.iter().zip(y).find_map(|(x, y)| first_difference(&x.1, &y.1, &format!("{}.{}", at, x.0)))
        }
        _ if a == b => None,
        _ => Some(format!("{} is {:?} in JavaScript, {:?} natively", at, a, b)),
    }
}

/// may this text exhaust the small stack of the WebAssembly build? (That it stands some dozen levels is C04.)
fn deep(text: &str) -> bool {
    let (mut d, mut max, mut words) = (0i64, 0, 0);
    for c in text.chars() {
        match c {
            '(' | '[' | '{' | '<' => d += 1,
            ')' | ']' | '}' | '>' => d -= 1,
            _ => (),
        }
        max = max.max(d);
    }
    for w in text.split(|c: char| !c.is_alphanumeric()) {
        let w = w.to_uppercase();
        words += matches!(w.as_str(), "SELECT" | "CASE" | "NOT" | "BEGIN" | "IF" | "LOOP" | "WHILE" | "REPEAT" | "FOR" | "WITH") as i64;
    }
    let operators = text.matches(['-', '+', '~', ':']).count() as i64;
    max + words + operators > 24
}

pub fn same(text: &str) -> Seen {
    let mut kind = "accepted";
    for f in ["tokenize", "parse"] {
        let native = {
            let t = text.to_string();
            let is_parse = f == "parse";
            crate::api::enter(text);
            let r = std::panic::catch_unwind(move || {
                if is_parse {
                    bq2cst::verif::parse(t).map(|v| to_val(&v).unwrap()).map_err(|e| to_val(&e).unwrap())
                } else {
                    bq2cst::verif::tokenize(t).map(|v| to_val(&v).unwrap()).map_err(|e| to_val(&e).unwrap())
                }
            });
            crate::api::idle();
            match r {
                Ok(r) => r,
                Err(_) => return Seen::pass("panic", false),
            }
        };
        let js = match guarded(text, json!({"op": "answer", "fn": f, "text": text})) {
            Ok(v) => v,
            Err(e) => return Seen::fail("trap", e),
        };
        if let Some(t) = js.get("trap") {
            let t = t.as_str().unwrap_or("");
            if deep(text) && (t.contains("out of bounds") || t.contains("call stack")) {
                return Seen::pass("too deep for the stack", false);
            }
            return Seen::fail("trap", format!("{} stops with {}, natively it answers", f, t));
        }
        if let Some(p) = js["plain"].as_str() {
            return Seen::fail(kind, format!("{}: {}", f, p));
        }
        let (n, j, thrown) = match (&native, js.get("ok"), js.get("err")) {
            (Ok(n), Some(j), None) => (n.clone(), j, false),
            (Err(n), None, Some(j)) => (n.clone(), j, true),
            (Ok(_), ..) => return Seen::fail(kind, format!("{} throws, natively it succeeds", f)),
            _ => return Seen::fail(kind, format!("{} returns a value, natively it is an error", f)),
        };
        let j = normal(Val::from_json(j));
        if thrown {
            kind = "rejected";
            // what a user reads from it
            let good = matches!((j.get("line"), j.get("column"), j.get("message")), (Some(Val::Int(_)), Some(Val::Int(_)), Some(Val::Str(m))) if !m.is_empty());
            if !good {
                return Seen::fail(kind, format!("{} throws {:?}", f, j));
            }
        }
        if let Some(d) = first_difference(&j, &normal(n), if thrown { "the error" } else { "the answer" }) {
            return Seen::fail(kind, format!("{}: {}", f, d));
        }
    }
    Seen::pass(kind, text.len() > 1)
}

// ----- C21: every call stands alone -----

pub fn history(calls: &[(bool, String)]) -> Seen {
    let list: Vec<Value> = calls.iter().map(|(p, t)| json!([if *p { "parse" } else { "tokenize" }, t])).collect();
    let distinct: std::collections::HashSet<&(bool, String)> = calls.iter().collect();
    match guarded(&calls.last().map_or(String::new(), |c| c.1.clone()), json!({"op": "history", "calls": list})) {
        Err(_) => Seen::pass("trap", false),
        Ok(v) => match v["fail"].as_str() {
            Some(f) => Seen::fail("differs", f.to_string()),
            None if v["kind"] == "trap" => Seen::pass("trap", false),
            None => Seen::pass("same", distinct.len() >= 2),
        },
    }
}

pub fn memory(calls: &[(bool, String)]) -> Seen {
    let list: Vec<Value> = calls.iter().map(|(p, t)| json!([if *p { "parse" } else { "tokenize" }, t])).collect();
    match guarded("", json!({"op": "memory", "calls": list})) {
        Err(_) => Seen::pass("trap", false),
        Ok(v) => match v["fail"].as_str() {
            Some(f) => Seen::fail("grows", f.to_string()),
            None => Seen::pass("steady", true),
        },
    }
}

/// a history of calls made from some texts: repetitions, both functions, slight variations
pub fn calls(s: &mut Src, texts: &[String], n: usize) -> Vec<(bool, String)> {
    let mut v: Vec<(bool, String)> = vec![];
    while v.len() < n {
        let mut f = s.chance(2, 3);
        let mut t = texts[s.below(texts.len() as u32) as usize].clone();
        if !v.is_empty() && s.chance(1, 2) {
            // what was asked before, mostly by the same function
            let (g, u) = v[v.len() - 1 - s.below(v.len().min(3) as u32) as usize].clone();
            t = u;
            if s.chance(3, 4) {
                f = g;
            }
        }
        let cs: Vec<char> = t.chars().collect();
        let k = s.below(cs.len() as u32 + 1) as usize;
        match s.pick(&[6, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2]) {
            1 => {
                // the same length, another text
                if let Some(c) = t.pop() {
                    t.push(if c == ' ' { ';' } else { ' ' });
                }
            }
            // cut off: mostly an error
            2 => t = cs[..k].iter().collect(),
            3 => t = if s.chance(1, 2) { t.to_uppercase() } else { t.to_lowercase() },
            4 => t = format!("{}{}{}", s.of(&["", " ", "\n  ", "\t"]), t, s.of(&["", " ", "\n", ";"])),
            5 => t = t.trim().to_string(),
            6 => {
                // one character more, less or different, anywhere
                let mut cs = cs;
                match s.below(3) {
                    0 => cs.insert(k, *s.of(&[' ', '\n', 'a', '1', ';', '('])),
                    1 if k < cs.len() => cs[k] = *s.of(&[' ', '\n', 'b', '2', ')', '\'']),
                    _ if k < cs.len() => {
                        cs.remove(k);
                    }
                    _ => (),
                }
                t = cs.iter().collect();
            }
            7 => t = t.split_whitespace().collect::<Vec<_>>().join(" "),
            8 => t = t.replace(' ', "  "),
            9 => t = t.replace(' ', " /* c */ "),
            10 if !cs.is_empty() => {
                // the same characters in another order, or the same sum
                let mut cs = cs;
                let a = s.below(cs.len() as u32) as usize;
                let b = s.below(cs.len() as u32) as usize;
                match s.below(3) {
                    0 => cs.swap(a, b),
                    1 => cs[a.min(b)..=a.max(b)].reverse(),
                    _ => {
                        let up = |c: char, d: i32| char::from_u32((c as i32 + d).max(32) as u32).unwrap_or(c);
                        cs[a] = up(cs[a], 1);
                        cs[b] = up(cs[b], -1);
                    }
                }
                t = cs.iter().collect();
            }
            _ => (),
        }
        v.push((f, t));
    }
    v
}
pub fn show(c: &[(bool, String)]) -> String {
    c.iter().map(|(p, t)| format!("{}({:?})", if *p { "parse" } else { "tokenize" }, t)).collect::<Vec<_>>().join("\n")
}

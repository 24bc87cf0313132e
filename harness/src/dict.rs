//! Literals that stand in the library's sources now and did not when the harness was written:
//! words, other strings, characters and numbers. A special case for some name, text or size has to
//! name it somewhere, so the generators draw from these too. They are ordinary input: whatever is
//! found here only steers generation, never a verdict.
use crate::trees::Dict;
use std::collections::BTreeSet;
use std::sync::{Arc, OnceLock};

#[derive(Default, Debug)]
pub struct Found {
    pub words: Vec<String>,
    pub bits: Vec<String>,
    pub numbers: Vec<u32>,
}

fn files(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(dir) {
        let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        v.sort();
        for p in v {
            let name = p.file_name().unwrap().to_string_lossy().to_string();
            if p.is_dir() {
                if name != "tests" {
                    files(&p, out);
                }
            } else if name.ends_with(".rs") && name != "tests.rs" && name != "types.rs" {
                out.push(p);
            }
        }
    }
}

/// string literals, character literals and numbers of a Rust source
fn scan(src: &str, out: &mut BTreeSet<String>) {
    let t: Vec<char> = src.chars().collect();
    let mut i = 0;
    let unescape = |s: &[char]| -> String {
        let mut o = String::new();
        let mut k = 0;
        while k < s.len() {
            if s[k] == '\\' && k + 1 < s.len() {
                k += 1;
                if s[k] == 'u' && s.get(k + 1) == Some(&'{') {
                    if let Some(e) = s[k..].iter().position(|c| *c == '}') {
                        let hex: String = s[k + 2..k + e].iter().filter(|c| **c != '_').collect();
                        o.extend(u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32));
                        k += e + 1;
                        continue;
                    }
                }
                o.push(match s[k] {
                    'n' => '\n',
                    't' => '\t',
                    'r' => '\r',
                    c => c,
                });
            } else {
                o.push(s[k]);
            }
            k += 1;
        }
        o
    };
    while i < t.len() {
        if t[i] == '/' && t.get(i + 1) == Some(&'/') {
            while i < t.len() && t[i] != '\n' {
                i += 1;
            }
        } else if t[i] == '"' {
            let mut j = i + 1;
            while j < t.len() && t[j] != '"' {
                j += if t[j] == '\\' { 2 } else { 1 };
            }
            out.insert(unescape(&t[i + 1..j.min(t.len())]));
            i = j + 1;
        } else if t[i] == '\'' && t.get(i + 2) == Some(&'\'') && t[i + 1] != '\\' {
            out.insert(t[i + 1].to_string());
            i += 3;
        } else if t[i] == '\'' && t.get(i + 1) == Some(&'\\') && t.get(i + 3) == Some(&'\'') {
            out.insert(unescape(&t[i + 1..i + 3]));
            i += 4;
        } else if t[i] == '\'' && t[i + 1..].starts_with(&['\\', 'u', '{']) && t[i..].iter().take(14).any(|c| *c == '}') {
            let e = i + t[i..].iter().position(|c| *c == '}').unwrap();
            out.insert(unescape(&t[i + 1..=e]));
            i = e + 2;
        } else if t[i].is_ascii_digit() && (i == 0 || !(t[i - 1].is_alphanumeric() || t[i - 1] == '_')) {
            let mut j = i;
            while j < t.len() && (t[j].is_ascii_alphanumeric() || t[j] == '_') {
                j += 1;
            }
            let s: String = t[i..j].iter().filter(|c| **c != '_').take_while(|c| c.is_ascii_digit()).collect();
            out.insert(format!("#{}", s));
            let all: String = t[i..j].iter().filter(|c| **c != '_').collect();
            if let Some(n) = all.strip_prefix("0x").and_then(|h| u32::from_str_radix(h, 16).ok()) {
                out.insert(format!("#{}", n));
            }
            i = j;
        } else {
            i += 1;
        }
    }
}

pub fn literals() -> BTreeSet<String> {
    let mut fs = vec![];
    files(std::path::Path::new("/repo/src"), &mut fs);
    let mut out = BTreeSet::new();
    for f in fs {
        scan(&std::fs::read_to_string(f).unwrap_or_default(), &mut out);
    }
    out
}

pub fn found() -> &'static Found {
    static F: OnceLock<Found> = OnceLock::new();
    F.get_or_init(|| {
        let old: BTreeSet<String> = serde_json::from_str(include_str!("../corpus/literals.json")).unwrap();
        let mut f = Found::default();
        for l in literals().difference(&old) {
            if let Some(n) = l.strip_prefix('#') {
                if let Ok(n) = n.parse::<u32>() {
                    if (4..=3000).contains(&n) {
                        f.numbers.push(n);
                    }
                    continue;
                }
            }
            let word = l.len() <= 60 && l.chars().all(|c| c == '_' || c.is_ascii_alphanumeric()) && !l.starts_with(|c: char| c.is_ascii_digit());
            if word && !l.is_empty() {
                f.words.push(l.clone());
            }
            if !l.is_empty() && l.len() <= 40 {
                f.bits.push(l.clone());
            }
        }
        f
    })
}

pub fn from_sources() -> Dict {
    Arc::new(found().words.clone())
}

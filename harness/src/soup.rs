//! Arbitrary texts: mutated examples, mutated generated scripts, token soup, character soup.
use crate::engine::Src;
use crate::gen::layout::{lay, Style};
use crate::gen::words::{known_words, UNI};
use crate::gen::{Mix, G};
use std::sync::{Arc, OnceLock};

pub fn corpus() -> &'static Vec<String> {
    static C: OnceLock<Vec<String>> = OnceLock::new();
    C.get_or_init(|| serde_json::from_str(include_str!("../corpus/corpus.json")).unwrap())
}

/// words and symbols, sorted, for token soup
pub fn vocabulary() -> &'static Vec<String> {
    static V: OnceLock<Vec<String>> = OnceLock::new();
    V.get_or_init(|| {
        let mut v: Vec<String> = known_words().iter().cloned().collect();
        v.sort();
        v
    })
}

const SYMBOLS: &[&str] = &[
    "(", ")", ",", ";", ".", "[", "]", "*", "-", "+", "/", "<", ">", "=", "<=", ">=", "<>", "!=", "<<", ">>", "||", "|", "|>", "&", "^", "~", "=>",
    ":", "?", "!", "%", "$", "{", "}", "@", "\\", "@@", "{1,2}", "\u{3000}",
];
const LITERALS: &[&str] = &[
    "1", "0", "1.5", ".5", "1e10", "1.", "1e", "'s'", "\"d\"", "'''m'''", "\"\"\"m\"\"\"", "''", "\"\"", "r'x'", "b\"y\"", "rb'z'", "`q`", "``", "@p",
    "@@v", "@`p`", "{{t}}", "{%b%}", "{}", "a", "x", "tbl", "proj-a", "true", "NULL", "é", "_x", "0xFF", "123abc", "-- c\n", "# c\n", "/* c */",
    "/**/", "-- c", "/*\n*/",
];
/// what decides how the lexer takes a ">" (and other multi-character beginnings)
const OPENERS: &[&str] = &["ARRAY<", "STRUCT<", "RANGE<", "array <", "a.ARRAY<", "STRUCT<a ARRAY<", "TABLE<", ">>=", ">=", ">>", "<=", "<>", "><", ">-", "->", "<<", "|>>", "=>>"];
const CHARS: &[char] = &[
    '\'', '"', '`', '\\', '\n', '\r', ' ', '\t', '-', '/', '*', '#', '{', '}', '@', '.', 'e', 'E', '1', '0', 'a', 'r', 'b', '_', '<', '>', '=', '!', '|',
    '(', ')', '[', ']', ',', ';', ':', '?', '&', '^', '~', '+', '%', '$', 'X', '\u{0}', '\u{7f}',
];

fn any_char(s: &mut Src) -> char {
    match s.pick(&[8, 2, 1]) {
        0 => *s.of(CHARS),
        1 => *s.of(UNI),
        _ => char::from_u32(s.below(0x11_0000)).unwrap_or('\u{fffd}'),
    }
}

pub fn char_soup(s: &mut Src) -> String {
    let n = s.range(1, 30);
    (0..n).map(|_| any_char(s)).collect()
}

fn word(s: &mut Src) -> String {
    match s.pick(&[5, 5, 5, 1]) {
        3 => s.of(OPENERS).to_string(),
        0 => s.of(SYMBOLS).to_string(),
        1 => s.of(LITERALS).to_string(),
        _ => {
            let w = s.of(vocabulary()).clone();
            if s.chance(1, 4) {
                w.to_lowercase()
            } else {
                w
            }
        }
    }
}

pub fn token_soup(s: &mut Src) -> String {
    let n = s.range(1, 25);
    let mut t = String::new();
    for i in 0..n {
        if i > 0 {
            t.push_str(*s.of(&[" ", "\n", "", "  "]));
        }
        t.push_str(&word(s));
    }
    t
}

/// crude pieces: runs of word characters, runs of blanks, single other characters
pub fn pieces(t: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let class = |c: char| if c.is_alphanumeric() || c == '_' { 1 } else if c.is_whitespace() { 2 } else { 0 };
    let mut last = 0;
    for c in t.chars() {
        let k = class(c);
        if k != 0 && k == last {
            v.last_mut().unwrap().push(c);
        } else {
            v.push(c.to_string());
        }
        last = k;
    }
    v
}

pub fn mutate(s: &mut Src, text: &str) -> String {
    let mut v = pieces(text);
    let n = s.range(1, 4);
    for _ in 0..n {
        let len = v.len() as u32;
        if len == 0 {
            v.push(word(s));
            continue;
        }
        let i = s.below(len) as usize;
        match s.pick(&[4, 3, 4, 3, 2, 2, 2, 1, 1]) {
            0 => {
                v.remove(i);
            }
            1 => {
                let w = word(s);
                v.insert(i, w);
                if s.chance(1, 2) {
                    v.insert(i + 1, " ".into());
                    v.insert(i, " ".into());
                }
            }
            2 => v[i] = word(s),
            3 => {
                let j = (i + s.range(1, 6) as usize).min(v.len());
                v.drain(i..j);
            }
            4 => {
                let j = (i + s.range(1, 12) as usize).min(v.len());
                let part: Vec<String> = v[i..j].to_vec();
                let at = s.below(v.len() as u32 + 1) as usize;
                v.splice(at..at, part);
            }
            5 => {
                let j = s.below(len) as usize;
                v.swap(i, j);
            }
            6 => {
                let other = pieces(s.of(corpus()));
                if !other.is_empty() {
                    let a = s.below(other.len() as u32) as usize;
                    let b = (a + s.range(1, 15) as usize).min(other.len());
                    v.splice(i..i, other[a..b].to_vec());
                }
            }
            7 => {
                v[i] = any_char(s).to_string();
            }
            _ => v.truncate(i),
        }
    }
    v.concat()
}

pub fn generated(s: Src, dict: &Arc<Vec<String>>) -> (String, Src) {
    let mut g = G::new(s, 30, dict.clone());
    g.mix = [Mix::All, Mix::Query, Mix::Statements, Mix::Script][g.s.below(4) as usize];
    g.budget = [8, 20, 40][g.s.pick(&[3, 3, 2])];
    g.script(2);
    let style = [Style::Plain, Style::Dense, Style::Space, Style::Comments][g.s.below(4) as usize];
    let toks = std::mem::take(&mut g.toks);
    let laid = lay(&mut g.s, &toks, style, true);
    (laid.text, g.s)
}

/// any text at all; the second component says of which kind
pub fn any(s: Src, dict: &Arc<Vec<String>>) -> (String, &'static str, Src) {
    let mut s = s;
    match s.pick(&[6, 6, 3, 2, 2]) {
        0 => {
            let c = s.of(corpus()).clone();
            (mutate(&mut s, &c), "mutated example", s)
        }
        1 => {
            let (t, mut s) = generated(s, dict);
            (mutate(&mut s, &t), "mutated script", s)
        }
        2 => (token_soup(&mut s), "token soup", s),
        3 => (char_soup(&mut s), "character soup", s),
        _ => {
            let (t, mut s) = generated(s, dict);
            let c: Vec<char> = t.chars().collect();
            let n = s.below(c.len() as u32 + 1) as usize;
            (c[..n].iter().collect(), "prefix of a script", s)
        }
    }
}

/// every word, symbol and literal once
pub fn everything() -> &'static Vec<String> {
    static V: OnceLock<Vec<String>> = OnceLock::new();
    V.get_or_init(|| {
        let mut v: Vec<String> = SYMBOLS.iter().chain(LITERALS).map(|s| s.to_string()).collect();
        v.extend(vocabulary().iter().cloned());
        v
    })
}

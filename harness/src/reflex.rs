//! A reference lexer, written from the lexical rules of GoogleSQL as this library documents them
//! in its tests (strings with backslash escapes, triple quotes, backquoted names, #, -- and /* */
//! comments, parameters, templates, numbers, words, operators). It shares no code with the library.
use crate::tree::Tok;

#[derive(Debug, Clone, PartialEq)]
pub struct LexErr {
    pub line: u64,
    pub col: u64,
    pub why: &'static str,
}

#[derive(Debug)]
pub struct Lexed {
    pub toks: Vec<Tok>,
    /// character index at which every token starts, and the one after its end in the source
    pub spans: Vec<(usize, usize)>,
    pub err: Option<LexErr>,
}

fn starts(t: &[char], i: usize, s: &str) -> bool {
    let mut j = i;
    for c in s.chars() {
        if t.get(j) != Some(&c) {
            return false;
        }
        j += 1;
    }
    true
}

/// index after the first unescaped occurrence of `close`, from `i`
fn until(t: &[char], mut i: usize, close: &str, escapes: bool) -> Option<usize> {
    while i < t.len() {
        if escapes && t[i] == '\\' {
            i += 2;
            continue;
        }
        if starts(t, i, close) {
            return Some(i + close.chars().count());
        }
        i += 1;
    }
    None
}

fn first(c: char) -> bool {
    c == '_' || c.is_alphabetic()
}
fn rest(c: char) -> bool {
    first(c) || c.is_ascii_digit()
}
fn run(t: &[char], mut i: usize, f: impl Fn(char) -> bool) -> usize {
    while i < t.len() && f(t[i]) {
        i += 1;
    }
    i
}

pub fn lex(text: &str) -> Lexed {
    let t: Vec<char> = text.chars().collect();
    let mut out = Lexed { toks: vec![], spans: vec![], err: None };
    let (mut i, mut line, mut col) = (0usize, 1u64, 1u64);
    let mut open_types = 0;
    let mut prev = String::new(); // last token that is not a comment, upper case
    let mut field = false; // it stands after a dot
    let place = |from: usize, to: usize, line: u64, col: u64| {
        let (mut l, mut c) = (line, col);
        for ch in &t[from..to] {
            if *ch == '\n' {
                l += 1;
                c = 1;
            } else {
                c += 1;
            }
        }
        (l, c)
    };
    loop {
        let j = run(&t, i, char::is_whitespace);
        let p = place(i, j, line, col);
        line = p.0;
        col = p.1;
        i = j;
        if i >= t.len() {
            return out;
        }
        let c = t[i];
        let mut unterminated = "";
        let mut stop: Option<usize> = None; // where a rejected token cannot go on
        let end: Option<usize> = if c == '#' || starts(&t, i, "--") {
            Some(run(&t, i, |c| c != '\n'))
        } else if starts(&t, i, "/*") {
            unterminated = "comment";
            until(&t, i + 2, "*/", false)
        } else if c == '`' {
            unterminated = "quoted name";
            until(&t, i + 1, "`", false)
        } else if c == '\'' || c == '"' {
            unterminated = "string";
            let triple = c.to_string().repeat(3);
            if starts(&t, i, &triple) {
                until(&t, i + 3, &triple, true)
            } else {
                until(&t, i + 1, &c.to_string(), true)
            }
        } else if c == '@' {
            let n = run(&t, i, |c| c == '@');
            if n < t.len() && t[n] == '`' {
                unterminated = "quoted name";
                until(&t, n + 1, "`", false)
            } else if n < t.len() && first(t[n]) {
                Some(run(&t, n, rest))
            } else {
                stop = Some(n);
                None
            }
        } else if c == '{' {
            let n = run(&t, i, |c| c == '{') - i;
            match t.get(i + n) {
                Some(x) if n == 1 && (*x == '@' || *x == ',' || x.is_ascii_digit()) => Some(i + 1),
                _ => {
                    unterminated = "template";
                    until(&t, i + n, &"}".repeat(n), false)
                }
            }
        } else if c.is_ascii_digit() || c == '.' && t.get(i + 1).map_or(false, |c| c.is_ascii_digit()) {
            let hex = c == '0' && matches!(t.get(i + 1), Some('x' | 'X')) && t.get(i + 2).map_or(false, |c| c.is_ascii_hexdigit());
            let mut j = if hex { run(&t, i + 2, |c| c.is_ascii_hexdigit()) } else { run(&t, i, |c| c.is_ascii_digit()) };
            if !hex && t.get(j) == Some(&'.') {
                j = run(&t, j + 1, |c| c.is_ascii_digit());
            }
            if !hex && matches!(t.get(j), Some('e' | 'E')) {
                j += 1;
                if matches!(t.get(j), Some('+' | '-')) {
                    j += 1;
                }
                j = run(&t, j, |c| c.is_ascii_digit());
            }
            Some(j)
        } else if first(c) {
            Some(run(&t, i, rest))
        } else if c == '>' && open_types > 0 {
            open_types -= 1;
            Some(i + 1)
        } else if ["||", "|>", "<<", "<=", "<>", ">>", ">=", "=>", "!="].iter().any(|o| starts(&t, i, o)) {
            Some(i + 2)
        } else {
            if c == '<' && !field && matches!(prev.as_str(), "ARRAY" | "STRUCT" | "RANGE") {
                open_types += 1;
            }
            Some(i + 1)
        };
        match end {
            Some(e) => {
                let mut lit: String = t[i..e].iter().collect();
                let comment = lit.starts_with('#') || lit.starts_with("--") || lit.starts_with("/*");
                if comment && !lit.starts_with("/*") {
                    lit = lit.trim_end().to_string();
                }
                if !comment {
                    field = prev == ".";
                    prev = lit.to_uppercase();
                }
                out.toks.push(Tok { line, col, lit });
                out.spans.push((i, e));
                let p = place(i, e, line, col);
                line = p.0;
                col = p.1;
                i = e;
            }
            None => {
                let (at, why) = match stop {
                    Some(n) => (n, "dangling @"),
                    None => (t.len(), unterminated),
                };
                let p = place(i, at, line, col);
                out.err = Some(LexErr { line: p.0, col: p.1, why });
                return out;
            }
        }
    }
}

//! Turning a token list into text. The positions of the tokens, and which node every comment
//! belongs to, follow from the text that is written here, not from any lexer.
use super::{MKid, TokSpec, M};
use crate::engine::Src;
use crate::tree::{Kid, Tok, N};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style {
    /// one blank between tokens
    Plain,
    /// as little white space as possible
    Dense,
    /// all kinds of white space
    Space,
    /// white space and comments
    Comments,
    /// as `Comments`, with runs of blank lines and long indents now and then
    Vast,
}

pub const WS: &[&str] = &[
    " ", "\n", "\t", "  ", "\n\n", "\r\n", "\n  ", " \n", "\u{3000}", "\u{a0}", "\r", "\u{c}", "\u{b}", "\u{2028}", "\u{85}", "\u{2003}",
];

/// what was written between two tokens
#[derive(Clone, Debug)]
pub enum Piece {
    Ws(String),
    /// the text of the comment, without the line break that ends a line comment
    Comment(String),
}

#[derive(Clone, Debug, Default)]
pub struct Laid {
    pub text: String,
    /// tokens of the script in order, without comments
    pub toks: Vec<Tok>,
    /// leading and trailing comments of every token; the entry after the last is for the end
    pub lead: Vec<Vec<Tok>>,
    pub trail: Vec<Vec<Tok>>,
    /// all tokens and comments in order
    pub all: Vec<Tok>,
    pub comments: usize,
}

fn wordy(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

/// may `b` follow `a` without anything in between?
pub fn can_touch(a: &TokSpec, b: &TokSpec) -> bool {
    if b.gap {
        return false;
    }
    if b.glue {
        return true;
    }
    let (x, y) = (a.lit.chars().last().unwrap_or(' '), b.lit.chars().next().unwrap_or(' '));
    let bracket = |c: char| matches!(c, '(' | ')' | ',' | ';' | '[' | ']');
    let single = |t: &TokSpec| t.lit.chars().count() == 1;
    if bracket(x) && single(a) || bracket(y) && single(b) {
        return true;
    }
    // a closing quote next to an opening one could merge
    let quote = |c: char| matches!(c, '\'' | '"' | '`');
    if quote(x) && quote(y) {
        return false;
    }
    if wordy(x) && (wordy(y) || y == '.' && b.lit.len() > 1) {
        return false;
    }
    if x == '.' && a.lit.len() == 1 {
        return !y.is_ascii_digit() && y != '.';
    }
    if y == '.' && b.lit.len() == 1 {
        // 1.x would be a number
        return !x.is_ascii_digit() || a.lit.chars().next().map_or(false, |c| !c.is_ascii_digit() && c != '.');
    }
    let op = |c: char| "+-*/|<>=!&^~%:@{}?#$".contains(c);
    if op(x) && op(y) {
        // only the brackets of types may touch: ARRAY<ARRAY<x>>
        return a.lit == ">" && b.lit == ">";
    }
    if (op(x) && single(a) || matches!(a.lit.as_str(), "||" | "<=" | ">=" | "<>" | "!=" | "<<" | ">>" | "=>" | "|>")) && (wordy(y) || quote(y)) {
        return !matches!(x, '@' | '{' | '}');
    }
    if (op(y) && single(b) || matches!(b.lit.as_str(), "||" | "<=" | ">=" | "<>" | "!=" | "<<" | ">>" | "=>" | "|>")) && (wordy(x) || quote(x)) {
        // 1e-5 would be a number, {@ and {1 are pattern quantifiers
        return !matches!(y, '@' | '{' | '}') && !(matches!(x, 'e' | 'E') && matches!(y, '+' | '-'));
    }
    if quote(x) && wordy(y) || wordy(x) && quote(y) {
        return true;
    }
    false
}

pub fn comment(s: &mut Src) -> String {
    let body = |s: &mut Src| -> String {
        let bits = &crate::dict::found().bits;
        if !bits.is_empty() && s.chance(1, 6) {
            let b = s.of(bits).replace('\n', " ");
            return if s.chance(1, 2) { format!(" {}", b) } else { b };
        }
        match s.pick(&[6, 3, 2, 2, 1]) {
            0 => s.of(&["c", " note", "", "x y z", " SELECT 1;"]).to_string(),
            1 => s.of(&[" it's", " \"q", " `b", " it''s \\", "--", "#", "/*", "-", "*", " (", " {{", " @x", " 'a\\'b"]).to_string(),
            2 => s.of(&[" é", "日本語", " 😀x", " e\u{301}", "\u{a0}x"]).to_string(),
            3 => {
                let n = s.range(1, 12);
                (0..n).map(|_| *s.of(&['a', 'Z', '0', ' ', '*', '/', '-', ';', ',', '=', '\t'])).collect()
            }
            _ => "very long comment ".repeat(s.range(3, 30) as usize),
        }
    };
    match s.pick(&[4, 4, 2]) {
        0 => format!("--{}", body(s)),
        1 => {
            let mut b = body(s);
            if s.chance(1, 5) {
                b = format!("{}\n{}", b, body(s));
            }
            while b.contains("*/") {
                b = b.replace("*/", "* /");
            }
            if b.ends_with('*') && s.chance(1, 2) {
                b.push(' ');
            }
            format!("/*{}*/", b)
        }
        _ => format!("#{}", body(s)),
    }
}

/// very many comments
pub fn crowd(s: &mut Src) -> Vec<String> {
    let n = match s.pick(&[1, 4]) {
        0 => s.range(20, 260),
        _ => s.range(257, 700),
    };
    let c = s.of(&["/**/", "--", "#c", "/* a */"]).to_string();
    vec![c; n as usize]
}

pub fn gap(s: &mut Src, style: Style, must: bool, first: bool) -> Vec<Piece> {
    let mut v = vec![];
    match style {
        Style::Plain => {
            if !first {
                v.push(Piece::Ws(" ".into()))
            }
        }
        Style::Dense => {
            if must {
                v.push(Piece::Ws(if s.chance(1, 6) { "\n".into() } else { " ".into() }))
            }
        }
        Style::Space | Style::Comments | Style::Vast => {
            if s.chance(2, 3) || must {
                v.push(Piece::Ws(s.of(WS).to_string()));
            }
            if style == Style::Vast && s.chance(1, 25) {
                let n = s.range(20, 400) as usize;
                v.push(Piece::Ws(if s.chance(1, 2) { " ".repeat(n) } else { "\n".repeat(n) }));
            }
            if style == Style::Vast && s.chance(1, 200) {
                v.extend(crowd(s).into_iter().map(Piece::Comment));
                v.push(Piece::Ws("\n".into()));
            }
            if style != Style::Space {
                let n = s.pick(&[12, 4, 2, 1]);
                for _ in 0..n {
                    if must && s.chance(1, 4) {
                        v.clear(); // the comment alone separates
                    }
                    v.push(Piece::Comment(comment(s)));
                    if s.chance(2, 3) {
                        v.push(Piece::Ws(s.of(WS).to_string()));
                    }
                }
            }
        }
    }
    v
}

struct W {
    text: String,
    line: u64,
    col: u64,
}
impl W {
    fn put(&mut self, s: &str) -> (u64, u64) {
        let p = (self.line, self.col);
        for c in s.chars() {
            if c == '\n' {
                self.line += 1;
                self.col = 1;
            } else {
                self.col += 1;
            }
        }
        self.text.push_str(s);
        p
    }
}

pub fn is_line_comment(s: &str) -> bool {
    s.starts_with('#') || s.starts_with("--")
}

/// `gaps[i]` stands before token i, the last one after the last token
pub fn write(lits: &[String], gaps: &[Vec<Piece>]) -> Laid {
    assert_eq!(lits.len() + 1, gaps.len());
    let mut w = W { text: String::new(), line: 1, col: 1 };
    let mut out = Laid { lead: vec![vec![]; lits.len() + 1], trail: vec![vec![]; lits.len() + 1], ..Laid::default() };
    for (i, g) in gaps.iter().enumerate() {
        let mut open_line = false; // inside a line comment
        for (j, p) in g.iter().enumerate() {
            match p {
                Piece::Ws(s) => {
                    if open_line && !s.contains('\n') {
                        w.put("\n");
                    }
                    w.put(s);
                    open_line = false;
                }
                Piece::Comment(c) => {
                    if open_line {
                        w.put("\n");
                    }
                    // a-/*c*/ : an operator before the comment must not merge with it
                    if j == 0 && i > 0 {
                        let last = lits[i - 1].chars().last().unwrap_or(' ');
                        if matches!(last, '-' | '/') && lits[i - 1].chars().count() == 1 {
                            w.put(" ");
                        }
                    }
                    let (line, col) = w.put(c);
                    open_line = is_line_comment(c);
                    let lit = if open_line { c.trim_end().to_string() } else { c.clone() };
                    let t = Tok { line, col, lit };
                    out.comments += 1;
                    out.all.push(t.clone());
                    let same = i > 0 && out.toks[i - 1].line == line && out.lead[i].is_empty();
                    if same {
                        out.trail[i - 1].push(t);
                    } else {
                        out.lead[i].push(t);
                    }
                }
            }
        }
        if i < lits.len() {
            if open_line {
                w.put("\n");
            }
            let (line, col) = w.put(&lits[i]);
            let t = Tok { line, col, lit: lits[i].clone() };
            out.all.push(t.clone());
            out.toks.push(t);
        }
    }
    out.text = w.text;
    out
}

/// random keyword case
pub fn recase(s: &mut Src, w: &str) -> String {
    match s.pick(&[5, 4, 2]) {
        0 => w.to_uppercase(),
        1 => w.to_lowercase(),
        _ => w
            .chars()
            .map(|c| if s.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
            .collect(),
    }
}

pub fn lay(s: &mut Src, toks: &[TokSpec], style: Style, cases: bool) -> Laid {
    let lits: Vec<String> = toks
        .iter()
        .map(|t| if t.kw && cases { recase(s, &t.lit) } else { t.lit.clone() })
        .collect();
    let gaps = gaps(s, toks, style);
    write(&lits, &gaps)
}

pub fn gaps(s: &mut Src, toks: &[TokSpec], style: Style) -> Vec<Vec<Piece>> {
    let mut v = Vec::with_capacity(toks.len() + 1);
    for i in 0..=toks.len() {
        if i == toks.len() {
            v.push(if style == Style::Plain || style == Style::Dense { vec![] } else { gap(s, style, false, true) });
            break;
        }
        if toks[i].glue {
            v.push(vec![]);
            continue;
        }
        let must = i > 0 && !can_touch(&toks[i - 1], &toks[i]);
        let mut g = gap(s, style, must, i == 0);
        if must && g.is_empty() {
            g.push(Piece::Ws(" ".into()));
        }
        v.push(g);
    }
    v
}

/// the expected tree of `m` with real tokens and comments
pub fn expect(m: &M, laid: &Laid) -> N {
    let mut kids = BTreeMap::new();
    for (k, c) in &m.kids {
        let c = match c {
            MKid::One(n) => Kid::One(Box::new(expect(n, laid))),
            MKid::Many(v) => Kid::Many(v.iter().map(|n| expect(n, laid)).collect()),
        };
        kids.insert(k.to_string(), c);
    }
    if let Some(i) = m.tok {
        add_comments(&mut kids, &laid.lead[i], &laid.trail[i]);
    }
    N { tok: m.tok.map(|i| laid.toks[i].clone()), ty: m.ty.to_string(), kids }
}

fn add_comments(kids: &mut BTreeMap<String, Kid>, lead: &[Tok], trail: &[Tok]) {
    let nodes = |v: &[Tok]| {
        Kid::Many(v.iter().map(|t| N { tok: Some(t.clone()), ty: "Comment".into(), kids: BTreeMap::new() }).collect())
    };
    if !lead.is_empty() {
        kids.insert("leading_comments".into(), nodes(lead));
    }
    if !trail.is_empty() {
        kids.insert("trailing_comments".into(), nodes(trail));
    }
}

pub fn expect_script(stmts: &[M], laid: &Laid) -> Vec<N> {
    let mut v: Vec<N> = stmts.iter().map(|m| expect(m, laid)).collect();
    let mut kids = BTreeMap::new();
    add_comments(&mut kids, &laid.lead[laid.toks.len()], &[]);
    v.push(N { tok: None, ty: "EOF".into(), kids });
    v
}

//! Scripts that are broken in a known way at a known token.
use crate::api::{self, Out};
use crate::engine::Src;
use crate::gen::layout::{lay, Style};
use crate::gen::{MKid, Mix, TokSpec, G, M};
use crate::oracle::Seen;
use crate::trees::{self, Dict, Size};

/// where the script stops making sense
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Place {
    Token(usize),
    End,
    /// in the statement that begins with this token, or at the end
    From(usize),
    /// somewhere
    Any,
}

pub struct Bad {
    pub toks: Vec<TokSpec>,
    pub place: Place,
    pub kind: &'static str,
    pub s: Src,
    /// text after the last token
    pub tail: String,
}

/// ¤ is any expression, § any query, ! marks the token that is wrong (? if nothing says which)
const BROKEN: &[(&str, &str)] = &[
    ("unknown CREATE", "!CREATE x y z w v u"),
    ("unknown CREATE", "!CREATE OR REPLACE x y z w v ;"),
    ("unknown CREATE", "!CREATE x IF NOT EXISTS y ( a ) ;"),
    ("unknown CREATE", "!CREATE x y ; CREATE TABLE t ( a INT64 ) ;"),
    ("unknown ALTER", "!ALTER x ; ALTER TABLE t DROP COLUMN a ;"),
    ("unknown ALTER", "!ALTER x y z w v u"),
    ("unknown ALTER", "!ALTER x SET OPTIONS ( a = 1 ) ;"),
    ("unknown ALTER SCHEMA", "ALTER SCHEMA d !x OPTIONS ( a = 1 )"),
    ("unknown ALTER SCHEMA", "ALTER SCHEMA IF EXISTS p . d !RENAME TO x ;"),
    ("unknown ALTER TABLE", "ALTER TABLE t !x OPTIONS ( a = 1 )"),
    ("unknown ALTER TABLE", "ALTER TABLE IF EXISTS d . t !REPLACE COLUMN a ;"),
    ("unknown ALTER COLUMN", "ALTER TABLE t ALTER COLUMN c !x NOT NULL"),
    ("unknown ALTER COLUMN", "ALTER TABLE t ALTER COLUMN IF EXISTS c !ADD DEFAULT 1 ;"),
    ("unknown pipe operator", "FROM t |> !x ¤"),
    ("unknown pipe operator", "FROM t |> WHERE ¤ |> !x ;"),
    ("unknown pipe operator", "SELECT ¤ FROM t |> !FROM u"),
    ("unknown pipe operator", "FROM t |> !; SELECT 1"),
    ("unknown pipe operator", "FROM t |> !|> SELECT 1"),
    ("unknown pipe operator", "( FROM t |> !x )"),
    ("dangling NOT", "SELECT a NOT !b"),
    ("dangling NOT", "SELECT a NOT !;"),
    ("dangling NOT", "SELECT 1 FROM t WHERE a NOT != ¤"),
    ("dangling NOT", "SELECT f ( a NOT !) FROM t"),
    ("dangling NOT", "SELECT a + b NOT !EXISTS ( § )"),
    ("bad MERGE action", "MERGE t USING u ON ¤ WHEN MATCHED THEN !x"),
    ("bad MERGE action", "MERGE t USING u ON ¤ WHEN MATCHED THEN !SELECT 1 ;"),
    ("bad MERGE action", "MERGE t USING u ON a WHEN MATCHED THEN DELETE WHEN NOT MATCHED BY SOURCE AND ¤ THEN !TRUNCATE ;"),
    ("unclosed query", "( SELECT 1 AS a !b )"),
    ("unclosed query", "( SELECT ¤ FROM t AS a !b )"),
    ("unclosed query", "WITH w AS ( SELECT 1 AS a !b ) SELECT 1"),
    ("unclosed query", "WITH w AS ( ( § ) !] SELECT 1"),
    ("unclosed query", "( SELECT 1 !;"),
    ("unknown statement", "!x y z"),
    ("unknown statement", "!x ; SELECT 1"),
    ("unknown statement", "!SELEC ¤ FROM t WHERE ¤ ; SELECT 1"),
    ("unknown statement", "SELECT 1 ; !x SELECT 1"),
    ("unknown statement", "!`q` ( § )"),
    ("unknown statement", "!1 ; SELECT 1"),
    ("unknown statement", "!'s' LOOP SELECT 1 ; END LOOP ;"),
    ("unknown statement", "!, SELECT 1"),
    ("unknown statement", "!) SELECT 1 ;"),
    ("unknown statement", "!* ; SELECT ¤"),
    ("unknown statement", "!: BEGIN END"),
    ("unknown statement", "!VALUES ( 1 )"),
    ("unknown statement", "!a = LOOP BREAK ; END LOOP"),
    ("unknown statement", "a : !x SELECT 1"),
    ("unknown statement", "LOOP !x y ; END LOOP ;"),
    ("unknown statement", "IF ¤ THEN SELECT 1 ; !x y ; END IF ;"),
    ("two labels", "a : !b : LOOP SELECT 1 ; END LOOP"),
    ("two labels", "a : !b : BEGIN END ;"),
    ("no query", "SELECT ¤ UNION ALL !x"),
    ("no query", "SELECT 1 EXCEPT DISTINCT !1 + 2"),
    ("no query", "( SELECT ¤ ) INTERSECT DISTINCT !x UNION ALL SELECT 1"),
    ("no query", "SELECT ( SELECT 1 UNION ALL !x )"),
    ("no query", "CREATE VIEW v AS !x"),
    ("no query", "CREATE VIEW v AS ( !x )"),
    ("no query", "CREATE MATERIALIZED VIEW v AS !1"),
    ("no query", "CREATE TABLE t AS !INSERT INTO t VALUES ( ¤ )"),
    ("no query", "CREATE TABLE FUNCTION f ( ) AS !x"),
    ("no query", "INSERT INTO t !x"),
    ("no query", "INSERT INTO t ( a ) !x + ¤"),
    ("no query", "WITH a AS ( !x ) SELECT ¤"),
    ("no query", "WITH a AS ( ( !1 + 2 ) ) SELECT ¤"),
    ("no query", "FOR r IN ( !x ) DO SELECT ¤ ; END FOR"),
    ("no query", "CREATE MODEL m OPTIONS ( a = ¤ ) AS !x"),
];

fn plain_text(s: &mut Src, toks: &[TokSpec], tail: &str) -> (String, Vec<(u64, u64)>) {
    let style = [Style::Plain, Style::Dense, Style::Space, Style::Comments][s.below(4) as usize];
    let laid = lay(s, toks, style, true);
    (format!("{}{}", laid.text, tail), laid.toks.iter().map(|t| t.pos()).collect())
}

/// a template with pieces filled in
fn broken(s: Src, dict: &Dict) -> Bad {
    let mut s = s;
    let (kind, t) = *s.of(BROKEN);
    let mut g = G::new(s, 20, dict.clone());
    let mut place = Place::Any;
    let mut depth = 0;
    // before it: nothing, a script, or the beginning of a block
    match g.s.below(4) {
        0 | 1 => (),
        2 => {
            g.budget = 20;
            for _ in 0..g.s.range(1, 2) {
                g.statement(true);
            }
        }
        _ => {
            for _ in 0..g.s.range(1, 2) {
                match g.s.below(4) {
                    0 => {
                        g.key("BEGIN");
                    }
                    1 => {
                        g.key("LOOP");
                    }
                    2 => {
                        g.keys(&["IF", "TRUE", "THEN"]);
                    }
                    _ => {
                        g.keys(&["WHILE", "TRUE", "DO"]);
                    }
                }
                depth += 1;
                if g.coin() {
                    g.budget = 10;
                    g.statement(true);
                }
            }
        }
    }
    for w in t.split(' ') {
        let (w, mark) = if w.len() > 1 && w.starts_with('!') && !w.starts_with("!=") { (&w[1..], true) } else { (w, false) };
        let (w, mark) = if w == "!=" { ("=", true) } else { (w, mark) };
        match w {
            "¤" => {
                g.budget = 6;
                g.expr(109);
            }
            "§" => {
                g.budget = 8;
                g.select(false);
            }
            "?" => place = Place::Any,
            _ => {
                let kw = w.len() > 1 && w.chars().all(|c| c.is_ascii_uppercase());
                let w = if w == "x" { g.plain() } else { w.to_string() };
                let i = g.emit(&w, kw);
                if mark {
                    place = Place::Token(i);
                }
            }
        }
    }
    let _ = depth;
    // after it: nothing, or more statements
    if g.s.chance(1, 3) {
        g.sym(";");
        g.budget = 10;
        g.statement(true);
    }
    let toks = std::mem::take(&mut g.toks);
    Bad { toks, place, kind, s: g.s, tail: String::new() }
}

/// a grammatical script, cut off where a bracket or a block is open
fn cut(s: Src, dict: &Dict) -> Option<Bad> {
    let mut g = trees::generator(s, dict, None, Size::Normal);
    let stmts = g.script(2);
    let toks = std::mem::take(&mut g.toks);
    let mut open = vec![false; toks.len() + 1];
    let mut d = 0i32;
    for (i, t) in toks.iter().enumerate() {
        match t.lit.as_str() {
            "(" | "[" => d += 1,
            ")" | "]" => d -= 1,
            _ => (),
        }
        open[i + 1] = d > 0;
    }
    // blocks
    fn span(m: &M) -> (usize, usize) {
        let (mut a, mut b) = (usize::MAX, 0);
        m.walk(&mut |n| {
            if let Some(t) = n.tok {
                a = a.min(t);
                b = b.max(t);
            }
        });
        (a, b)
    }
    fn last(m: &M, key: &str) -> Option<usize> {
        m.kids.iter().find(|(k, _)| *k == key).map(|(_, c)| match c {
            MKid::One(n) => span(n).1,
            MKid::Many(v) => v.iter().map(|n| span(n).1).max().unwrap(),
        })
    }
    for st in &stmts {
        st.walk(&mut |m| {
            let (key, lo) = match m.ty {
                "BeginStatement" => ("end", 2),
                "IfStatement" => ("end_if", 1),
                "LoopStatement" => ("end_loop", 1),
                "WhileStatement" => ("end_while", 1),
                "RepeatStatement" => ("end_repeat", 1),
                "ForStatement" => ("end_for", 1),
                "CaseStatement" => ("end_case", 1),
                _ => return,
            };
            if let (Some(a), Some(b)) = (m.tok, last(m, key)) {
                for k in a + lo..=b {
                    open[k] = true;
                }
            }
        });
    }
    let places: Vec<usize> = (0..=toks.len()).filter(|k| open[*k]).collect();
    if places.is_empty() {
        return None;
    }
    let k = *g.s.of(&places);
    // the statement that is cut off
    let start = stmts.iter().map(|m| span(m).0).filter(|a| *a < k).max().unwrap_or(0);
    Some(Bad { toks: toks[..k].to_vec(), place: Place::From(start), kind: "cut off", s: g.s, tail: String::new() })
}

/// a grammatical script in which one bracket is closed by something else
fn wrong_closer(s: Src, dict: &Dict) -> Option<Bad> {
    let mut g = trees::generator(s, dict, None, Size::Normal);
    g.script(2);
    let mut toks = std::mem::take(&mut g.toks);
    let places: Vec<usize> =
        (1..toks.len()).filter(|k| matches!(toks[*k].lit.as_str(), ")" | "]") && !matches!(toks[*k - 1].lit.as_str(), "(" | "[" | ",")).collect();
    if places.is_empty() {
        return None;
    }
    let k = *g.s.of(&places);
    let other = if toks[k].lit == ")" { "]" } else { ")" };
    let w = *g.s.of(&[other, other, ";"]);
    toks[k] = TokSpec { lit: w.into(), kw: false, glue: false, gap: false };
    Some(Bad { toks, place: Place::Any, kind: "wrong closing bracket", s: g.s, tail: String::new() })
}

/// a grammatical script with something unterminated at its end
fn unterminated(s: Src, dict: &Dict) -> Bad {
    let mut g = trees::generator(s, dict, None, Size::Normal);
    g.budget = 15;
    g.mix = Mix::All;
    g.script(2);
    let toks = std::mem::take(&mut g.toks);
    let n = g.s.range(0, 8);
    let (open, not): (&str, &[char]) = *g.s.of(&[
        ("'", &['\'', '\\'] as &[char]),
        ("\"", &['"', '\\']),
        ("'''", &['\'', '\\']),
        ("\"\"\"", &['"', '\\']),
        ("r'", &['\'', '\\']),
        ("`", &['`']),
        ("@`", &['`']),
        ("/*", &['*', '/']),
        ("{{", &['{', '}']),
    ]);
    let body = g.text(n, not);
    // '' must not become '''
    let body = if open.ends_with('\'') || open.ends_with('"') { format!("x{}", body) } else { format!(" {}", body) };
    Bad { toks, place: Place::End, kind: "unterminated", s: g.s, tail: format!("\n{}{}", open, body) }
}

pub fn any(s: Src, dict: &Dict) -> Option<Bad> {
    let mut s = s;
    match s.pick(&[4, 4, 1, 3]) {
        3 => wrong_closer(s, dict),
        0 => Some(broken(s, dict)),
        1 => cut(s, dict),
        _ => Some(unterminated(s, dict)),
    }
}

pub fn text(b: &mut Bad) -> String {
    plain_text(&mut b.s, &b.toks, &b.tail).0
}

pub fn check(b: &mut Bad) -> (Seen, String) {
    let (text, pos) = plain_text(&mut b.s, &b.toks, &b.tail);
    match api::parse(&text) {
        Out::Ok(_) => (Seen::fail(b.kind, format!("{}: accepted", b.kind)), text),
        Out::Err(e) => {
            let ok = match b.place {
                Place::Any => true,
                Place::Token(i) => pos[i] == (e.line, e.col),
                Place::From(i) => pos[i] <= (e.line, e.col),
                Place::End => {
                    let mut p = (1, 1);
                    for c in text.chars() {
                        p = if c == '\n' { (p.0 + 1, 1) } else { (p.0, p.1 + 1) };
                    }
                    p == (e.line, e.col)
                }
            };
            if ok {
                (Seen::pass(b.kind, true), text)
            } else {
                let want = match b.place {
                    Place::Token(i) => format!("at {:?} ({:?})", b.toks[i].lit, pos[i]),
                    Place::From(i) => format!("at or after {:?} ({:?})", b.toks[i].lit, pos[i]),
                    _ => "at the end".into(),
                };
                (Seen::fail(b.kind, format!("{}: should be rejected {}, reported at {}:{} ({})", b.kind, want, e.line, e.col, e.msg)), text)
            }
        }
        o => (Seen::fail(o.kind(), o.describe()), text),
    }
}

//! Identifiers, literals and comments.
use super::{G, M};
use std::collections::HashSet;
use std::sync::OnceLock;

/// every word that the grammar gives a meaning somewhere (it must not be used as a plain name)
pub fn known_words() -> &'static HashSet<String> {
    static S: OnceLock<HashSet<String>> = OnceLock::new();
    S.get_or_init(|| include_str!("known_words.txt").split_whitespace().map(String::from).collect())
}

/// the reserved words of GoogleSQL, which cannot be names unless quoted
pub const RESERVED: &[&str] = &[
    "ALL", "AND", "ANY", "ARRAY", "AS", "ASC", "ASSERT_ROWS_MODIFIED", "AT", "BETWEEN", "BY", "CASE", "CAST",
    "COLLATE", "CONTAINS", "CREATE", "CROSS", "CUBE", "CURRENT", "DEFAULT", "DEFINE", "DESC", "DISTINCT", "ELSE",
    "END", "ENUM", "ESCAPE", "EXCEPT", "EXCLUDE", "EXISTS", "EXTRACT", "FALSE", "FETCH", "FOLLOWING", "FOR",
    "FROM", "FULL", "GROUP", "GROUPING", "GROUPS", "HASH", "HAVING", "IF", "IGNORE", "IN", "INNER", "INTERSECT",
    "INTERVAL", "INTO", "IS", "JOIN", "LATERAL", "LEFT", "LIKE", "LIMIT", "LOOKUP", "MERGE", "NATURAL", "NEW",
    "NO", "NOT", "NULL", "NULLS", "OF", "ON", "OR", "ORDER", "OUTER", "OVER", "PARTITION", "PRECEDING", "PROTO",
    "QUALIFY", "RANGE", "RECURSIVE", "RESPECT", "RIGHT", "ROLLUP", "ROWS", "SELECT", "SET", "SOME", "STRUCT",
    "TABLESAMPLE", "THEN", "TO", "TREAT", "TRUE", "UNBOUNDED", "UNION", "UNNEST", "USING", "WHEN", "WHERE",
    "WINDOW", "WITH", "WITHIN",
];

const SIMPLE: &[&str] = &["a", "b1", "col", "x", "tbl", "foo", "Bar", "y2", "_z", "c", "item", "ds"];
/// words with a meaning elsewhere that are ordinary names where an expression is expected
const SOFT: &[&str] = &["date", "time", "datetime", "timestamp", "json", "numeric", "r", "b", "br", "day", "value", "id", "hour"];
const AFFIX: &[&str] = &["select", "from", "where", "end", "as", "in", "order", "group", "with", "case", "is", "and", "or", "if", "on", "set", "pivot", "struct", "array", "null", "true"];
const ALNUM: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";

pub const UNI: &[char] = &['é', 'ß', 'あ', '漢', '😀', '\u{301}', 'Ω', '\u{200b}', '٣', 'ı', 'ﬁ', '\u{feff}'];

impl G {
    /// an unquoted name without any meaning for the grammar
    pub fn plain(&mut self) -> String {
        loop {
            let w = match self.s.pick(&[10, 4, 3, 1, 2]) {
                0 => return self.s.of(SIMPLE).to_string(),
                1 => {
                    let n = self.s.range(1, 11);
                    self.word(n)
                }
                2 => {
                    let a = *self.s.of(AFFIX);
                    match self.s.below(4) {
                        0 => format!("{}_{}", a, self.s.below(100)),
                        1 => format!("{}{}", a, self.s.below(10)),
                        2 => format!("_{}", a),
                        _ => format!("x{}", a.to_uppercase()),
                    }
                }
                3 => {
                    let n = match self.number_of_sources() {
                        Some(n) => n.max(1),
                        None => self.s.range(20, 140),
                    };
                    self.word(n)
                }
                _ => {
                    if self.dict.is_empty() {
                        continue;
                    }
                    let d = self.dict.clone();
                    self.s.of(&d).clone()
                }
            };
            if !known_words().contains(&w.to_uppercase()) {
                return w;
            }
        }
    }
    /// a number that stands in the library's sources since the harness was written, or next to one
    pub fn number_of_sources(&mut self) -> Option<u32> {
        let ns = &crate::dict::found().numbers;
        if ns.is_empty() || !self.s.chance(1, 2) {
            return None;
        }
        let n = *self.s.of(ns);
        Some(match self.s.below(4) {
            0 => n,
            1 => n + 1,
            2 => n.saturating_sub(1),
            _ => n + self.s.below(8),
        })
    }
    fn word(&mut self, n: u32) -> String {
        let mut w = String::new();
        w.push(ALNUM[self.s.below(53) as usize] as char);
        for _ in 1..n {
            w.push(*self.s.of(ALNUM) as char);
        }
        w
    }
    pub fn quoted(&mut self) -> String {
        let body = match self.s.pick(&[4, 4, 2, 2]) {
            0 => self.s.of(&["a", "my-project.ds.tbl", "proj.ds.t_*", "x y", "table name"]).to_string(),
            1 => self.s.of(RESERVED).to_string().to_lowercase(),
            2 => self.s.of(&["a'b", "a\"b", "--x", "#x", "/* x", "a;b", "a(b", "日本", "a, b", "{{x}}"]).to_string(),
            _ => {
                let n = self.s.range(1, 10);
                self.text(n, &['`', '\n'])
            }
        };
        format!("`{}`", body)
    }
    /// a name for a column, alias, table, ...
    pub fn name(&mut self) -> String {
        match self.s.pick(&[10, 2]) {
            0 => self.plain(),
            _ => self.quoted(),
        }
    }
    pub fn ident(&mut self) -> M {
        let n = self.name();
        self.t(&n, "Identifier")
    }
    /// a column reference
    pub fn column(&mut self) -> M {
        if self.s.chance(1, 12) {
            let w = *self.s.of(SOFT);
            return self.t(w, "Identifier");
        }
        self.ident()
    }
    /// any characters but those in `not`
    pub fn text(&mut self, n: u32, not: &[char]) -> String {
        let mut s = String::new();
        let bits = &crate::dict::found().bits;
        if !bits.is_empty() && self.s.chance(1, 4) {
            let b = self.s.of(bits);
            if !b.contains(not) {
                s.push_str(b);
                return s;
            }
        }
        for _ in 0..n {
            let c = match self.s.pick(&[8, 4, 2, 1]) {
                0 => *self.s.of(ALNUM) as char,
                1 => *self.s.of(&[' ', '(', ')', ',', ';', '.', '-', '*', '/', '=', '<', '>', '#', '@', '{', '}', '%', '|', '[', ']', '!', '?', '&', ':', '~', '$', '^', '+']),
                2 => *self.s.of(&['\'', '"', '`', '\\', '\t', '\n']),
                _ => *self.s.of(UNI),
            };
            if !not.contains(&c) {
                s.push(c);
            }
        }
        s
    }
    pub fn string_lit(&mut self) -> String {
        let q = if self.coin() { '"' } else { '\'' };
        if self.s.chance(1, 6) {
            // triple-quoted
            let mut s = format!("{0}{0}{0}", q);
            for _ in 0..self.s.range(0, 5) {
                match self.s.pick(&[4, 2, 1, 1, 1, 1]) {
                    0 => {
                        let n = self.s.range(1, 6);
                        s += &self.text(n, &['\\', '\'', '"'])
                    }
                    1 => s += "\n",
                    2 => s += &format!("{}x", q),
                    3 => s += &format!("{0}{0} ", q),
                    4 => s += &format!("\\{}", q),
                    _ => s += self.s.of(&["\\\\", "\\n", "-- no comment", "/* no */", "SELECT 1;"]),
                }
            }
            s += &format!("{0}{0}{0}", q);
            return s;
        }
        let mut s = String::from(q);
        for _ in 0..self.s.pick(&[4, 6, 4, 2, 1]) {
            match self.s.pick(&[5, 1, 1, 1, 1]) {
                0 => {
                    let n = self.s.range(1, 6);
                    s += &self.text(n, &['\\', '\n', q])
                }
                1 => s += &format!("\\{}", q),
                2 => s += "\\\\",
                3 => s += self.s.of(&["\\n", "\\x41", "\\u3042", "\\\\\\\\"]),
                _ => s += self.s.of(&["-- no", "# no", "/* no", "*/", ";", "{{", "}}", "%Y-%m-%d"]),
            }
        }
        if self.s.chance(1, 60) {
            let n = self.s.range(100, 600);
            s += &"long ".repeat(n as usize / 5);
        }
        s.push(q);
        s
    }
    pub fn number(&mut self) -> String {
        let digits = |g: &mut G| -> String {
            match g.s.pick(&[8, 4, 1]) {
                0 => g.s.below(10).to_string(),
                1 => g.s.below(100000).to_string(),
                _ => {
                    let n = g.s.range(15, 45);
                    (0..n).map(|_| char::from(b'0' + g.s.below(10) as u8)).collect()
                }
            }
        };
        if self.s.chance(1, 14) {
            let n = if self.s.chance(1, 8) { self.s.range(10, 40) } else { self.s.range(1, 5) };
            let d: String = (0..n).map(|_| *self.s.of(&["0", "1", "7", "9", "a", "A", "b", "e", "E", "f", "F"])).collect();
            return format!("{}{}", self.s.of(&["0x", "0X"]), d);
        }
        let mut s = match self.s.pick(&[10, 2, 2, 1]) {
            0 => digits(self),
            1 => format!("{}.{}", digits(self), digits(self)),
            2 => format!(".{}", digits(self)),
            _ => format!("{}.", digits(self)),
        };
        if self.s.chance(1, 8) {
            s.push(if self.coin() { 'e' } else { 'E' });
            s += self.s.of(&["", "+", "-"]);
            s += &self.s.below(30).to_string();
        }
        s
    }
    pub fn string(&mut self) -> M {
        let s = self.string_lit();
        self.t(&s, "StringLiteral")
    }
    pub fn num(&mut self) -> M {
        let s = self.number();
        self.t(&s, "NumericLiteral")
    }
    pub fn parameter(&mut self) -> M {
        let s = match self.s.pick(&[3, 3, 2, 1]) {
            0 => format!("@{}", self.plain()),
            1 => "?".to_string(),
            2 => format!("@@{}", self.plain()),
            _ => format!("@{}", self.quoted()),
        };
        self.t(&s, "Parameter")
    }
    pub fn template(&mut self) -> M {
        let n = if self.coin() { 2 } else { self.s.range(1, 4) as usize };
        let body = match self.s.below(4) {
            0 => "x".to_string(),
            1 => " var }  ".to_string(),
            2 => {
                let k = self.s.range(1, 8);
                format!(" {} ", self.text(k, &['{', '}']))
            }
            _ => "variable".to_string(),
        };
        // one brace alone may start a pattern quantifier; a body may not contain its own closer
        let body = if n == 1 { format!("x{}", body.replace('}', "")) } else { body };
        let s = format!("{}{}{}", "{".repeat(n), body, "}".repeat(n));
        self.t(&s, "Template")
    }
}

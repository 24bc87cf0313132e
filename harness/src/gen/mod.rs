//! The grammar generator. It emits the tokens of a script from left to right and builds, next to
//! them, the concrete syntax tree that the library is expected to return for them: the expected
//! tree is known by construction, no parser is involved.
pub mod expr;
pub mod layout;
pub mod query;
pub mod script;
pub mod stmt;
pub mod words;

use crate::engine::Src;

#[derive(Clone, Debug)]
pub struct TokSpec {
    pub lit: String,
    /// a keyword: its case does not matter
    pub kw: bool,
    /// has to follow the previous token immediately
    pub glue: bool,
    /// must not follow the previous token immediately
    pub gap: bool,
}

/// a node of the expected tree; `tok` is an index into the token list
#[derive(Clone, Debug)]
pub struct M {
    pub tok: Option<usize>,
    pub ty: &'static str,
    pub kids: Vec<(&'static str, MKid)>,
}

#[derive(Clone, Debug)]
pub enum MKid {
    One(M),
    Many(Vec<M>),
}

impl M {
    pub fn put(&mut self, key: &'static str, n: M) {
        debug_assert!(!self.kids.iter().any(|(k, _)| *k == key), "duplicate key {} in {}", key, self.ty);
        self.kids.push((key, MKid::One(n)));
    }
    pub fn puts(&mut self, key: &'static str, n: Vec<M>) {
        debug_assert!(!self.kids.iter().any(|(k, _)| *k == key), "duplicate key {} in {}", key, self.ty);
        self.kids.push((key, MKid::Many(n)));
    }
    pub fn opt(&mut self, key: &'static str, n: Option<M>) {
        if let Some(n) = n {
            self.put(key, n)
        }
    }
    pub fn with(mut self, key: &'static str, n: M) -> M {
        self.put(key, n);
        self
    }
    pub fn retype(mut self, ty: &'static str) -> M {
        self.ty = ty;
        self
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a M)) {
        f(self);
        for (_, k) in &self.kids {
            match k {
                MKid::One(n) => n.walk(f),
                MKid::Many(v) => v.iter().for_each(|n| n.walk(f)),
            }
        }
    }
}

pub const MAX: u32 = 1000;

pub struct G {
    pub s: Src,
    pub toks: Vec<TokSpec>,
    /// tokens that may still be spent before everything collapses to its simplest form
    pub budget: i64,
    pub depth: u32,
    /// the last token ended an identifier that swallows adjacent tokens
    pub sticky: bool,
    /// words a maintainer put into the sources which the harness does not know
    pub dict: std::sync::Arc<Vec<String>>,
    /// restricts the generator to pieces that are insensitive to what surrounds them
    pub features: Features,
    pub mix: Mix,
    /// how many lists may still become long
    pub big: u32,
    /// how many levels of nesting are still to be driven down
    pub drive: u32,
    /// most optional parts of the outer levels at once, with small expressions
    pub full: bool,
}

/// which statements a script is made of
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mix {
    All,
    Query,
    Statements,
    Script,
    Pipe,
    Dml,
    Ddl,
    Misc,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Features {
    /// no line-sensitive or adjacency-sensitive identifiers such as region-us
    pub no_multi_token: bool,
}

impl G {
    pub fn new(s: Src, budget: i64, dict: std::sync::Arc<Vec<String>>) -> G {
        G { s, toks: Vec::new(), budget, depth: 0, sticky: false, dict, features: Features::default(), mix: Mix::All, big: 0, drive: 0, full: false }
    }
    pub fn emit(&mut self, lit: &str, kw: bool) -> usize {
        let gap = self.sticky && !matches!(lit, "," | "." | "(" | ")" | ";");
        self.sticky = false;
        self.toks.push(TokSpec { lit: lit.to_string(), kw, glue: false, gap });
        self.budget -= 1;
        self.toks.len() - 1
    }
    /// a keyword token as a node of type `ty`
    pub fn kw(&mut self, lit: &str, ty: &'static str) -> M {
        let i = self.emit(lit, true);
        M { tok: Some(i), ty, kids: vec![] }
    }
    /// any other token as a node of type `ty`
    pub fn t(&mut self, lit: &str, ty: &'static str) -> M {
        let i = self.emit(lit, false);
        M { tok: Some(i), ty, kids: vec![] }
    }
    pub fn key(&mut self, lit: &str) -> M {
        self.kw(lit, "Keyword")
    }
    pub fn keys(&mut self, lits: &[&str]) -> Vec<M> {
        lits.iter().map(|l| self.key(l)).collect()
    }
    /// KEYWORD -> next keyword as a KeywordSequence
    pub fn seq2(&mut self, a: &str, b: &str) -> M {
        let mut n = self.kw(a, "KeywordSequence");
        let b = self.key(b);
        n.put("next_keyword", b);
        n
    }
    pub fn sym(&mut self, lit: &str) -> M {
        self.t(lit, "Symbol")
    }
    pub fn none(ty: &'static str) -> M {
        M { tok: None, ty, kids: vec![] }
    }
    pub fn low(&self) -> bool {
        self.budget <= 0 || self.depth > 40
    }
    /// an optional part; `num` in `den`, never when the budget is spent
    pub fn opt(&mut self, num: u32, den: u32) -> bool {
        if self.full && self.depth <= 3 && self.budget > -300 {
            return self.s.chance(3, 4);
        }
        if self.low() {
            return false;
        }
        self.s.chance(num, den)
    }
    pub fn maybe(&mut self) -> bool {
        self.opt(1, 3)
    }
    pub fn rare(&mut self) -> bool {
        self.opt(1, 8)
    }
    pub fn coin(&mut self) -> bool {
        self.s.chance(1, 2)
    }
    /// number of repetitions, at least `lo`
    pub fn count(&mut self, lo: u32) -> u32 {
        if self.drive > 0 {
            return lo.max(1);
        }
        if let Some(n) = self.long() {
            return n;
        }
        if self.low() {
            lo
        } else {
            self.s.len(lo)
        }
    }
    pub fn long(&mut self) -> Option<u32> {
        if self.big > 0 && self.s.chance(1, 3) {
            self.big -= 1;
            if let Some(n) = self.number_of_sources() {
                return Some(n.clamp(1, 1500));
            }
            return Some(match self.s.below(4) {
                0 => self.s.range(9, 40),
                1 => self.s.range(40, 130),
                2 => self.s.range(120, 270),
                _ => *self.s.of(&[16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 255, 256, 257]),
            });
        }
        None
    }
    /// weighted number of repetitions, 0..weights.len()
    pub fn reps(&mut self, weights: &[u32]) -> u32 {
        match self.long() {
            Some(n) => n,
            None => self.s.pick(weights) as u32,
        }
    }
    /// comma separated list; the comma hangs on the item before it
    pub fn list(&mut self, lo: u32, item: &mut dyn FnMut(&mut G) -> M) -> Vec<M> {
        let n = self.count(lo);
        let mut v = Vec::new();
        for i in 0..n {
            let mut m = item(self);
            if i + 1 < n {
                let c = self.sym(",");
                m.put("comma", c);
            }
            v.push(m);
        }
        v
    }
}

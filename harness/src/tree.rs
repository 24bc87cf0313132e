//! The harness's own picture of what the library returns.
use crate::val::Val;
use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Tok {
    pub line: u64,
    pub col: u64,
    pub lit: String,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Kid {
    One(Box<N>),
    Many(Vec<N>),
}

#[derive(Debug, Clone, PartialEq)]
pub struct N {
    pub tok: Option<Tok>,
    pub ty: String,
    pub kids: BTreeMap<String, Kid>,
}

#[derive(Debug, Clone, PartialEq)]
pub struct PErr {
    pub line: u64,
    pub col: u64,
    pub msg: String,
}

fn int(v: Option<&Val>) -> Result<u64, String> {
    match v {
        Some(Val::Int(i)) if *i >= 0 => Ok(*i as u64),
        other => Err(format!("expected a non-negative integer, got {:?}", other)),
    }
}
fn string(v: Option<&Val>) -> Result<String, String> {
    match v {
        Some(Val::Str(s)) => Ok(s.clone()),
        other => Err(format!("expected a string, got {:?}", other)),
    }
}
fn fields(v: &Val, names: &[&str]) -> Result<(), String> {
    match v {
        Val::Map(m) => {
            for (k, _) in m {
                if !names.contains(&k.as_str()) {
                    return Err(format!("unexpected field {:?}", k));
                }
            }
            if m.len() != names.len() {
                return Err(format!("expected fields {:?}, got {:?}", names, v));
            }
            Ok(())
        }
        _ => Err(format!("expected an object with {:?}, got {:?}", names, v)),
    }
}

impl Tok {
    pub fn from_val(v: &Val) -> Result<Tok, String> {
        fields(v, &["line", "column", "literal"])?;
        Ok(Tok {
            line: int(v.get("line"))?,
            col: int(v.get("column"))?,
            lit: string(v.get("literal"))?,
        })
    }
    pub fn list(v: &Val) -> Result<Vec<Tok>, String> {
        match v {
            Val::Seq(s) => s.iter().map(Tok::from_val).collect(),
            _ => Err("tokens: not an array".into()),
        }
    }
    pub fn pos(&self) -> (u64, u64) {
        (self.line, self.col)
    }
    pub fn is_comment(&self) -> bool {
        self.lit.starts_with('#') || self.lit.starts_with("--") || self.lit.starts_with("/*")
    }
}

impl N {
    pub fn from_val(v: &Val) -> Result<N, String> {
        fields(v, &["token", "node_type", "children"])?;
        let tok = match v.get("token") {
            Some(Val::Null) => None,
            Some(t) => Some(Tok::from_val(t)?),
            None => return Err("no token field".into()),
        };
        let ty = string(v.get("node_type"))?;
        let mut kids = BTreeMap::new();
        match v.get("children") {
            Some(Val::Map(m)) => {
                for (k, c) in m {
                    let kid = match c {
                        Val::Map(e) if e.len() == 1 && e[0].0 == "Node" => {
                            Kid::One(Box::new(N::from_val(&e[0].1)?))
                        }
                        Val::Map(e) if e.len() == 1 && e[0].0 == "NodeVec" => {
                            Kid::Many(N::list(&e[0].1)?)
                        }
                        _ => return Err(format!("child {:?} is neither Node nor NodeVec", k)),
                    };
                    if kids.insert(k.clone(), kid).is_some() {
                        return Err(format!("duplicate child key {:?}", k));
                    }
                }
            }
            other => return Err(format!("children is not an object: {:?}", other)),
        }
        Ok(N { tok, ty, kids })
    }
    pub fn list(v: &Val) -> Result<Vec<N>, String> {
        match v {
            Val::Seq(s) => s.iter().map(N::from_val).collect(),
            _ => Err("statements: not an array".into()),
        }
    }
    /// every token of the subtree, in no particular order
    pub fn collect<'a>(&'a self, out: &mut Vec<&'a Tok>) {
        if let Some(t) = &self.tok {
            out.push(t);
        }
        for k in self.kids.values() {
            match k {
                Kid::One(n) => n.collect(out),
                Kid::Many(v) => v.iter().for_each(|n| n.collect(out)),
            }
        }
    }
    pub fn one(&self, key: &str) -> Option<&N> {
        match self.kids.get(key) {
            Some(Kid::One(n)) => Some(n),
            _ => None,
        }
    }
    pub fn many(&self, key: &str) -> Option<&Vec<N>> {
        match self.kids.get(key) {
            Some(Kid::Many(n)) => Some(n),
            _ => None,
        }
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a N)) {
        f(self);
        for k in self.kids.values() {
            match k {
                Kid::One(n) => n.walk(f),
                Kid::Many(v) => v.iter().for_each(|n| n.walk(f)),
            }
        }
    }
    pub fn walk_mut(&mut self, f: &mut dyn FnMut(&mut N)) {
        f(self);
        for k in self.kids.values_mut() {
            match k {
                Kid::One(n) => n.walk_mut(f),
                Kid::Many(v) => v.iter_mut().for_each(|n| n.walk_mut(f)),
            }
        }
    }
    pub fn dump(&self) -> String {
        let mut s = String::new();
        self.dump_to(&mut s, 0, "");
        s
    }
    fn dump_to(&self, s: &mut String, ind: usize, key: &str) {
        use std::fmt::Write;
        let t = match &self.tok {
            Some(t) => format!("{:?}@{}:{}", t.lit, t.line, t.col),
            None => "-".to_string(),
        };
        let _ = writeln!(s, "{}{}{} {}", "  ".repeat(ind), key, self.ty, t);
        for (k, kid) in &self.kids {
            match kid {
                Kid::One(n) => n.dump_to(s, ind + 1, &format!("{}: ", k)),
                Kid::Many(v) => {
                    let _ = writeln!(s, "{}{}: [{}]", "  ".repeat(ind + 1), k, v.len());
                    for n in v {
                        n.dump_to(s, ind + 2, "- ");
                    }
                }
            }
        }
    }
}

/// First difference between two trees, as a path. Positions are compared only if `pos`.
pub fn diff(a: &N, b: &N, pos: bool) -> Option<String> {
    fn go(a: &N, b: &N, pos: bool, path: &mut Vec<String>) -> Option<String> {
        let here = |path: &Vec<String>, what: String| Some(format!("at /{}: {}", path.join("/"), what));
        if a.ty != b.ty {
            return here(path, format!("node_type {} vs {}", a.ty, b.ty));
        }
        match (&a.tok, &b.tok) {
            (Some(x), Some(y)) => {
                if x.lit != y.lit {
                    return here(path, format!("token {:?} vs {:?}", x.lit, y.lit));
                }
                if pos && x.pos() != y.pos() {
                    return here(path, format!("token {:?} at {:?} vs {:?}", x.lit, x.pos(), y.pos()));
                }
            }
            (None, None) => (),
            (x, y) => return here(path, format!("token {:?} vs {:?}", x, y)),
        }
        for k in a.kids.keys() {
            if !b.kids.contains_key(k) {
                return here(path, format!("child {:?} only in the first tree ({})", k, a.ty));
            }
        }
        for k in b.kids.keys() {
            if !a.kids.contains_key(k) {
                return here(path, format!("child {:?} only in the second tree ({})", k, a.ty));
            }
        }
        for (k, x) in &a.kids {
            path.push(k.clone());
            let r = match (x, &b.kids[k]) {
                (Kid::One(x), Kid::One(y)) => go(x, y, pos, path),
                (Kid::Many(x), Kid::Many(y)) => {
                    if x.len() != y.len() {
                        here(path, format!("list length {} vs {}", x.len(), y.len()))
                    } else {
                        let mut r = None;
                        for (i, (p, q)) in x.iter().zip(y).enumerate() {
                            path.push(i.to_string());
                            r = go(p, q, pos, path);
                            if r.is_some() {
                                break;
                            }
                            path.pop();
                        }
                        r
                    }
                }
                _ => here(path, "Node vs NodeVec".to_string()),
            };
            if r.is_some() {
                return r;
            }
            path.pop();
        }
        None
    }
    go(a, b, pos, &mut Vec::new())
}

pub fn diff_list(a: &[N], b: &[N], pos: bool) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} statements vs {}", a.len(), b.len()));
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if let Some(d) = diff(x, y, pos) {
            return Some(format!("statement {}: {}", i, d));
        }
    }
    None
}

//! Oracles that need nothing but a text.
use crate::api::{self, Out};
use crate::reflex;
use crate::tree::{Kid, Tok, N};
use std::collections::HashMap;

/// what an oracle says about one text
#[derive(Debug, Clone, Default)]
pub struct Seen {
    /// how the library answered
    pub kind: &'static str,
    /// the text exercised the property (by the rule of the check)
    pub nontrivial: bool,
    pub fail: Option<String>,
}

impl Seen {
    pub fn pass(kind: &'static str, nontrivial: bool) -> Seen {
        Seen { kind, nontrivial, fail: None }
    }
    pub fn fail(kind: &'static str, why: String) -> Seen {
        Seen { kind, nontrivial: true, fail: Some(why) }
    }
}

/// Walks over the source with the tokens in order: only white space may lie between them.
/// Returns the position of every token as counted on the source.
pub fn walk_source(text: &str, toks: &[Tok]) -> Result<Vec<(u64, u64)>, String> {
    let t: Vec<char> = text.chars().collect();
    let (mut i, mut line, mut col) = (0, 1u64, 1u64);
    let mut at = vec![];
    let step = |i: &mut usize, line: &mut u64, col: &mut u64| {
        if t[*i] == '\n' {
            *line += 1;
            *col = 1;
        } else {
            *col += 1;
        }
        *i += 1;
    };
    for (k, tok) in toks.iter().enumerate() {
        while i < t.len() && t[i].is_whitespace() {
            step(&mut i, &mut line, &mut col);
        }
        if tok.lit.is_empty() {
            return Err(format!("token {} is empty", k));
        }
        at.push((line, col));
        for c in tok.lit.chars() {
            if i >= t.len() || t[i] != c {
                let rest: String = t[i..].iter().take(20).collect();
                return Err(format!("token {} {:?} does not stand in the source, which goes on with {:?}", k, tok.lit, rest));
            }
            step(&mut i, &mut line, &mut col);
        }
    }
    while i < t.len() {
        if !t[i].is_whitespace() {
            let rest: String = t[i..].iter().take(20).collect();
            return Err(format!("no token covers {:?}", rest));
        }
        step(&mut i, &mut line, &mut col);
    }
    Ok(at)
}

fn split_eof(toks: Vec<Tok>) -> Result<Vec<Tok>, String> {
    let mut toks = toks;
    match toks.pop() {
        Some(t) if t.lit.is_empty() => Ok(toks),
        Some(t) => Err(format!("the last token is {:?}, not the end mark", t.lit)),
        None => Err("no tokens at all, not even the end mark".into()),
    }
}

macro_rules! bail {
    ($o:expr) => {
        match $o {
            Out::Ok(t) => t,
            Out::Err(_) => return Seen::pass("rejected", false),
            Out::Panic(m) => return Seen::fail("panic", format!("panic: {}", m)),
            Out::Malformed(m) => return Seen::fail("malformed", format!("malformed output: {}", m)),
        }
    };
}

/// tokens spell out the source
pub fn lossless(text: &str) -> Seen {
    let toks = match split_eof(bail!(api::tokenize(text))) {
        Ok(t) => t,
        Err(e) => return Seen::fail("ok", e),
    };
    match walk_source(text, &toks) {
        Ok(_) => Seen::pass("ok", toks.len() >= 2),
        Err(e) => Seen::fail("ok", e),
    }
}

/// positions of tokens and of the nodes of the tree are those of the source
pub fn positions(text: &str) -> Seen {
    let toks = match split_eof(bail!(api::tokenize(text))) {
        Ok(t) => t,
        Err(e) => return Seen::fail("ok", e),
    };
    // if the tokens do not spell out the source, their positions cannot be judged
    let at = match walk_source(text, &toks) {
        Ok(a) => a,
        Err(_) => return Seen::pass("ok", false),
    };
    for (t, p) in toks.iter().zip(&at) {
        if t.pos() != *p {
            return Seen::fail("ok", format!("token {:?} is at {:?}, reported at {:?}", t.lit, p, t.pos()));
        }
    }
    let mut deep = false;
    if let Out::Ok(tree) = api::parse(text) {
        deep = true;
        let by: HashMap<(u64, u64), &str> = at.iter().cloned().zip(toks.iter().map(|t| t.lit.as_str())).collect();
        let mut v = vec![];
        tree.iter().for_each(|n| n.collect(&mut v));
        for t in v {
            match by.get(&t.pos()) {
                Some(l) if *l == t.lit => (),
                Some(l) => return Seen::fail("ok", format!("a node says {:?} is at {:?}, where the source has {:?}", t.lit, t.pos(), l)),
                None => return Seen::fail("ok", format!("a node says {:?} is at {:?}, where no token starts", t.lit, t.pos())),
            }
        }
    }
    Seen::pass(if deep { "ok" } else { "tokens only" }, toks.len() >= 2 && (deep || at.last().unwrap().0 > 1))
}

/// same tokens as the reference lexer; rejected exactly when it rejects
pub fn lexical(text: &str) -> Seen {
    let want = reflex::lex(text);
    match api::tokenize(text) {
        Out::Panic(m) => Seen::fail("panic", format!("panic: {}", m)),
        Out::Malformed(m) => Seen::fail("malformed", m),
        Out::Err(e) => match want.err {
            Some(_) => Seen::pass("rejected", true),
            None => Seen::fail("rejected", format!("rejected at {}:{} ({}), although every token is complete", e.line, e.col, e.msg)),
        },
        Out::Ok(got) => {
            let got = match split_eof(got) {
                Ok(t) => t,
                Err(e) => return Seen::fail("ok", e),
            };
            if let Some(e) = want.err {
                return Seen::fail("ok", format!("accepted, although there is an unfinished {} (up to {}:{})", e.why, e.line, e.col));
            }
            for (i, (a, b)) in want.toks.iter().zip(&got).enumerate() {
                if a.lit != b.lit {
                    return Seen::fail("ok", format!("token {} should be {:?}, is {:?}", i, a.lit, b.lit));
                }
            }
            if want.toks.len() != got.len() {
                return Seen::fail("ok", format!("{} tokens expected, {} found", want.toks.len(), got.len()));
            }
            Seen::pass("ok", got.len() >= 2)
        }
    }
}

/// returns, and does not panic
pub fn total(text: &str) -> Seen {
    let mut kind = "ok";
    match api::tokenize(text) {
        Out::Panic(m) => return Seen::fail("panic", format!("tokenize panics: {}", m)),
        Out::Malformed(m) => return Seen::fail("malformed", format!("tokenize: {}", m)),
        _ => (),
    }
    match api::parse(text) {
        Out::Panic(m) => return Seen::fail("panic", format!("parse panics: {}", m)),
        Out::Malformed(m) => return Seen::fail("malformed", format!("parse: {}", m)),
        Out::Err(_) => kind = "rejected",
        _ => (),
    }
    Seen::pass(kind, text.chars().count() >= 2)
}

/// the position of an error: a token of the source, or the end
pub fn errors(text: &str) -> Seen {
    let want = reflex::lex(text);
    let t = api::tokenize(text);
    let p = api::parse(text);
    match (t, p) {
        (Out::Panic(m), _) | (_, Out::Panic(m)) => Seen::fail("panic", format!("panic: {}", m)),
        (Out::Malformed(m), _) | (_, Out::Malformed(m)) => Seen::fail("malformed", m),
        (Out::Err(a), Out::Err(b)) => {
            if a != b {
                return Seen::fail("rejected", format!("tokenize reports {:?}, parse reports {:?}", a, b));
            }
            if a.msg.trim().is_empty() {
                return Seen::fail("rejected", "the message is empty".into());
            }
            if let Some(e) = want.err {
                if (a.line, a.col) != (e.line, e.col) {
                    return Seen::fail(
                        "rejected",
                        format!("{}: the source stops making sense at {}:{}, reported at {}:{}", e.why, e.line, e.col, a.line, a.col),
                    );
                }
            }
            Seen::pass("rejected by the lexer", true)
        }
        (Out::Err(a), Out::Ok(_)) => Seen::fail("ok", format!("tokenize rejects ({:?}), parse accepts", a)),
        (Out::Ok(toks), Out::Err(e)) => {
            if e.msg.trim().is_empty() {
                return Seen::fail("rejected", "the message is empty".into());
            }
            if toks.iter().any(|t| t.pos() == (e.line, e.col) && !t.is_comment()) {
                Seen::pass("rejected by the parser", true)
            } else {
                Seen::fail("rejected", format!("reported at {}:{}, where no token starts", e.line, e.col))
            }
        }
        _ => Seen::pass("ok", false),
    }
}

/// every token of the source exactly once in the tree; the end node last, and nowhere else
pub fn complete(text: &str) -> Seen {
    let tree = bail!(api::parse(text));
    let mut want = reflex::lex(text).toks;
    let n = want.len();
    match tree.last() {
        Some(l) if l.ty == "EOF" && l.tok.is_none() => (),
        _ => return Seen::fail("ok", "the last node is not the end node".into()),
    }
    let mut eofs = 0;
    let mut v = vec![];
    for x in &tree {
        x.collect(&mut v);
        x.walk(&mut |n| eofs += (n.ty == "EOF") as usize);
    }
    if eofs != 1 {
        return Seen::fail("ok", format!("{} end nodes", eofs));
    }
    let mut got: Vec<Tok> = v.into_iter().cloned().collect();
    got.sort();
    want.sort();
    if got != want {
        let mut i = 0;
        let mut j = 0;
        while i < want.len() || j < got.len() {
            if j >= got.len() || i < want.len() && want[i] < got[j] {
                return Seen::fail("ok", format!("token {:?} at {:?} is not in the tree", want[i].lit, want[i].pos()));
            }
            if i >= want.len() || got[j] < want[i] {
                let dup = j > 0 && got[j] == got[j - 1];
                return Seen::fail(
                    "ok",
                    format!("token {:?} at {:?} is {}", got[j].lit, got[j].pos(), if dup { "in the tree twice" } else { "in the tree but not in the source" }),
                );
            }
            i += 1;
            j += 1;
        }
    }
    Seen::pass("ok", n >= 3)
}

/// comments hang where the rule puts them
pub fn comments(text: &str) -> Seen {
    let tree = bail!(api::parse(text));
    let toks = reflex::lex(text).toks;
    // expected: per significant token its leading and trailing comments
    let mut lead: HashMap<(u64, u64), Vec<Tok>> = HashMap::new();
    let mut trail: HashMap<(u64, u64), Vec<Tok>> = HashMap::new();
    let mut pending: Vec<Tok> = vec![];
    let mut last: Option<&Tok> = None;
    let mut n = 0;
    for t in &toks {
        if t.is_comment() {
            n += 1;
            match last {
                Some(l) if l.line == t.line && pending.is_empty() => trail.entry(l.pos()).or_default().push(t.clone()),
                _ => pending.push(t.clone()),
            }
        } else {
            if !pending.is_empty() {
                lead.insert(t.pos(), std::mem::take(&mut pending));
            }
            last = Some(t);
        }
    }
    let mut bad = None;
    let get = |n: &N, key: &str| -> Result<Vec<Tok>, String> {
        match n.kids.get(key) {
            None => Ok(vec![]),
            Some(Kid::One(_)) => Err(format!("{} of {} is not a list", key, n.ty)),
            Some(Kid::Many(v)) => {
                if v.is_empty() {
                    return Err(format!("{} of {} is empty", key, n.ty));
                }
                for c in v {
                    if c.ty != "Comment" || !c.kids.is_empty() || c.tok.is_none() {
                        return Err(format!("{} of {} holds a {} node", key, n.ty, c.ty));
                    }
                }
                Ok(v.iter().map(|c| c.tok.clone().unwrap()).collect())
            }
        }
    };
    let lits = |v: &Vec<Tok>| v.iter().map(|t| format!("{:?}@{}:{}", t.lit, t.line, t.col)).collect::<Vec<_>>().join(" ");
    for (i, x) in tree.iter().enumerate() {
        x.walk(&mut |n| {
            if bad.is_some() || n.ty == "Comment" {
                return;
            }
            let (want_l, want_t) = match &n.tok {
                Some(t) => (lead.get(&t.pos()).cloned().unwrap_or_default(), trail.get(&t.pos()).cloned().unwrap_or_default()),
                None if n.ty == "EOF" && i + 1 == tree.len() => (pending.clone(), vec![]),
                None => (vec![], vec![]),
            };
            for (key, want) in [("leading_comments", want_l), ("trailing_comments", want_t)] {
                match get(n, key) {
                    Err(e) => bad = Some(e),
                    Ok(got) => {
                        if got != want {
                            let name = n.tok.as_ref().map_or("the end node".to_string(), |t| format!("{:?} at {:?}", t.lit, t.pos()));
                            bad = Some(format!("{} of {} should be [{}], is [{}]", key, name, lits(&want), lits(&got)));
                        }
                    }
                }
            }
        });
        // comments anywhere else
        x.walk(&mut |n| {
            for (k, kid) in &n.kids {
                if k == "leading_comments" || k == "trailing_comments" {
                    continue;
                }
                let hit = match kid {
                    Kid::One(c) => c.ty == "Comment",
                    Kid::Many(v) => v.iter().any(|c| c.ty == "Comment"),
                };
                if hit && bad.is_none() {
                    bad = Some(format!("a comment is the child {:?} of {}", k, n.ty));
                }
            }
        });
    }
    match bad {
        Some(b) => Seen::fail("ok", b),
        None => Seen::pass("ok", n > 0 && toks.len() > n),
    }
}

/// subtrees are contiguous stretches of the source, lists are in source order
pub fn contiguous(text: &str) -> Seen {
    let tree = bail!(api::parse(text));
    let toks = reflex::lex(text).toks;
    let index: HashMap<(u64, u64), usize> = toks.iter().filter(|t| !t.is_comment()).enumerate().map(|(i, t)| (t.pos(), i)).collect();
    // (lowest, highest, number of tokens); comments are not counted
    fn go(n: &N, index: &HashMap<(u64, u64), usize>, bad: &mut Option<String>, nodes: &mut usize) -> Option<(usize, usize, usize)> {
        if n.ty == "Comment" {
            return None;
        }
        *nodes += 1;
        let mut span: Option<(usize, usize, usize)> = None;
        let mut join = |s: (usize, usize, usize)| {
            span = Some(match span {
                None => s,
                Some(a) => (a.0.min(s.0), a.1.max(s.1), a.2 + s.2),
            })
        };
        if let Some(t) = &n.tok {
            match index.get(&t.pos()) {
                Some(i) => join((*i, *i, 1)),
                None => {
                    bad.get_or_insert(format!("token {:?} at {:?} is not in the source", t.lit, t.pos()));
                }
            }
        }
        for (k, kid) in &n.kids {
            match kid {
                Kid::One(c) => {
                    if let Some(s) = go(c, index, bad, nodes) {
                        join(s)
                    }
                }
                Kid::Many(v) => {
                    let mut last: Option<usize> = None;
                    for c in v {
                        if c.ty == "Comment" {
                            continue;
                        }
                        if let Some(s) = go(c, index, bad, nodes) {
                            if last.map_or(false, |l| l >= s.0) {
                                bad.get_or_insert(format!("the list {:?} of {} is not in source order", k, n.ty));
                            }
                            last = Some(s.1);
                            join(s)
                        }
                    }
                }
            }
        }
        if let Some(s) = span {
            if s.1 - s.0 + 1 != s.2 {
                bad.get_or_insert(format!(
                    "the {} node at {:?} has {} tokens but reaches from token {} to token {}",
                    n.ty,
                    n.tok.as_ref().map(|t| t.pos()),
                    s.2,
                    s.0,
                    s.1
                ));
            }
        }
        span
    }
    let mut bad = None;
    let mut nodes = 0;
    let mut next = 0;
    for (i, x) in tree.iter().enumerate() {
        match go(x, &index, &mut bad, &mut nodes) {
            Some(s) => {
                if s.0 != next && bad.is_none() {
                    bad = Some(format!("statement {} starts at token {}, not at token {}", i, s.0, next));
                }
                next = s.1 + 1;
            }
            None => {
                if i + 1 != tree.len() && bad.is_none() {
                    bad = Some(format!("statement {} has no token", i));
                }
            }
        }
    }
    // comments in their lists
    for x in &tree {
        x.walk(&mut |n| {
            for k in ["leading_comments", "trailing_comments"] {
                if let Some(v) = n.many(k) {
                    let p: Vec<_> = v.iter().filter_map(|c| c.tok.as_ref().map(|t| t.pos())).collect();
                    if p.windows(2).any(|w| w[0] >= w[1]) {
                        bad.get_or_insert(format!("{} of {} are not in source order", k, n.ty));
                    }
                    if let Some(t) = &n.tok {
                        let ok = if k == "leading_comments" { p.iter().all(|c| *c < t.pos()) } else { p.iter().all(|c| *c > t.pos()) };
                        if !ok {
                            bad.get_or_insert(format!("{} of {:?} are on the wrong side", k, t.lit));
                        }
                    }
                }
            }
        });
    }
    match bad {
        Some(b) => Seen::fail("ok", b),
        None => Seen::pass("ok", nodes >= 4),
    }
}

/// in an accepted text every bracket is closed by its own kind, commas are commas and semicolons
/// are semicolons
pub fn brackets(text: &str) -> Seen {
    let tree = bail!(api::parse(text));
    let mut n = 0;
    let mut bad = None;
    for x in &tree {
        x.walk(&mut |x| {
            for (k, c) in &x.kids {
                let c = match c {
                    Kid::One(c) => c,
                    _ => continue,
                };
                let lit = c.tok.as_ref().map_or("", |t| t.lit.as_str());
                let want = match (k.as_str(), x.tok.as_ref().map(|t| t.lit.as_str())) {
                    ("rparen", Some("(")) if !x.ty.starts_with("Array") => ")",
                    ("rparen", Some("[")) if matches!(x.ty.as_str(), "ArrayLiteral" | "ArrayAccessing") => "]",
                    ("rparen", Some("<")) if x.ty == "GroupedType" => ">",
                    ("rbrace", Some("{")) => "}",
                    ("comma", _) => ",",
                    ("semicolon", _) => ";",
                    _ => continue,
                };
                n += 1;
                if lit != want && bad.is_none() {
                    bad = Some(format!("the {} of {} {:?} is {:?}", k, x.ty, x.tok.as_ref().map(|t| &t.lit), c.tok));
                }
            }
        });
    }
    match bad {
        Some(b) => Seen::fail("ok", b),
        None => Seen::pass("ok", n > 0),
    }
}

/// the text that the tokens and comments of a tree spell out, each at its line and column
pub fn print_back(tree: &[N]) -> Result<String, String> {
    let mut v = vec![];
    tree.iter().for_each(|n| n.collect(&mut v));
    v.sort_by_key(|t| t.pos());
    let mut out = String::new();
    let (mut line, mut col) = (1u64, 1u64);
    for t in v {
        let (l, c) = t.pos();
        if (l, c) < (line, col) || l - line > 1_000_000 || c > 1_000_000 {
            return Err(format!("{:?} cannot be printed at {:?}: the text before it ends at {:?}", t.lit, (l, c), (line, col)));
        }
        while line < l {
            out.push('\n');
            line += 1;
            col = 1;
        }
        while col < c {
            out.push(' ');
            col += 1;
        }
        out.push_str(&t.lit);
        for x in t.lit.chars() {
            if x == '\n' {
                line += 1;
                col = 1;
            } else {
                col += 1;
            }
        }
    }
    Ok(out)
}

/// the tree is enough to print the source, and the printed source has that tree again
pub fn printed(text: &str) -> Seen {
    let tree = bail!(api::parse(text));
    let out = match print_back(&tree) {
        Ok(o) => o,
        Err(e) => return Seen::fail("ok", e),
    };
    let visible = |t: &str| t.chars().filter(|c| !c.is_whitespace()).collect::<String>();
    let (a, b) = (visible(text), visible(&out));
    if a != b {
        let n = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count();
        let rest = |t: &str| t.chars().skip(n).take(20).collect::<String>();
        return Seen::fail("ok", format!("printed from the tree, the source goes on with {:?} instead of {:?} (after {} characters)", rest(&b), rest(&a), n));
    }
    match api::parse(&out) {
        Out::Ok(again) => match tree.len() == again.len() && tree.iter().zip(&again).all(|(x, y)| x == y) {
            true => Seen::pass("ok", tree.len() >= 2 && a.len() >= 5),
            false => Seen::fail("ok", format!("the source printed from the tree has another tree; printed: {:?}", out)),
        },
        Out::Err(e) => Seen::fail("ok", format!("the source printed from the tree is rejected: {:?}; printed: {:?}", e, out)),
        Out::Panic(m) => Seen::fail("panic", format!("panic: {}", m)),
        Out::Malformed(m) => Seen::fail("malformed", format!("malformed output: {}", m)),
    }
}

//! Metamorphic relations: two related texts, one relation between their trees.
use crate::api::{self, Out};
use crate::engine::Src;
use crate::gen::layout::{comment, is_line_comment, WS};
use crate::oracle::Seen;
use crate::reflex;
use crate::tree::{diff_list, Kid, PErr, Tok, N};
use std::collections::HashMap;

/// what the library said about a text, with positions turned into token numbers
/// (comments left out), so that answers for different layouts can be compared
#[derive(Debug, Clone, PartialEq)]
pub enum Answer {
    Tree(Vec<N>),
    /// number of the token (one past the last: the end), message
    Error(usize, String),
}

pub fn is_word(t: &Tok) -> bool {
    t.lit.chars().next().map_or(false, |c| c == '_' || c.is_alphabetic())
}

/// the number of every token that is not a comment, by position
pub fn numbers(toks: &[Tok]) -> HashMap<(u64, u64), usize> {
    toks.iter().filter(|t| !t.is_comment()).enumerate().map(|(i, t)| (t.pos(), i)).collect()
}

/// drops comments and replaces positions by (0, number of the token)
pub fn normal(n: &N, num: &HashMap<(u64, u64), usize>) -> Result<N, String> {
    let mut kids = std::collections::BTreeMap::new();
    for (k, c) in &n.kids {
        if k == "leading_comments" || k == "trailing_comments" {
            continue;
        }
        let c = match c {
            Kid::One(c) => Kid::One(Box::new(normal(c, num)?)),
            Kid::Many(v) => Kid::Many(v.iter().map(|c| normal(c, num)).collect::<Result<_, _>>()?),
        };
        kids.insert(k.clone(), c);
    }
    let tok = match &n.tok {
        None => None,
        Some(t) => match num.get(&t.pos()) {
            Some(i) => Some(Tok { line: 0, col: *i as u64, lit: t.lit.clone() }),
            None => return Err(format!("token {:?} at {:?} is not in the source", t.lit, t.pos())),
        },
    };
    Ok(N { tok, ty: n.ty.clone(), kids })
}

/// Err: the library panicked or answered nonsense
pub fn answer(text: &str, toks: &[Tok]) -> Result<Answer, String> {
    let num = numbers(toks);
    match api::parse(text) {
        Out::Ok(v) => Ok(Answer::Tree(v.iter().map(|n| normal(n, &num)).collect::<Result<_, _>>()?)),
        Out::Err(PErr { line, col, msg }) => {
            let at = num.get(&(line, col)).copied().unwrap_or(num.len());
            Ok(Answer::Error(at, msg))
        }
        o => Err(o.describe()),
    }
}

pub fn compare(a: &Answer, b: &Answer) -> Option<String> {
    match (a, b) {
        (Answer::Tree(a), Answer::Tree(b)) => diff_list(a, b, true),
        (Answer::Error(i, _), Answer::Error(j, _)) => {
            if i != j {
                Some(format!("rejected at token {} vs token {}", i, j))
            } else {
                None
            }
        }
        (Answer::Tree(_), Answer::Error(i, m)) => Some(format!("accepted vs rejected at token {} ({})", i, m)),
        (Answer::Error(i, m), Answer::Tree(_)) => Some(format!("rejected at token {} ({}) vs accepted", i, m)),
    }
}

fn kind(a: &Answer) -> &'static str {
    match a {
        Answer::Tree(_) => "accepted",
        Answer::Error(..) => "rejected",
    }
}

fn random_gap(s: &mut Src) -> String {
    let mut g = String::new();
    let mut line = false;
    if s.chance(1, 4000) {
        g = crate::gen::layout::crowd(s).join("\n");
        g.push('\n');
    }
    for _ in 0..1 + s.pick(&[6, 3, 1]) {
        if s.chance(1, 3) {
            if line {
                g.push('\n');
            }
            let c = comment(s);
            line = is_line_comment(&c);
            g.push_str(&c);
        } else {
            let w = *s.of(WS);
            if line && !w.contains('\n') {
                g.push('\n');
            }
            g.push_str(w);
            line = false;
        }
    }
    if line {
        g.push('\n');
    }
    g
}

/// Another layout of the same tokens. Tokens that touched still touch, unless one of them is a
/// bracket, a comma or a semicolon (which never belong to the token next to them).
pub fn relayout(s: &mut Src, text: &str) -> Option<String> {
    let t: Vec<char> = text.chars().collect();
    let l = reflex::lex(text);
    if l.err.is_some() {
        return None;
    }
    let mut out = String::new();
    let sig: Vec<(usize, usize)> = l.toks.iter().zip(&l.spans).filter(|(t, _)| !t.is_comment()).map(|(_, s)| *s).collect();
    let plain = s.chance(1, 4);
    let mut last = 0;
    for (k, (from, to)) in sig.iter().enumerate() {
        let single = |i: usize| sig[i].1 - sig[i].0 == 1 && "),;".contains(t[sig[i].0]);
        if k == 0 {
            if s.chance(1, 2) {
                out.push_str(&random_gap(s));
            }
        } else if last < *from {
            let g = if plain { " ".into() } else { random_gap(s) };
            // -/*c*/ and //*c*/ must not merge
            if g.starts_with(|c| c == '-' || c == '/') && matches!(t[last - 1], '-' | '/') {
                out.push(' ');
            }
            out.push_str(&g);
        } else if single(k) && s.chance(1, 4) {
            let g = random_gap(s);
            if g.starts_with(|c| c == '-' || c == '/') && matches!(t[last - 1], '-' | '/') {
                out.push(' ');
            }
            out.push_str(&g);
        }
        out.extend(&t[*from..*to]);
        last = *to;
    }
    if s.chance(1, 2) {
        let g = random_gap(s);
        if g.starts_with(|c| c == '-' || c == '/') && last > 0 && matches!(t[last - 1], '-' | '/') {
            out.push(' ');
        }
        out.push_str(&g);
    }
    Some(out)
}

pub fn layout(s: &mut Src, text: &str) -> (Seen, String) {
    let b = match relayout(s, text) {
        Some(b) => b,
        None => return (Seen::pass("not tokens", false), String::new()),
    };
    let la = reflex::lex(text);
    let lb = reflex::lex(&b);
    let sig = |l: &reflex::Lexed| l.toks.iter().filter(|t| !t.is_comment()).map(|t| t.lit.clone()).collect::<Vec<_>>();
    if lb.err.is_some() || sig(&la) != sig(&lb) {
        return (Seen::pass("layout changed the tokens", false), b);
    }
    let r = (|| -> Result<Seen, String> {
        let x = answer(text, &la.toks)?;
        let y = answer(&b, &lb.toks)?;
        Ok(match compare(&x, &y) {
            Some(d) => Seen::fail(kind(&x), format!("another layout, another answer: {}", d)),
            None => Seen::pass(kind(&x), sig(&la).len() >= 3 && text != b),
        })
    })();
    (r.unwrap_or_else(|e| Seen::fail("panic", e)), b)
}

/// other case for the words of the text
pub fn flip(s: &mut Src, text: &str) -> Option<String> {
    let t: Vec<char> = text.chars().collect();
    let l = reflex::lex(text);
    if l.err.is_some() {
        return None;
    }
    let mode = s.below(4);
    let mut out: Vec<char> = t.clone();
    for (tok, (a, b)) in l.toks.iter().zip(&l.spans) {
        let number = tok.lit.starts_with(|c: char| c.is_ascii_digit() || c == '.');
        if !is_word(tok) && !number {
            continue;
        }
        let whole = s.chance(1, 2);
        for i in *a..*b {
            out[i] = match mode {
                0 => t[i].to_ascii_uppercase(),
                1 => t[i].to_ascii_lowercase(),
                2 => {
                    if whole {
                        t[i].to_ascii_uppercase()
                    } else {
                        t[i].to_ascii_lowercase()
                    }
                }
                _ => {
                    if s.chance(1, 2) {
                        t[i].to_ascii_uppercase()
                    } else {
                        t[i].to_ascii_lowercase()
                    }
                }
            }
        }
    }
    Some(out.into_iter().collect())
}

fn lower(a: &mut Answer) {
    match a {
        Answer::Tree(v) => v.iter_mut().for_each(|n| {
            n.walk_mut(&mut |n| {
                if let Some(t) = &mut n.tok {
                    t.lit = t.lit.to_ascii_lowercase();
                }
            })
        }),
        Answer::Error(_, m) => *m = m.to_ascii_lowercase(),
    }
}

pub fn cases(s: &mut Src, text: &str) -> (Seen, String) {
    let b = match flip(s, text) {
        Some(b) => b,
        None => return (Seen::pass("not tokens", false), String::new()),
    };
    let r = (|| -> Result<Seen, String> {
        let (la, lb) = (reflex::lex(text), reflex::lex(&b));
        let mut x = answer(text, &la.toks)?;
        let mut y = answer(&b, &lb.toks)?;
        lower(&mut x);
        lower(&mut y);
        Ok(match compare(&x, &y) {
            Some(d) => Seen::fail(kind(&x), format!("other letter case, another answer: {}", d)),
            None => Seen::pass(kind(&x), la.toks.len() >= 2 && text != b),
        })
    })();
    (r.unwrap_or_else(|e| Seen::fail("panic", e)), b)
}

/// `a` followed by `b` is answered like `a` and `b` one by one; `a` has to end with a semicolon
pub fn sequence(a: &str, b: &str) -> Seen {
    let text = format!("{}\n{}", a, b);
    let r = (|| -> Result<Seen, String> {
        let (la, lb, lc) = (reflex::lex(a), reflex::lex(b), reflex::lex(&text));
        if la.err.is_some() || lb.err.is_some() || lc.err.is_some() || lc.toks.len() != la.toks.len() + lb.toks.len() {
            return Ok(Seen::pass("not tokens", false));
        }
        let n = la.toks.iter().filter(|t| !t.is_comment()).count();
        let x = answer(a, &la.toks)?;
        let y = answer(b, &lb.toks)?;
        let z = answer(&text, &lc.toks)?;
        let mut want = match x {
            Answer::Tree(mut v) => {
                v.pop();
                if v.last().map_or(false, |s| s.one("semicolon").is_none()) {
                    return Ok(Seen::pass("first part is open", false));
                }
                v
            }
            _ => return Ok(Seen::pass("first part rejected", false)),
        };
        let parts = want.len();
        let want = match y {
            Answer::Tree(mut v) => {
                v.iter_mut().for_each(|n1| {
                    n1.walk_mut(&mut |m| {
                        if let Some(t) = &mut m.tok {
                            t.col += n as u64
                        }
                    })
                });
                want.extend(v);
                Answer::Tree(want)
            }
            Answer::Error(i, m) => Answer::Error(i + n, m),
        };
        Ok(match compare(&want, &z) {
            Some(d) => Seen::fail(kind(&want), format!("the two parts alone vs together: {}", d)),
            None => Seen::pass(kind(&want), parts > 0 && !lb.toks.is_empty()),
        })
    })();
    r.unwrap_or_else(|e| Seen::fail("panic", e))
}

/// every statement of an accepted text, cut out, gives the same statement
pub fn cut(text: &str) -> Seen {
    let l = reflex::lex(text);
    let t: Vec<char> = text.chars().collect();
    let sig: Vec<(usize, usize)> = l.toks.iter().zip(&l.spans).filter(|(t, _)| !t.is_comment()).map(|(_, s)| *s).collect();
    let v = match answer(text, &l.toks) {
        Err(e) => return Seen::fail("panic", e),
        Ok(Answer::Error(..)) => return Seen::pass("rejected", false),
        Ok(Answer::Tree(v)) => v,
    };
    let n = v.len() - 1;
    let mut tried = 0;
    for (k, st) in v.iter().take(n).enumerate() {
        if k + 1 < n && st.one("semicolon").is_none() {
            continue; // run into the next one, as in `SELECT 1 SELECT 2`
        }
        tried += 1;
        let mut ts = vec![];
        st.collect(&mut ts);
        let lo = ts.iter().map(|t| t.col).min().unwrap_or(0) as usize;
        let hi = ts.iter().map(|t| t.col).max().unwrap_or(0) as usize;
        let part: String = t[sig[lo].0..sig[hi].1].iter().collect();
        let lp = reflex::lex(&part);
        if lp.err.is_some() || lp.toks.iter().filter(|t| !t.is_comment()).count() != hi - lo + 1 {
            continue; // an unclosed < of an earlier statement
        }
        let mut want = st.clone();
        want.walk_mut(&mut |m| {
            if let Some(t) = &mut m.tok {
                t.col -= lo as u64
            }
        });
        match answer(&part, &lp.toks) {
            Err(e) => return Seen::fail("panic", e),
            Ok(Answer::Error(i, m)) => return Seen::fail("accepted", format!("statement {} alone is rejected at token {} ({})", k, i, m)),
            Ok(Answer::Tree(got)) => {
                if got.len() != 2 {
                    return Seen::fail("accepted", format!("statement {} alone is {} statements", k, got.len() - 1));
                }
                if let Some(d) = crate::tree::diff(&want, &got[0], true) {
                    return Seen::fail("accepted", format!("statement {} in the script vs alone: {}", k, d));
                }
            }
        }
    }
    Seen::pass("accepted", n >= 2 && tried > 0)
}

/// a final semicolon may be added or left out
pub fn semicolon(text: &str) -> Seen {
    let l = reflex::lex(text);
    if l.err.is_some() {
        return Seen::pass("not tokens", false);
    }
    let v = match answer(text, &l.toks) {
        Err(e) => return Seen::fail("panic", e),
        Ok(Answer::Error(..)) => return Seen::pass("rejected", false),
        Ok(Answer::Tree(v)) => v,
    };
    if v.len() < 2 {
        return Seen::pass("empty", false);
    }
    // a comma at the end, say: not a complete statement
    if has_unknown(&v) {
        return Seen::pass("unknown tokens", false);
    }
    let mut want = v.clone();
    let last = want.len() - 2;
    let n = numbers(&l.toks).len();
    let (b, what) = match want[last].kids.remove("semicolon") {
        Some(_) => {
            let t: Vec<char> = text.chars().collect();
            let i = l.toks.iter().rposition(|t| !t.is_comment()).unwrap();
            let (a, z) = l.spans[i];
            // a blank in its place: -;-- would become a comment
            let mut b: String = t[..a].iter().collect();
            b.push(' ');
            b.extend(&t[z..]);
            (b, "without its last ;")
        }
        None => {
            let semi = N { tok: Some(Tok { line: 0, col: n as u64, lit: ";".into() }), ty: "Symbol".into(), kids: Default::default() };
            want[last].kids.insert("semicolon".into(), Kid::One(Box::new(semi)));
            (format!("{}\n;", text), "with a ; at the end")
        }
    };
    let lb = reflex::lex(&b);
    if lb.err.is_some() {
        return Seen::pass("not tokens", false);
    }
    match answer(&b, &lb.toks) {
        Err(e) => Seen::fail("panic", e),
        Ok(Answer::Tree(v)) if has_unknown(&v) => Seen::pass("unknown tokens", false),
        Ok(a) => match compare(&Answer::Tree(want), &a) {
            Some(d) => Seen::fail("accepted", format!("{}: {}", what, d)),
            None => Seen::pass("accepted", n >= 2),
        },
    }
}

pub fn has_unknown(v: &[N]) -> bool {
    let mut u = false;
    v.iter().for_each(|n| n.walk(&mut |n| u |= n.ty == "Unknown"));
    u
}

/// Other names, strings, numbers, quoted names, parameters and templates of the same kinds in the
/// same places. Words that mean something to the grammar stay.
pub fn renamed(s: &mut Src, dict: &std::sync::Arc<Vec<String>>, text: &str) -> Option<(String, Vec<String>)> {
    use crate::gen::words::known_words;
    let t: Vec<char> = text.chars().collect();
    let l = reflex::lex(text);
    if l.err.is_some() {
        return None;
    }
    let mut g = crate::gen::G::new(s.clone(), 10, dict.clone());
    let mut names: HashMap<String, String> = HashMap::new();
    let mut out = String::new();
    let mut lits = vec![];
    let mut last = 0;
    for (tok, (a, b)) in l.toks.iter().zip(&l.spans) {
        out.extend(&t[last..*a]);
        last = *b;
        let c = t[*a];
        let keep: String = t[*a..*b].iter().collect();
        let new = if tok.is_comment() {
            out.push_str(&keep);
            continue;
        } else if keep.contains('\n') {
            // whether tokens touch is told from their columns: same number of lines, please
            keep
        } else if is_word(tok) && tok.lit.is_ascii() && !known_words().contains(&tok.lit.to_uppercase()) {
            let k = tok.lit.to_uppercase();
            if !names.contains_key(&k) {
                let n = g.plain();
                names.insert(k.clone(), n);
            }
            names[&k].clone()
        } else if c == '@' && keep.trim_start_matches('@').starts_with(|c: char| c != '`') {
            let n = keep.chars().take_while(|c| *c == '@').count();
            format!("{}{}", "@".repeat(n), g.plain())
        } else if c == '`' {
            g.quoted()
        } else if c == '\'' || c == '"' {
            let triple = keep.len() >= 6 && keep.starts_with(&c.to_string().repeat(3));
            let n = g.s.range(0, 12);
            let body = g.text(n, &['\'', '"', '\\', '\n']);
            let q = c.to_string().repeat(if triple { 3 } else { 1 });
            // ''' must not come from ''
            let body = if body.is_empty() { "x".into() } else { body };
            format!("{}{}{}", q, body, q)
        } else if c.is_ascii_digit() && keep.chars().all(|c| c.is_ascii_digit()) {
            match g.s.below(4) {
                0 => g.s.below(10).to_string(),
                1 => g.s.below(100_000).to_string(),
                2 => format!("0{}", g.s.below(100)),
                _ => (0..g.s.range(10, 30)).map(|i| char::from(b'1' + (i * 7 % 9) as u8)).collect(),
            }
        } else if keep.len() > 2 && (keep.starts_with("0x") || keep.starts_with("0X")) {
            let n = g.s.range(1, 20);
            let d: String = (0..n).map(|_| *g.s.of(&["0", "1", "9", "a", "A", "b", "f", "F"])).collect();
            format!("{}{}", g.s.of(&["0x", "0X"]), d)
        } else if c.is_ascii_digit() || c == '.' && keep.len() > 1 {
            keep.chars().map(|c| if c.is_ascii_digit() { char::from(b'0' + g.s.below(10) as u8) } else { c }).collect()
        } else if c == '{' && keep.len() > 1 {
            let k = keep.chars().take_while(|c| *c == '{').count();
            let n = g.s.range(0, 12);
            let body = g.text(n, &['{', '}', '\n']);
            format!("{} {}{}", "{".repeat(k), body, "}".repeat(k))
        } else {
            keep
        };
        out.push_str(&new);
        lits.push(new);
    }
    out.extend(&t[last..]);
    Some((out, lits))
}

pub fn names(s: &mut Src, dict: &std::sync::Arc<Vec<String>>, text: &str) -> (Seen, String) {
    let (b, lits) = match renamed(s, dict, text) {
        Some(b) => b,
        None => return (Seen::pass("not tokens", false), String::new()),
    };
    let (la, lb) = (reflex::lex(text), reflex::lex(&b));
    let sig = |l: &reflex::Lexed| l.toks.iter().filter(|t| !t.is_comment()).map(|t| t.lit.clone()).collect::<Vec<_>>();
    if lb.err.is_some() || sig(&lb) != lits || lb.toks.len() != la.toks.len() {
        return (Seen::pass("renaming changed the tokens", false), b);
    }
    let r = (|| -> Result<Seen, String> {
        let mut x = answer(text, &la.toks)?;
        let y = answer(&b, &lb.toks)?;
        if let Answer::Tree(v) = &mut x {
            v.iter_mut().for_each(|n| {
                n.walk_mut(&mut |n| {
                    if let Some(t) = &mut n.tok {
                        t.lit = lits[t.col as usize].clone();
                    }
                })
            });
        }
        Ok(match compare(&x, &y) {
            Some(d) => Seen::fail(kind(&x), format!("other names, another answer: {}", d)),
            None => Seen::pass(kind(&x), lits.len() >= 3 && text != b),
        })
    })();
    (r.unwrap_or_else(|e| Seen::fail("panic", e)), b)
}

/// what follows a mistake does not matter: a text rejected at one of its tokens is rejected there
/// whatever is added
fn message(a: &Answer) -> &str {
    match a {
        Answer::Error(_, m) => m,
        Answer::Tree(_) => "",
    }
}

pub fn goes_on(text: &str, more: &str) -> Seen {
    let r = (|| -> Result<Seen, String> {
        let la = reflex::lex(text);
        if la.err.is_some() {
            return Ok(Seen::pass("not tokens", false));
        }
        let n = numbers(&la.toks).len();
        let x = answer(text, &la.toks)?;
        let at = match &x {
            Answer::Error(i, _) if *i < n => *i,
            _ => return Ok(Seen::pass("not rejected at a token", false)),
        };
        // what follows the last tokens belongs to their statement (FULL OUTER, say, may become a set
        // operator), and the kind of a CREATE or ALTER is looked for among the next five words
        let sig: Vec<&Tok> = la.toks.iter().filter(|t| !t.is_comment()).collect();
        let open = at + 3 >= n || sig.iter().rev().take(6).any(|t| matches!(t.lit.to_uppercase().as_str(), "CREATE" | "ALTER"));
        let longer = format!("{}\n{}{}", text, if open { ";" } else { "" }, more);
        let lb = reflex::lex(&longer);
        if lb.err.is_some() || lb.toks.len() < la.toks.len() || lb.toks[..la.toks.len()] != la.toks[..] {
            return Ok(Seen::pass("not tokens", false));
        }
        let y = answer(&longer, &lb.toks)?;
        Ok(match compare(&x, &y) {
            Some(d) => Seen::fail("error", format!("alone vs with more text: {}", d)),
            None if message(&x) != message(&y) => Seen::fail("error", format!("alone vs with more text: {:?} vs {:?}", message(&x), message(&y))),
            None => Seen::pass("error", lb.toks.len() > la.toks.len()),
        })
    })();
    r.unwrap_or_else(|e| Seen::fail("panic", e))
}

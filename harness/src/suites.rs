//! Which suites decide which property.
use crate::engine::Src;
use crate::gen::{Mix, G};
use crate::oracle::{self, Seen};
use crate::runner::{Env, Outcome, Suite};
use crate::trees::{self, Size};
use crate::contexts::{self, What};
use crate::{malformed, meta, nest, prec, soup, wasm};
use std::sync::Arc;

type TextOracle = fn(&str) -> Seen;
type Source = fn(Src, u64, &Env) -> (String, Src);

fn suite(name: &'static str, rule: &'static str, n: u64, run: impl Fn(Src, u64, &Env) -> Outcome + Send + Sync + 'static) -> Suite {
    Suite { name, rule, n, exhaustive: false, run: Arc::new(run), textual: None }
}
fn all(mut s: Suite) -> Suite {
    s.exhaustive = true;
    s
}

// ----- sources of texts -----

fn from_soup(s: Src, _: u64, e: &Env) -> (String, Src) {
    let (t, _, s) = soup::any(s, &e.dict);
    (t, s)
}
fn from_scripts(s: Src, _: u64, e: &Env) -> (String, Src) {
    let m = trees::script(s, &e.dict, None, Size::Normal, None);
    (m.laid.text, m.s)
}
fn from_large(s: Src, _: u64, e: &Env) -> (String, Src) {
    let m = trees::script(s, &e.dict, None, Size::Large, None);
    (m.laid.text, m.s)
}
/// one of several statements, each with its semicolon or not
fn from_sequences(s: Src, _: u64, e: &Env) -> (String, Src) {
    let mut g = trees::generator(s, &e.dict, None, Size::Normal);
    let n = g.s.range(2, 5);
    let mut v = vec![];
    for i in 0..n {
        g.budget = g.budget.max(10);
        v.push(g.statement(i + 1 < n));
    }
    let m = trees::finish(g, v, None);
    (m.laid.text, m.s)
}
pub const SCALE: &[usize] = &[9, 33, 130, 300, 1100];
fn from_scale(s: Src, i: u64, _: &Env) -> (String, Src) {
    let n = SCALE[i as usize / nest::FLAT.len() % SCALE.len()];
    (nest::flat(i as usize % nest::FLAT.len(), n), s)
}
fn scale_count() -> u64 {
    (nest::FLAT.len() * SCALE.len()) as u64
}
/// texts past every two-byte limit: lines, columns, lengths
fn from_huge(s: Src, i: u64, _: &Env) -> (String, Src) {
    const HUGE: &[(&str, &str, &str)] = &[
        ("SELECT", "\n", "1 AS a -- c\n, 2"),
        ("SELECT", " ", "1 AS a /* c */, 2"),
        ("", "-- c\n", "SELECT 1"),
        ("SELECT '", "x", "', 2 -- c"),
        ("SELECT '''", "x\n", "''', 2 -- c"),
        ("SELECT a", "a", ", 2 -- c"),
        ("SELECT `a", "b", "`, 2 -- c"),
        ("SELECT /*", "\n", "*/ 1, 2 -- c"),
        ("SELECT --", "c", "\n 1, 2 -- c"),
        ("SELECT {{", "x", "}}, 2 -- c"),
        ("SELECT 1", "1", ", 2 -- c"),
        ("", "SELECT 1;", "SELECT 2"),
        ("SELECT ", "a, ", "b -- c"),
    ];
    let (a, b, c) = HUGE[i as usize % HUGE.len()];
    (format!("{}{}{}", a, b.repeat(66_000), c), s)
}
const HUGES: u64 = 13;
/// all texts of up to four characters over the characters that mean something to the lexer
const ALPHABET: &[char] = &[
    'a', '1', '.', 'e', '\'', '"', '`', '\\', '\n', ' ', '-', '/', '*', '#', '{', '}', '@', '<', '>', '=', '!', '|', '(', ')', ',', ';', 'é', '+', '&', '\r', '0', 'x',
];
fn tiny(mut i: u64, max: u32) -> Option<String> {
    let n = ALPHABET.len() as u64;
    for len in 0..=max {
        let c = n.pow(len);
        if i < c {
            return Some(
                (0..len)
                    .map(|_| {
                        let c = ALPHABET[(i % n) as usize];
                        i /= n;
                        c
                    })
                    .collect(),
            );
        }
        i -= c;
    }
    None
}
fn tiny_count(max: u32) -> u64 {
    (0..=max).map(|l| (ALPHABET.len() as u64).pow(l)).sum()
}
fn from_tiny(s: Src, i: u64, _: &Env) -> (String, Src) {
    (tiny(i, 4).unwrap_or_default(), s)
}
/// all pairs of words and symbols, alone and after a beginning
const STARTS: &[&str] = &["", "SELECT ", "CREATE TABLE t ", "SELECT 1 FROM ", "BEGIN "];
fn from_pairs(s: Src, i: u64, _: &Env) -> (String, Src) {
    let v = soup::everything();
    let n = v.len() as u64;
    let st = STARTS[(i / (n * n)) as usize % STARTS.len()];
    (format!("{}{} {}", st, v[(i / n % n) as usize], v[(i % n) as usize]), s)
}
fn pairs_count(starts: u64) -> u64 {
    let n = soup::everything().len() as u64;
    n * n * starts
}
fn from_words(mut s: Src, _: u64, _: &Env) -> (String, Src) {
    (soup::token_soup(&mut s), s)
}
fn from_chars(mut s: Src, _: u64, _: &Env) -> (String, Src) {
    (soup::char_soup(&mut s), s)
}

fn textual(name: &'static str, rule: &'static str, n: u64, source: Source, oracle: TextOracle) -> Suite {
    let mut s = suite(name, rule, n, move |s, i, e| {
        let (t, s) = source(s, i, e);
        (oracle(&t), t, s)
    });
    s.textual = Some(oracle);
    s
}

/// the usual sources for an oracle that needs nothing but a text
fn texts(o: TextOracle, k: u64, soup_n: u64, scripts: u64, large: u64) -> Vec<Suite> {
    vec![
        textual("scripts", "grammatical scripts of all kinds in all layouts, from the grammar generator", scripts * k, from_scripts, o),
        textual("soup", "mutated examples and scripts, prefixes, token soup, character soup", soup_n * k, from_soup, o),
        textual("large", "scripts with long lists, deep nesting, many statements", large * k, from_large, o),
        all(textual("scale", "a fragment repeated up to 1100 times", scale_count(), from_scale, o)),
        textual("huge", "66000 lines, columns, characters, comments, statements or list items", HUGES, from_huge, o),
    ]
}

fn judged(name: &'static str, rule: &'static str, n: u64, mix: Option<Mix>, size: Size, relevant: fn(&trees::Made) -> bool) -> Suite {
    suite(name, rule, n, move |s, _, e| {
        let m = trees::script(s, &e.dict, mix, size, None);
        let (mut seen, _) = trees::judge(&m);
        seen.nontrivial &= relevant(&m);
        (seen, m.laid.text, m.s)
    })
}

fn has(m: &trees::Made, f: fn(&str) -> bool) -> bool {
    let mut r = false;
    m.stmts.iter().for_each(|s| s.walk(&mut |n| r |= f(n.ty)));
    r
}
fn any_made(_: &trees::Made) -> bool {
    true
}

fn tree_suites(k: u64, n: u64, mix: Mix, relevant: fn(&trees::Made) -> bool) -> Vec<Suite> {
    vec![
        judged("focused", "generated statements of this kind; the tree must be the one expected by construction", n * k, Some(mix), Size::Normal, relevant),
        judged("focused, large", "the same with long lists and deep nesting", n / 8 * k, Some(mix), Size::Large, relevant),
        judged("mixed", "scripts of all kinds of statements in which they occur among others, also nested in blocks", n / 4 * k, Some(Mix::All), Size::Normal, relevant),
    ]
}

fn context(name: &'static str, rule: &'static str, w: What, n: u64) -> Suite {
    suite(name, rule, n, move |s, i, e| {
        let p = contexts::piece(s, &e.dict, w);
        let ts = contexts::templates(w);
        let t = ts[i as usize % ts.len()];
        let mut s = p.s.clone();
        let (seen, text) = contexts::check(&mut s, &p, t);
        (seen, text, s)
    })
}

fn precedence(ops: &[usize], pre: &[u32], operands: prec::Operands, s: Src, e: &Env) -> Outcome {
    let mut g = G::new(s, 10, e.dict.clone());
    match prec::in_select(&mut g, &mut |g| prec::build(g, ops, pre, operands)) {
        None => (Seen::pass("not grammatical", false), String::new(), g.s),
        Some(m) => {
            let made = trees::finish(g, vec![m], None);
            let r = trees::judge(&made);
            (r.0, made.laid.text, made.s)
        }
    }
}

const K: u64 = 1000;
/// how many levels of nesting every build has to stand
const DEEP: usize = 24;

/// what the parser accepts although the documentation says that it cannot stand there
fn outside_types(m: &trees::Made) -> bool {
    let mut r = false;
    m.stmts.iter().for_each(|s| {
        s.walk(&mut |n| {
            let has = |k: &str| n.kids.iter().any(|(key, _)| key == &k);
            r |= has("tablesample") && matches!(n.ty, "GroupedStatement" | "GroupedExpr" | "CallingUnnest" | "CallingTableFunction" | "FunctionChain");
            r |= n.ty == "AlterColumnStatement" && has("semicolon");
        })
    });
    r
}

fn some_calls(s: Src, i: u64, e: &Env, n: u32, short: bool) -> (Vec<(bool, String)>, Src) {
    let mut texts = vec![];
    let mut s = s;
    let k = s.range(1, 4);
    for _ in 0..k {
        let (t, s1) = match s.pick(&[3, 3, 1]) {
            0 => from_scripts(s, i, e),
            1 => from_soup(s, i, e),
            _ => from_chars(s, i, e),
        };
        s = s1;
        texts.push(if short { t.chars().take(60).collect() } else { t });
    }
    let n = if short { n } else { s.range(2, n) };
    (wasm::calls(&mut s, &texts, n as usize), s)
}
fn history(s: Src, i: u64, e: &Env, n: u32, short: bool) -> Outcome {
    let (c, s) = some_calls(s, i, e, n, short);
    (wasm::history(&c), wasm::show(&c), s)
}

/// quick: k = 1
pub fn suites(id: &str, k: u64) -> Option<Vec<Suite>> {
    let words = |o| textual("words", "random words, symbols and literals", 60 * K * k, from_words, o);
    let chars = |o| textual("characters", "random characters, most of them special to the lexer", 150 * K * k, from_chars, o);
    let tiny_all = |o| all(textual("tiny", "all texts of up to 4 characters over 32 characters that matter to the lexer", tiny_count(4), from_tiny, o));
    let pairs = |o, n| all(textual("pairs", "all pairs of words, symbols and literals the grammar knows, after several beginnings", pairs_count(n), from_pairs, o));
    Some(match id {
        "C01" => {
            let mut v = texts(oracle::lossless, k, 120 * K, 60 * K, 6 * K);
            v.push(chars(oracle::lossless));
            v.push(tiny_all(oracle::lossless));
            v
        }
        "C02" => {
            let mut v = texts(oracle::positions, k, 80 * K, 70 * K, 6 * K);
            v.push(chars(oracle::positions));
            v
        }
        "C03" => {
            let mut v = texts(oracle::lexical, k, 150 * K, 60 * K, 6 * K);
            v.push(chars(oracle::lexical));
            v.push(tiny_all(oracle::lexical));
            v
        }
        "C04" => {
            let mut v = texts(oracle::total, k, 120 * K, 30 * K, 6 * K);
            v.push(chars(oracle::total));
            v.push(words(oracle::total));
            v.push(tiny_all(oracle::total));
            v.push(pairs(oracle::total, 2));
            v.push(all(suite("growth", "every nesting fragment and every pair of fragments, repeated 3, 6, 12, 24 times: allocations may not grow faster than any reasonable polynomial", nest::enumerated_count(), |s, i, _| {
                let (f, w) = nest::enumerated(i).unwrap();
                let (seen, t) = nest::growth(f, &w, 24);
                (seen, t, s)
            })));
            v.push(suite("growth, random", "random cycles of up to three fragments, up to 48 deep", 3 * K * k, |mut s, _, _| {
                let (f, w) = nest::pattern(&mut s);
                let (seen, t) = nest::growth(f, &w, 48);
                (seen, t, s)
            }));
            v.push(all(suite("stack", "every nesting fragment and every pair of fragments, 24 deep, in the WebAssembly build with its small stack", nest::enumerated_count(), |s, i, _| {
                let (f, w) = nest::enumerated(i).unwrap();
                let t = nest::text(f, &w, DEEP);
                (wasm::alive(&t), t, s)
            })));
            v.push(all(suite("stack, flat", "flat repetitions, 130 times, in the WebAssembly build", nest::FLAT.len() as u64, |s, i, _| {
                let t = nest::flat(i as usize, 130);
                (wasm::alive(&t), t, s)
            })));
            v.push(all(suite("growth, flat", "flat repetitions, 10, 40, 160 times", nest::FLAT.len() as u64, |s, i, _| {
                let (seen, t) = nest::flat_growth(i as usize);
                (seen, t, s)
            })));
            v
        }
        "C05" => {
            let mut v = texts(oracle::errors, k, 150 * K, 20 * K, 3 * K);
            v.push(chars(oracle::errors));
            v.push(words(oracle::errors));
            v.push(pairs(oracle::errors, 2));
            v.push(tiny_all(oracle::errors));
            v
        }
        "C06" => {
            let mut v = texts(oracle::complete, k, 80 * K, 70 * K, 6 * K);
            v.push(words(oracle::complete));
            v.push(pairs(oracle::complete, 3));
            v
        }
        "C07" => texts(oracle::comments, k, 80 * K, 70 * K, 6 * K),
        "C08" => {
            let mut v = texts(oracle::contiguous, k, 80 * K, 70 * K, 6 * K);
            v.push(words(oracle::contiguous));
            v
        }
        "C09" => vec![
            relation("scripts", "grammatical scripts and a second layout of the same tokens", 50 * K * k, from_scripts, meta::layout),
            relation("soup", "arbitrary texts and a second layout of the same tokens", 60 * K * k, from_soup, meta::layout),
            relation("large", "large scripts", 4 * K * k, from_large, meta::layout),
            judged("trees", "every layout of a generated script gives the tree expected by construction", 30 * K * k, None, Size::Normal, any_made),
        ],
        "C10" => vec![
            relation("scripts", "grammatical scripts with the case of their words changed", 50 * K * k, from_scripts, meta::cases),
            relation("soup", "arbitrary texts with the case of their words changed", 60 * K * k, from_soup, meta::cases),
            relation("large", "large scripts", 4 * K * k, from_large, meta::cases),
            relation("words", "random words", 40 * K * k, from_words, meta::cases),
            judged("trees", "keywords in any case give the tree expected by construction", 30 * K * k, None, Size::Normal, any_made),
        ],
        "C11" => vec![
            suite("two parts", "two generated scripts, the first ending in a semicolon, alone and together", 35 * K * k, |s, i, e| {
                let (a, s) = from_scripts(s, i, e);
                let a = format!("{}\n;", a.trim_end());
                let (b, s) = from_scripts(s, i, e);
                (meta::sequence(&a, &b), format!("{}\n{}", a, b), s)
            }),
            suite("script, then soup", "a generated script followed by an arbitrary text, alone and together", 35 * K * k, |s, i, e| {
                let (a, s) = from_sequences(s, i, e);
                let a = format!("{}\n;", a.trim_end());
                let (b, s) = from_soup(s, i, e);
                (meta::sequence(&a, &b), format!("{}\n{}", a, b), s)
            }),
            textual("cut", "every statement of a generated script, cut out of it", 35 * K * k, from_sequences, meta::cut),
            textual("cut, soup", "every statement of an accepted arbitrary text, cut out of it", 60 * K * k, from_soup, meta::cut),
            textual("cut, large", "every statement of large scripts, cut out", 3 * K * k, from_large, meta::cut),
        ],
        "C12" => {
            let n = prec::OPS.len() as u64;
            vec![
                all(suite("pairs", "all pairs of operators with every combination of unary operators before the three operands", n * n * 343, move |s, i, e| {
                    let ops = [(i % n) as usize, (i / n % n) as usize];
                    let p = i / n / n;
                    let pre = [(p % 7) as u32, (p / 7 % 7) as u32, (p / 49) as u32];
                    precedence(&ops, &pre, prec::Operands::Plain, s, e)
                })),
                all(suite("triples", "all triples of operators", n * n * n, move |s, i, e| {
                    let ops = [(i % n) as usize, (i / n % n) as usize, (i / n / n) as usize];
                    precedence(&ops, &[0; 4], prec::Operands::Plain, s, e)
                })),
                suite("random", "random sequences of up to 60 operators, unary operators and operands of all kinds", 40 * K * k, |mut s, _, e| {
                    let (ops, pre) = prec::random_sequence(&mut s);
                    let o = if s.chance(1, 2) { prec::Operands::Rich } else { prec::Operands::Plain };
                    precedence(&ops, &pre, o, s, e)
                }),
                judged("trees", "generated queries, in which operators occur everywhere", 20 * K * k, None, Size::Normal, |m| {
                    has(m, |t| t.ends_with("Operator"))
                }),
            ]
        }
        "C13" => tree_suites(k, 80 * K, Mix::Query, |m| has(m, |t| matches!(t, "SelectStatement" | "SetOperator" | "GroupedStatement"))),
        "C14" => tree_suites(k, 80 * K, Mix::Pipe, |m| has(m, |t| t == "PipeStatement")),
        "C15" => tree_suites(k, 90 * K, Mix::Dml, |m| has(m, |t| matches!(t, "InsertStatement" | "DeleteStatement" | "UpdateStatement" | "MergeStatement" | "TruncateStatement"))),
        "C16" => tree_suites(k, 100 * K, Mix::Ddl, |m| has(m, |t| t.starts_with("Create") || t.starts_with("Alter") || t.starts_with("Drop") || t.starts_with("Undrop"))),
        "C17" => tree_suites(k, 100 * K, Mix::Misc, |m| {
            has(m, |t| matches!(t, "GrantStatement" | "RevokeStatement" | "CallStatement" | "AssertStatement" | "ExportDataStatement" | "ExportModelStatement" | "LoadStatement"))
        }),
        "C18" => tree_suites(k, 80 * K, Mix::Script, |m| {
            has(m, |t| {
                matches!(
                    t,
                    "DeclareStatement" | "SetStatement" | "ExecuteStatement" | "BeginStatement" | "IfStatement" | "LoopStatement" | "RepeatStatement" | "WhileStatement" | "ForStatement"
                        | "CaseStatement" | "TransactionStatement" | "RaiseStatement" | "SingleTokenStatement" | "BreakContinueStatement" | "LabeledStatement"
                )
            })
        }),
        "C19" => {
            let conform = |name, rule, n, mix, size| {
                suite(name, rule, n, move |s, _, e| {
                    let m = trees::script(s, &e.dict, mix, size, None);
                    let seen = if outside_types(&m) { Seen::pass("outside", false) } else { wasm::types(&m.laid.text) };
                    (seen, m.laid.text, m.s)
                })
            };
            vec![
                conform("scripts", "grammatical scripts of all kinds", 24 * K * k, None, Size::Normal),
                conform("queries", "queries", 6 * K * k, Some(Mix::Query), Size::Normal),
                conform("pipe queries", "pipe queries", 6 * K * k, Some(Mix::Pipe), Size::Normal),
                conform("ddl", "CREATE, ALTER, DROP statements", 8 * K * k, Some(Mix::Ddl), Size::Normal),
                conform("dml", "INSERT, UPDATE, DELETE, MERGE", 5 * K * k, Some(Mix::Dml), Size::Normal),
                conform("other statements", "GRANT, LOAD, EXPORT, CALL and so on", 4 * K * k, Some(Mix::Misc), Size::Normal),
                conform("procedural", "procedural statements", 5 * K * k, Some(Mix::Script), Size::Normal),
                conform("large", "large scripts", 2 * K * k, None, Size::Large),
            ]
        }
        "C20" => vec![
            textual("scripts", "grammatical scripts of all kinds", 12 * K * k, from_scripts, wasm::same),
            textual("soup", "mutated examples and scripts, prefixes, token soup, character soup", 20 * K * k, from_soup, wasm::same),
            textual("characters", "random characters", 10 * K * k, from_chars, wasm::same),
            textual("large", "large scripts", K * k, from_large, wasm::same),
            all(textual("scale", "a fragment repeated up to 130 times", (nest::FLAT.len() * 3) as u64, from_scale, wasm::same)),
        ],
        "C21" => vec![
            suite("histories", "up to 8 calls in one instance, each compared with the same call alone in a fresh instance", 5000 * k, |s, i, e| history(s, i, e, 8, false)),
            suite("long histories", "up to 300 calls of short texts in one instance", 60 * k, |s, i, e| history(s, i, e, 300, true)),
            suite("very long histories", "6000 calls in one instance: a few histories of 60 calls again and again", 4 * k, |s, i, e| {
                let (c, s) = some_calls(s, i, e, 60, true);
                let c: Vec<_> = c.iter().cycle().take(6000).cloned().collect();
                let mut shown = wasm::show(&c[..60]);
                shown.push_str("\n100 times");
                (wasm::history(&c), shown, s)
            }),
            suite("memory", "a sequence of calls repeated 630 times: the memory stays as it is", 16 * k, |s, i, e| {
                let (c, s) = some_calls(s, i, e, 10, false);
                (wasm::memory(&c), wasm::show(&c), s)
            }),
        ],
        "C22" => vec![
            judged("scripts", "generated scripts: every node type must be the expected one", 90 * K * k, None, Size::Normal, any_made),
            judged("large", "large scripts", 6 * K * k, None, Size::Large, any_made),
            context("expressions", "generated expressions in every place where one may stand", What::Expr, 40 * K * k),
            context("types", "generated types in every place where one may stand", What::Type, 20 * K * k),
        ],
        "C23" => vec![
            textual("scripts", "grammatical scripts with their last semicolon added or removed", 70 * K * k, from_scripts, meta::semicolon),
            textual("soup", "accepted arbitrary texts with their last semicolon added or removed", 120 * K * k, from_soup, meta::semicolon),
            textual("sequences", "sequences of statements", 25 * K * k, from_sequences, meta::semicolon),
            textual("large", "large scripts", 4 * K * k, from_large, meta::semicolon),
        ],
        "C24" => vec![
            context("expressions", "a generated expression in every place where one may stand", What::Expr, 60 * K * k),
            context("queries", "a generated query in every place where one may stand", What::Query, 40 * K * k),
            context("subqueries", "a generated query in every expression place where one may stand", What::Subquery, 30 * K * k),
            context("statements", "a generated statement in every place where one may stand", What::Statement, 40 * K * k),
            context("types", "a generated type in every place where one may stand", What::Type, 30 * K * k),
        ],
        "C25" => {
            let mut v = vec![suite("broken", "scripts with one mistake at a known token: unknown statements and operators, dangling NOT, unclosed brackets and blocks, unterminated literals", 200 * K * k, |s, _, e| {
                let s0 = s.clone();
                match malformed::any(s, &e.dict) {
                    None => (Seen::pass("nothing to cut", false), String::new(), s0),
                    Some(mut b) => {
                        let (seen, t) = malformed::check(&mut b);
                        (seen, t, b.s)
                    }
                }
            })];
            v.push(textual("brackets, soup", "arbitrary texts: if accepted, every bracket is closed by its own kind", 150 * K * k, from_soup, oracle::brackets));
            v.push(textual("brackets, scripts", "grammatical scripts: every bracket is closed by its own kind", 30 * K * k, from_scripts, oracle::brackets));
            v.push(pairs(oracle::brackets, 5));
            v.push(words(oracle::brackets));
            v
        }
        "C26" => vec![
            suite("scripts", "grammatical scripts with other names, strings, numbers, templates", 60 * K * k, |s, i, e| renamed(s, i, e, from_scripts)),
            suite("soup", "arbitrary texts with other names, strings, numbers, templates", 60 * K * k, |s, i, e| renamed(s, i, e, from_soup)),
            suite("large", "large scripts", 4 * K * k, |s, i, e| renamed(s, i, e, from_large)),
            judged("trees", "names and literals of all shapes: the tree must be the one expected by construction", 40 * K * k, None, Size::Normal, any_made),
        ],
        "C27" => {
            let mut v = texts(oracle::printed, k, 70 * K, 60 * K, 6 * K);
            v.push(words(oracle::printed));
            v.push(pairs(oracle::printed, 3));
            v
        }
        "C28" => vec![
            suite("soup, more soup", "an arbitrary text and another one behind it", 120 * K * k, |s, i, e| {
                let (a, s) = from_soup(s, i, e);
                let (b, s) = from_soup(s, i, e);
                (meta::goes_on(&a, &b), format!("{}\n{}", a, b), s)
            }),
            suite("soup, script", "an arbitrary text and a grammatical script behind it", 60 * K * k, |s, i, e| {
                let (a, s) = from_soup(s, i, e);
                let (b, s) = from_scripts(s, i, e);
                (meta::goes_on(&a, &b), format!("{}\n{}", a, b), s)
            }),
            suite("broken", "a script with a mistake at a known token, and anything behind it", 100 * K * k, |s, i, e| {
                let s0 = s.clone();
                match malformed::any(s, &e.dict) {
                    None => (Seen::pass("nothing to cut", false), String::new(), s0),
                    Some(mut b) => {
                        let a = malformed::text(&mut b);
                        let (t, s) = if b.s.chance(1, 2) { from_soup(b.s, i, e) } else { from_words(b.s, i, e) };
                        (meta::goes_on(&a, &t), format!("{}\n{}", a, t), s)
                    }
                }
            }),
            suite("words", "random words and more random words", 60 * K * k, |mut s, _, _| {
                let (a, b) = (soup::token_soup(&mut s), soup::token_soup(&mut s));
                (meta::goes_on(&a, &b), format!("{}\n{}", a, b), s)
            }),
        ],
        _ => return None,
    })
}

fn renamed(s: Src, i: u64, e: &Env, f: Source) -> Outcome {
    let (a, mut s) = f(s, i, e);
    let (seen, b) = meta::names(&mut s, &e.dict, &a);
    (seen, format!("{}\n=====>\n{}", a, b), s)
}

fn relation(name: &'static str, rule: &'static str, n: u64, source: Source, rel: fn(&mut Src, &str) -> (Seen, String)) -> Suite {
    suite(name, rule, n, move |s, i, e| {
        let (a, mut s) = source(s, i, e);
        let (seen, b) = rel(&mut s, &a);
        (seen, format!("{}\n=====>\n{}", a, b), s)
    })
}

//! The same piece in many places: an expression, a query, a statement or a type has the same tree
//! wherever it stands.
use crate::api::{self, Out};
use crate::engine::Src;
use crate::gen::layout::{can_touch, lay, Style};
use crate::gen::{Mix, TokSpec, G, M, MAX};
use crate::meta::{normal, numbers};
use crate::oracle::Seen;
use crate::reflex;
use crate::tree::{diff, Kid, N};
use crate::trees::Dict;

pub const EXPR: &[&str] = &[
    "SELECT ¤",
    "SELECT ¤ ;",
    "SELECT ¤ FROM t",
    "SELECT ¤ AS x , 2",
    "SELECT 1 , ¤ FROM t",
    "SELECT DISTINCT ¤ FROM t WHERE TRUE",
    "SELECT AS STRUCT ¤ FROM t",
    "SELECT AS VALUE ¤ FROM t",
    "SELECT * REPLACE ( ¤ AS x ) FROM t",
    "SELECT 1 FROM t WHERE ¤",
    "SELECT 1 FROM t WHERE ¤ GROUP BY a",
    "SELECT 1 FROM t GROUP BY a , ¤",
    "SELECT 1 FROM t GROUP BY a HAVING ¤ ORDER BY 1",
    "SELECT 1 FROM t QUALIFY ¤",
    "SELECT 1 FROM t ORDER BY ¤ , 1",
    "SELECT 1 FROM t ORDER BY a , ¤ LIMIT 1",
    "SELECT 1 FROM t JOIN u ON ¤",
    "SELECT 1 FROM t JOIN u ON ¤ LEFT JOIN v USING ( a ) WHERE TRUE",
    "SELECT 1 FROM t , UNNEST ( ¤ ) AS x",
    "SELECT 1 FROM tvf ( ¤ , 2 )",
    "SELECT ( ¤ )",
    "SELECT ( ( ¤ ) )",
    "SELECT ( 1 , ¤ )",
    "SELECT STRUCT ( ¤ AS a , 1 AS b )",
    "SELECT [ ¤ ]",
    "SELECT ARRAY < INT64 > [ 1 , ¤ ]",
    "SELECT f ( ¤ )",
    "SELECT f ( 1 , ¤ , 2 ) AS a",
    "SELECT f ( ¤ ORDER BY a LIMIT 1 )",
    "SELECT f ( a ORDER BY ¤ )",
    "SELECT f ( DISTINCT ¤ )",
    "SELECT f ( ¤ IGNORE NULLS )",
    "SELECT f ( a ) OVER ( PARTITION BY ¤ ORDER BY b )",
    "SELECT f ( a ) OVER ( PARTITION BY a , ¤ )",
    "SELECT f ( a ) OVER ( ORDER BY ¤ ROWS BETWEEN 1 PRECEDING AND CURRENT ROW )",
    "SELECT f ( a ) OVER w FROM t WINDOW w AS ( PARTITION BY ¤ )",
    "SELECT CAST ( ¤ AS INT64 )",
    "SELECT SAFE_CAST ( ¤ AS STRING FORMAT 'x' )",
    "SELECT EXTRACT ( DAY FROM ¤ )",
    "SELECT EXTRACT ( DAY FROM ¤ AT TIME ZONE 'UTC' )",
    "SELECT CASE WHEN ¤ THEN 1 END",
    "SELECT CASE WHEN a THEN ¤ ELSE 2 END",
    "SELECT CASE WHEN a THEN 1 ELSE ¤ END",
    "SELECT CASE ¤ WHEN 1 THEN 2 END",
    "SELECT IF ( ¤ , 1 , 2 )",
    "SELECT a [ ¤ ]",
    "SELECT a [ OFFSET ( ¤ ) ]",
    "SELECT a IN ( 1 , ¤ )",
    "SELECT a IN UNNEST ( ¤ )",
    "SELECT EXISTS ( SELECT ¤ )",
    "SELECT ARRAY ( SELECT ¤ FROM t )",
    "SELECT ( SELECT ¤ )",
    "SELECT 1 UNION ALL SELECT ¤",
    "SELECT ¤ UNION ALL SELECT 2",
    "( SELECT ¤ )",
    "WITH a AS ( SELECT ¤ ) SELECT 1",
    "WITH a AS ( SELECT 1 ) SELECT ¤ FROM a",
    "SELECT 1 FROM ( SELECT ¤ FROM t ) AS u",
    "FROM t |> WHERE ¤",
    "FROM t |> WHERE ¤ |> SELECT 1",
    "FROM t |> SELECT 1 , ¤",
    "FROM t |> EXTEND ¤ AS x",
    "FROM t |> AGGREGATE ¤ AS x GROUP BY a",
    "FROM t |> AGGREGATE f ( a ) GROUP BY ¤",
    "FROM t |> ORDER BY ¤",
    "FROM t |> JOIN u ON ¤ |> DISTINCT",
    "FROM t |> CALL f ( ¤ )",
    "INSERT INTO t VALUES ( ¤ )",
    "INSERT t ( a , b ) VALUES ( 1 , ¤ ) , ( 2 , 3 )",
    "INSERT INTO t SELECT ¤",
    "DELETE FROM t WHERE ¤",
    "UPDATE t SET a = ( ¤ ) WHERE TRUE",
    "UPDATE t SET a = 1 WHERE ¤",
    "MERGE t USING u ON ¤ WHEN MATCHED THEN DELETE",
    "MERGE t USING u ON TRUE WHEN MATCHED AND ¤ THEN DELETE",
    "MERGE t USING u ON TRUE WHEN NOT MATCHED THEN INSERT ( a ) VALUES ( ¤ )",
    "ASSERT ¤",
    "ASSERT ¤ AS 'x'",
    "ASSERT TRUE AS ¤",
    "CALL p ( ¤ )",
    "DECLARE x DEFAULT ¤",
    "DECLARE x INT64 DEFAULT ¤ ;",
    "SET x = ( ¤ )",
    "SET x = f ( ¤ )",
    "EXECUTE IMMEDIATE ¤",
    "EXECUTE IMMEDIATE 'x' USING ¤ AS a",
    "IF ¤ THEN SELECT 1 ; END IF",
    "IF TRUE THEN SELECT ¤ ; END IF",
    "IF TRUE THEN SELECT 1 ; ELSEIF ¤ THEN SELECT 2 ; END IF",
    "WHILE ¤ DO SELECT 1 ; END WHILE",
    "REPEAT SELECT 1 ; UNTIL ¤ END REPEAT",
    "CASE WHEN ¤ THEN SELECT 1 ; END CASE",
    "CASE ¤ WHEN 1 THEN SELECT 1 ; END CASE",
    "FOR r IN ( SELECT ¤ ) DO SELECT 1 ; END FOR",
    "BEGIN SELECT ¤ ; END",
    "CREATE FUNCTION f ( ) AS ( ¤ )",
    "CREATE FUNCTION f ( x INT64 ) RETURNS INT64 AS ( ¤ )",
    "CREATE VIEW v AS SELECT ¤",
    "CREATE TABLE t PARTITION BY ¤ AS SELECT 1",
    "CREATE ROW ACCESS POLICY p ON t GRANT TO ( 'x' ) FILTER USING ( ¤ )",
    "EXPORT DATA OPTIONS ( a = 'x' ) AS SELECT ¤",
    "SELECT 1 ; SELECT ¤ ; SELECT 2",
    "SELECT 1 FROM t PIVOT ( f ( ¤ ) FOR a IN ( 1 ) )",
    "SELECT INTERVAL ( ¤ ) DAY",
    "SELECT STRUCT < a INT64 > ( ¤ )",
    "SELECT f ( a => ( ¤ ) )",
    "SELECT f ( a ) . g ( ¤ )",
    "SELECT [ 1 , ( 2 , ¤ ) ]",
    "SELECT - ( ¤ )",
    "SELECT NOT ( ¤ )",
    "SELECT a + ( ¤ ) * b",
    "SELECT a BETWEEN ( ¤ ) AND ( 2 )",
    "RAISE USING MESSAGE = ( ¤ )",
    "SELECT WITH ( a AS ¤ , a + 1 )",
];

pub const QUERY: &[&str] = &[
    "INSERT INTO t ¤",
    "¤",
    "¤ ;",
    "( ¤ )",
    "( ( ¤ ) )",
    "( ¤ ) UNION ALL ( SELECT 1 )",
    "( SELECT 1 ) EXCEPT DISTINCT ( ¤ )",
    "WITH a AS ( ¤ ) SELECT 1",
    "WITH a AS ( SELECT 1 ) , b AS ( ¤ ) SELECT 2",
    "WITH RECURSIVE a AS ( ¤ ) SELECT 2",
    "SELECT 1 FROM ( ¤ )",
    "SELECT 1 FROM ( ¤ ) AS t JOIN u USING ( a )",
    "SELECT 1 FROM t JOIN ( ¤ ) AS u ON TRUE",
    "SELECT 1 FROM t WHERE TRUE UNION ALL ( ¤ )",
    "INSERT INTO t ( a , b ) ¤ ;",
    "CREATE TABLE t AS ¤",
    "CREATE OR REPLACE TABLE d . t OPTIONS ( a = 1 ) AS ( ¤ )",
    "CREATE VIEW v AS ¤",
    "CREATE MATERIALIZED VIEW v AS ¤",
    "CREATE TABLE FUNCTION f ( ) AS ¤",
    "CREATE MODEL m OPTIONS ( a = 1 ) AS ( ¤ )",
    "EXPORT DATA OPTIONS ( a = 'x' ) AS ¤",
    "FOR r IN ( ¤ ) DO SELECT 1 ; END FOR",
    "BEGIN ¤ ; END",
    "BEGIN SELECT 1 ; EXCEPTION WHEN ERROR THEN ¤ ; END",
    "IF TRUE THEN ¤ ; ELSE SELECT 2 ; END IF",
    "IF TRUE THEN SELECT 1 ; ELSE ¤ ; END IF",
    "LOOP ¤ ; END LOOP",
    "WHILE TRUE DO ¤ ; END WHILE",
    "REPEAT ¤ ; UNTIL TRUE END REPEAT",
    "CASE WHEN TRUE THEN ¤ ; END CASE",
    "CREATE PROCEDURE p ( ) BEGIN ¤ ; END",
    "SELECT 1 ; ¤ ; SELECT 2",
    "FROM ( ¤ ) |> WHERE TRUE",
    "FROM t |> JOIN ( ¤ ) AS u USING ( a )",
];

/// queries in expressions: no parenthesis may come first
pub const SUBQUERY: &[&str] = &[
    "MERGE t USING ( ¤ ) AS u ON TRUE WHEN MATCHED THEN DELETE",
    "FROM t |> UNION ALL ( ¤ )",
    "SELECT ( ¤ )",
    "SELECT 1 + ( ¤ ) * 2",
    "SELECT EXISTS ( ¤ )",
    "SELECT ARRAY ( ¤ )",
    "SELECT a IN ( ¤ )",
    "SELECT a NOT IN ( ¤ ) AND TRUE",
    "SELECT f ( ( ¤ ) )",
    "SELECT [ ( ¤ ) ]",
    "SELECT 1 FROM t WHERE a = ( ¤ )",
    "SELECT 1 FROM t WHERE EXISTS ( ¤ ) AND b",
    "SET x = ( ¤ )",
    "DECLARE x DEFAULT ( ¤ )",
    "UPDATE t SET a = ( ¤ ) WHERE TRUE",
    "INSERT INTO t VALUES ( ( ¤ ) , 1 )",
    "IF EXISTS ( ¤ ) THEN SELECT 1 ; END IF",
    "SELECT CASE WHEN ( ¤ ) THEN 1 END",
    "CREATE FUNCTION f ( ) AS ( ( ¤ ) )",
    "SELECT STRUCT ( ( ¤ ) AS a )",
    "SELECT a = ANY ( ¤ )",
    "SELECT CAST ( ( ¤ ) AS INT64 )",
];

pub const STATEMENT: &[&str] = &[
    "¤",
    "¤ ;",
    "SELECT 1 ; ¤",
    "SELECT 1 ; ¤ ; SELECT 2 ;",
    "CREATE TABLE t ( a INT64 ) ; ¤ ;",
    "BEGIN ¤ ; END",
    "BEGIN SELECT 1 ; ¤ ; SELECT 2 ; END",
    "BEGIN BEGIN ¤ ; END ; END",
    "BEGIN SELECT 1 ; EXCEPTION WHEN ERROR THEN ¤ ; END",
    "IF TRUE THEN ¤ ; END IF",
    "IF TRUE THEN SELECT 1 ; ELSEIF FALSE THEN ¤ ; ELSE SELECT 1 ; END IF",
    "IF TRUE THEN SELECT 1 ; ELSE ¤ ; END IF",
    "LOOP ¤ ; END LOOP",
    "LOOP SELECT 1 ; ¤ ; BREAK ; END LOOP",
    "WHILE TRUE DO ¤ ; END WHILE",
    "REPEAT ¤ ; UNTIL TRUE END REPEAT",
    "FOR r IN ( SELECT 1 ) DO ¤ ; END FOR",
    "CASE WHEN TRUE THEN ¤ ; END CASE",
    "CASE a WHEN 1 THEN SELECT 1 ; WHEN 2 THEN ¤ ; ELSE SELECT 2 ; END CASE",
    "CASE WHEN TRUE THEN SELECT 1 ; ELSE ¤ ; END CASE",
    "l : LOOP ¤ ; END LOOP l",
    "l : BEGIN ¤ ; END l",
    "CREATE PROCEDURE p ( ) BEGIN ¤ ; END",
    "CREATE OR REPLACE PROCEDURE d . p ( IN x INT64 ) BEGIN DECLARE y INT64 ; ¤ ; END ;",
];

pub const TYPE: &[&str] = &[
    "DECLARE x ¤",
    "DECLARE x , y ¤ DEFAULT 1",
    "DECLARE x ¤ ; SELECT 1",
    "SELECT CAST ( a AS ¤ )",
    "SELECT SAFE_CAST ( a + 1 AS ¤ ) AS x",
    "SELECT CAST ( a AS ARRAY < ¤ > )",
    "SELECT CAST ( a AS STRUCT < a INT64 , b ¤ > )",
    "CREATE TABLE t ( a ¤ )",
    "CREATE TABLE t ( a ¤ , b INT64 )",
    "CREATE TABLE t ( a ARRAY < ¤ > )",
    "CREATE TABLE t ( a ¤ NOT NULL )",
    "CREATE FUNCTION f ( x ¤ ) AS ( 1 )",
    "CREATE FUNCTION f ( ) RETURNS ¤ AS ( 1 )",
    "CREATE FUNCTION f ( x INT64 , y ¤ ) RETURNS INT64 AS ( 1 )",
    "CREATE PROCEDURE p ( IN x ¤ ) BEGIN END",
    "CREATE PROCEDURE p ( OUT x INT64 , INOUT y ¤ ) BEGIN END",
    "ALTER TABLE t ADD COLUMN a ¤",
    "ALTER TABLE t ALTER COLUMN a SET DATA TYPE ¤",
    "BEGIN DECLARE x ¤ ; END",
];

/// drops whatever lies outside of the tokens lo..hi
fn prune(n: &N, lo: u64, hi: u64) -> N {
    fn outside(n: &N, lo: u64, hi: u64) -> bool {
        let mut v = vec![];
        n.collect(&mut v);
        !v.is_empty() && v.iter().all(|t| t.col < lo || t.col >= hi)
    }
    let mut kids = std::collections::BTreeMap::new();
    for (k, c) in &n.kids {
        match c {
            Kid::One(c) => {
                if !outside(c, lo, hi) {
                    kids.insert(k.clone(), Kid::One(Box::new(prune(c, lo, hi))));
                }
            }
            Kid::Many(v) => {
                let w: Vec<N> = v.iter().filter(|c| !outside(c, lo, hi)).map(|c| prune(c, lo, hi)).collect();
                if !w.is_empty() || v.is_empty() {
                    kids.insert(k.clone(), Kid::Many(w));
                }
            }
        }
    }
    N { tok: n.tok.clone(), ty: n.ty.clone(), kids }
}

fn find(n: &N, tok: u64) -> Option<&N> {
    if n.tok.as_ref().map_or(false, |t| t.col == tok) {
        return Some(n);
    }
    for k in n.kids.values() {
        let r = match k {
            Kid::One(c) => find(c, tok),
            Kid::Many(v) => v.iter().find_map(|c| find(c, tok)),
        };
        if r.is_some() {
            return r;
        }
    }
    None
}

fn spec(w: &str) -> TokSpec {
    TokSpec { lit: w.to_string(), kw: w.chars().all(|c| c.is_ascii_uppercase() || c == '_') && w.len() > 1, glue: false, gap: false }
}

/// `inner` in the place of ¤
pub fn embed(template: &str, inner: &[TokSpec]) -> (Vec<TokSpec>, usize) {
    let mut v = vec![];
    let mut at = 0;
    for w in template.split(' ') {
        if w == "¤" {
            at = v.len();
            v.extend(inner.iter().cloned());
        } else {
            let mut t = spec(w);
            // an identifier such as a-b must not swallow what follows
            if v.len() == at + inner.len() && at > 0 || !v.is_empty() && !can_touch(v.last().unwrap(), &t) {
                t.gap = !matches!(w, "," | ")" | ";" | "(" | ".");
            }
            v.push(t);
        }
    }
    (v, at)
}

pub struct Piece {
    pub toks: Vec<TokSpec>,
    pub m: M,
    pub s: Src,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum What {
    Expr,
    Query,
    Subquery,
    Statement,
    Type,
}

pub fn templates(w: What) -> &'static [&'static str] {
    match w {
        What::Expr => EXPR,
        What::Query => QUERY,
        What::Subquery => SUBQUERY,
        What::Statement => STATEMENT,
        What::Type => TYPE,
    }
}

pub fn piece(s: Src, dict: &Dict, what: What) -> Piece {
    let mut g = G::new(s, 0, dict.clone());
    g.budget = [6, 15, 40][g.s.pick(&[4, 3, 1])];
    let m = match what {
        What::Expr => g.expr(MAX),
        What::Query => g.query(false),
        What::Subquery => g.query(true),
        What::Statement => {
            g.mix = [Mix::All, Mix::Statements, Mix::Script][g.s.below(3) as usize];
            g.statement(false)
        }
        What::Type => g.ty(false, false),
    };
    Piece { toks: std::mem::take(&mut g.toks), m, s: g.s }
}

/// Puts the piece into the template; the tree there must be the one expected by construction.
pub fn check(s: &mut Src, p: &Piece, template: &str) -> (Seen, String) {
    let (toks, at) = embed(template, &p.toks);
    let style = [Style::Plain, Style::Dense, Style::Space, Style::Comments][s.below(4) as usize];
    let laid = lay(s, &toks, style, true);
    let text = laid.text.clone();
    let tree = match api::parse(&text) {
        Out::Ok(t) => t,
        o => return (Seen::fail(o.kind(), format!("in {:?}: {}", template, o.describe())), text),
    };
    let num = numbers(&reflex::lex(&text).toks);
    // expected, numbered within the whole text
    let plain = crate::gen::layout::write(&p.toks.iter().map(|t| t.lit.clone()).collect::<Vec<_>>(), &vec![vec![]; p.toks.len() + 1]);
    let mut want = crate::gen::layout::expect(&p.m, &plain);
    fn renumber(m: &M, n: &mut N, at: usize, laid: &crate::gen::layout::Laid) {
        if let (Some(i), Some(t)) = (m.tok, &mut n.tok) {
            t.line = 0;
            t.col = (i + at) as u64;
            t.lit = laid.toks[i + at].lit.clone();
        }
        for (k, c) in &m.kids {
            match (c, n.kids.get_mut(*k).unwrap()) {
                (crate::gen::MKid::One(a), Kid::One(b)) => renumber(a, b, at, laid),
                (crate::gen::MKid::Many(a), Kid::Many(b)) => a.iter().zip(b).for_each(|(a, b)| renumber(a, b, at, laid)),
                _ => unreachable!(),
            }
        }
    }
    renumber(&p.m, &mut want, at, &laid);
    let root = match &want.tok {
        Some(t) => t.col,
        None => return (Seen::pass("ok", false), text),
    };
    for st in &tree {
        let st = match normal(st, &num) {
            Ok(s) => s,
            Err(e) => return (Seen::fail("ok", e), text),
        };
        if let Some(n) = find(&st, root) {
            let got = prune(n, at as u64, (at + p.toks.len()) as u64);
            return match diff(&want, &got, true) {
                Some(d) => (Seen::fail("ok", format!("in {:?}, expected vs got: {}", template, d)), text),
                None => (Seen::pass("ok", p.toks.len() >= 2), text),
            };
        }
    }
    (Seen::fail("ok", format!("in {:?}: token {} is not in the tree", template, root)), text)
}

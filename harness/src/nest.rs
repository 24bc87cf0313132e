//! Deeply nested and very long texts, by repeating a fragment.
use crate::engine::Src;
use crate::oracle::Seen;
use crate::work::parse_work;
use crate::api::Out;

pub struct Family {
    pub wraps: &'static [&'static str],
    pub core: &'static str,
    /// where the whole goes
    pub outer: &'static str,
}

const EXPR: &[&str] = &[
    "(¤)", "f(¤)", "[¤]", "a[¤]", "- ¤", "NOT ¤", "CASE WHEN ¤ THEN 1 END", "CASE ¤ WHEN 1 THEN 2 END", "CASE WHEN a THEN 1 ELSE ¤ END",
    "IF(¤, 1, 2)", "CAST(¤ AS INT64)", "(SELECT ¤)", "EXISTS(SELECT 1 FROM t WHERE ¤)", "ARRAY(SELECT ¤)", "(FROM t |> WHERE ¤)",
    "STRUCT(¤)", "STRUCT(¤ AS a, 1 AS b)", "a IN (¤, 1)", "a IN (SELECT ¤)", "f(a) OVER (PARTITION BY ¤)", "EXTRACT(DAY FROM ¤)", "(1, ¤)",
    "1 + (¤)", "(¤) * 2", "f(x => ¤)", "(WITH w AS (SELECT ¤) SELECT 1)", "(SELECT 1 FROM (SELECT ¤))", "a.b(¤)", "f(¤).g(1)", "f(¤)[0]",
    "ARRAY<INT64>[¤]", "f(DISTINCT ¤ ORDER BY b)", "(SELECT AS STRUCT ¤ UNION ALL SELECT 1)", "f((SELECT ¤))", "[(SELECT ¤)]", "INTERVAL (¤) DAY",
    "a BETWEEN (¤) AND 2", "(¤) IS NULL", "WITH(w AS ¤, w)", "~ ¤", "a = ANY(¤)", "(SELECT ¤ FROM t JOIN (SELECT 1) ON TRUE)",
];
const QUERY: &[&str] = &[
    "(¤)", "SELECT 1 FROM (¤)", "SELECT 1 FROM (¤) AS x JOIN u ON TRUE", "WITH w AS (¤) SELECT 1", "(¤) UNION ALL SELECT 1", "SELECT 1 UNION ALL (¤)",
    "FROM (¤) |> WHERE TRUE", "FROM t |> JOIN (¤) USING (a)", "SELECT (SELECT 1 FROM (¤))", "SELECT 1 FROM t WHERE EXISTS (SELECT 1 FROM (¤))",
    "(¤) ORDER BY 1 LIMIT 2", "SELECT 1 FROM t, (¤)", "SELECT 1 FROM (¤) PIVOT (COUNT(a) FOR b IN (1, 2))",
];
const TABLE: &[&str] = &["(¤)", "(¤ JOIN u ON TRUE)", "(u JOIN ¤ ON TRUE)", "(SELECT 1 FROM ¤)", "(¤ CROSS JOIN v)", "(¤) AS x", "((SELECT 1 FROM ¤))", "(u, ¤)"];
const STATEMENT: &[&str] = &[
    "BEGIN ¤; END", "IF a THEN ¤; END IF", "IF a THEN SELECT 1; ELSE ¤; END IF", "LOOP ¤; END LOOP", "WHILE a DO ¤; END WHILE", "REPEAT ¤; UNTIL a END REPEAT",
    "FOR r IN (SELECT 1) DO ¤; END FOR", "CASE WHEN a THEN ¤; END CASE", "CREATE PROCEDURE p() BEGIN ¤; END", "l: BEGIN ¤; END l", "l: LOOP ¤; END LOOP l",
    "BEGIN SELECT 1; EXCEPTION WHEN ERROR THEN ¤; END", "IF a THEN SELECT 1; ELSEIF b THEN ¤; END IF",
];
const TYPE: &[&str] = &["ARRAY<¤>", "STRUCT<a ¤>", "STRUCT<a INT64, b ¤>", "STRUCT<¤>", "STRUCT<a ARRAY<¤>, c STRING>"];

pub const FAMILIES: &[Family] = &[
    Family { wraps: EXPR, core: "a", outer: "SELECT ¤" },
    Family { wraps: QUERY, core: "SELECT a", outer: "¤" },
    Family { wraps: TABLE, core: "t", outer: "SELECT 1 FROM ¤" },
    Family { wraps: STATEMENT, core: "SELECT 1", outer: "¤" },
    Family { wraps: TYPE, core: "INT64", outer: "DECLARE x ¤" },
    Family { wraps: EXPR, core: "a", outer: "IF ¤ THEN SELECT 1; END IF" },
    Family { wraps: QUERY, core: "SELECT a", outer: "CREATE TABLE t AS ¤" },
    Family { wraps: TABLE, core: "t", outer: "FROM ¤ |> WHERE TRUE" },
    Family { wraps: TYPE, core: "INT64", outer: "CREATE TABLE t (a ¤)" },
];

/// the fragments of one case: which family, and which wraps are repeated in turn
pub fn pattern(s: &mut Src) -> (usize, Vec<usize>) {
    let f = s.below(FAMILIES.len() as u32) as usize;
    let n = 1 + s.pick(&[3, 3, 1]);
    let w = (0..n).map(|_| s.below(FAMILIES[f].wraps.len() as u32) as usize).collect();
    (f, w)
}

pub fn text(f: usize, wraps: &[usize], depth: usize) -> String {
    let fam = &FAMILIES[f];
    let mut pre = String::new();
    let mut post: Vec<&str> = vec![];
    for d in 0..depth {
        let (a, b) = fam.wraps[wraps[d % wraps.len()]].split_once('¤').unwrap();
        pre.push_str(a);
        post.push(b);
    }
    pre.push_str(fam.core);
    for p in post.iter().rev() {
        pre.push_str(p);
    }
    fam.outer.replace('¤', &pre)
}

/// every fragment that nests in itself, one by one, and every pair
pub fn enumerated(i: u64) -> Option<(usize, Vec<usize>)> {
    let mut k = i as usize;
    for (f, fam) in FAMILIES.iter().enumerate() {
        let n = fam.wraps.len();
        if k < n {
            return Some((f, vec![k]));
        }
        k -= n;
        if f < 5 {
            if k < n * n {
                return Some((f, vec![k / n, k % n]));
            }
            k -= n * n;
        }
    }
    None
}
pub fn enumerated_count() -> u64 {
    let mut i = 0;
    while enumerated(i).is_some() {
        i += 1;
    }
    i
}

/// Twice the depth must not mean many times the work. Exponential growth shows at the first step
/// that is wide enough; no machine-dependent time is involved.
pub fn growth(f: usize, wraps: &[usize], max: usize) -> (Seen, String) {
    let mut last: Option<u64> = None;
    let mut kind = "rejected";
    let mut d = 3;
    while d <= max {
        let t = text(f, wraps, d);
        let (n, o) = parse_work(&t);
        match o {
            Out::Ok(()) => kind = "accepted",
            Out::Err(_) => (),
            o => return (Seen::fail("panic", format!("at nesting depth {}: {}", d, o.describe())), t),
        }
        if let Some(l) = last {
            if n > 40 * l && n > 100_000 {
                return (Seen::fail(kind, format!("{} allocations at nesting depth {}, {} at depth {}: that is not polynomial work", l, d / 2, n, d)), t);
            }
        }
        last = Some(n);
        d *= 2;
    }
    (Seen::pass(kind, true), text(f, wraps, max.min(6)))
}

/// flat repetition: (pattern repeated, prefix, suffix)
pub const FLAT: &[(&str, &str, &str)] = &[
    ("SELECT ", "a, ", "a"),
    ("SELECT ", "1 + ", "1"),
    ("SELECT ", "a AND ", "b"),
    ("SELECT ", "a.", "b"),
    ("SELECT ", "f(", "a"),
    ("SELECT f(", "a, ", "a)"),
    ("SELECT [", "1, ", "1]"),
    ("SELECT a IN (", "1, ", "1)"),
    ("", "SELECT 1; ", "SELECT 1"),
    ("", "SELECT 1;\n", ""),
    ("", "-- c\n", "SELECT 1"),
    ("", "/* c */", "SELECT 1"),
    ("SELECT 1 ", "/* c */", "FROM t"),
    ("SELECT 1 ", "-- c\n", "FROM t"),
    ("SELECT 1 ", "# c\n", ""),
    ("SELECT 1 FROM t ", "JOIN u ON TRUE ", ""),
    ("SELECT 1 FROM ", "t, ", "t"),
    ("SELECT 1 ", "UNION ALL SELECT 1 ", ""),
    ("WITH ", "w AS (SELECT 1), ", "w AS (SELECT 1) SELECT 1"),
    ("FROM t ", "|> WHERE TRUE ", ""),
    ("FROM t ", "|> SELECT a, b\n", ";"),
    ("CREATE TABLE t (", "a INT64, ", "b STRING)"),
    ("DECLARE x STRUCT<", "a INT64, ", "b INT64>"),
    ("INSERT t VALUES ", "(1, 2), ", "(1, 2)"),
    ("INSERT t (", "a, ", "a) VALUES (1)"),
    ("UPDATE t SET ", "a = 1, ", "a = 1 WHERE TRUE"),
    ("MERGE t USING u ON TRUE ", "WHEN MATCHED AND a THEN DELETE ", "WHEN MATCHED THEN DELETE"),
    ("SELECT CASE ", "WHEN a THEN 1 ", "END"),
    ("IF a THEN SELECT 1; ", "ELSEIF b THEN SELECT 1; ", "END IF"),
    ("BEGIN ", "SELECT 1; ", "END"),
    ("CASE ", "WHEN a THEN SELECT 1; ", "END CASE"),
    ("SELECT 1 FROM t ORDER BY ", "a DESC, ", "b"),
    ("SELECT 1 FROM t GROUP BY ", "a, ", "b"),
    ("SELECT a", "[0]", ""),
    ("SELECT a", ".b(1)", ""),
    ("SELECT ", "- ", "1"),
    ("SELECT ", "NOT ", "a"),
    ("ALTER TABLE t ", "ADD COLUMN a INT64, ", "ADD COLUMN b INT64"),
    ("SELECT 1 FROM ", "p-", "q"),
    ("SELECT '", "a", "'"),
    ("SELECT '''", "a\n", "'''"),
    ("SELECT `", "a", "`"),
    ("SELECT x", "a", ""),
    ("SELECT ", "1", ""),
    ("SELECT -- ", "a", "\n1"),
    ("SELECT /* ", "a\n", "*/ 1"),
    ("SELECT ", " ", "1"),
    ("SELECT ", "\n", "1"),
    ("SELECT 1", "\n", "-- c"),
    ("SELECT {{ ", "a", " }}"),
    ("SELECT ", "'s' ", ""),
    ("SELECT '", "\\\\", "'"),
    ("SELECT '", "\\'", "'"),
    ("CREATE FUNCTION f(", "x INT64, ", "y INT64) AS (1)"),
    ("GRANT `r` ON TABLE t TO ", "'user:a', ", "'user:b'"),
    ("CALL p(", "1, ", "2)"),
    ("SELECT f(a) OVER (PARTITION BY ", "a, ", "b)"),
    ("SELECT * EXCEPT (", "a, ", "b) FROM t"),
    ("SELECT 1 FROM t ", ", UNNEST(a) AS x WITH OFFSET ", ""),
    ("OPTIONS", "(", ""),
    ("", "(", ""),
    ("SELECT ", "[", ""),
    ("SELECT ", "CASE WHEN ", ""),
    ("", "BEGIN ", ""),
    ("", ";", ""),
    ("", "SELECT ", ""),
    ("", "{", ""),
    ("", "@", ""),
    ("DECLARE x ", "ARRAY<", ""),
    ("SELECT ", "<", ""),
    ("SELECT a ", "> ", "b"),
    ("FROM t ", "|> ", ""),
    ("", "l: ", ""),
    ("SELECT a", " . ", ""),
    ("CREATE ", "OR REPLACE ", "TABLE t (a INT64)"),
];

pub fn flat(i: usize, n: usize) -> String {
    let (a, b, c) = FLAT[i];
    format!("{}{}{}", a, b.repeat(n), c)
}

pub fn flat_growth(i: usize) -> (Seen, String) {
    let mut last: Option<u64> = None;
    let mut kind = "rejected";
    for n in [10, 40, 160] {
        let t = flat(i, n);
        let (w, o) = parse_work(&t);
        match o {
            Out::Ok(()) => kind = "accepted",
            Out::Err(_) => (),
            o => return (Seen::fail("panic", format!("{} repetitions: {}", n, o.describe())), t),
        }
        if let Some(l) = last {
            if w > 200 * l && w > 100_000 {
                return (Seen::fail(kind, format!("{} allocations for {} repetitions, {} for {}: that is not polynomial work", l, n / 4, w, n)), t);
            }
        }
        last = Some(w);
    }
    (Seen::pass(kind, true), flat(i, 4))
}

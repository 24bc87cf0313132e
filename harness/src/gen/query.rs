//! Queries: SELECT, set operations, FROM, joins, pipe syntax.
use super::*;

impl G {
    /// a query; in an expression it must not be a mere query in parentheses,
    /// which is an expression there
    pub fn query(&mut self, in_expr: bool) -> M {
        self.depth += 1;
        let m = if self.opt(1, 8) {
            let w = self.with_clause("WithClause");
            let mut q = self.query_body(true);
            q.put("with", w);
            q
        } else {
            self.query_body(!in_expr)
        };
        self.depth -= 1;
        m
    }
    pub fn with_clause(&mut self, ty: &'static str) -> M {
        let mut w = self.kw("WITH", ty);
        if self.opt(1, 5) {
            let k = self.key("RECURSIVE");
            w.put("recursive", k);
        }
        let n = self.count(1);
        let mut v = vec![];
        for i in 0..n {
            let name = self.name();
            let mut q = self.t(&name, "WithQuery");
            let k = self.key("AS");
            q.put("as", k);
            let s = self.grouped_query();
            q.put("stmt", s);
            if i + 1 < n || self.opt(1, 15) {
                let c = self.sym(",");
                q.put("comma", c);
            }
            v.push(q);
        }
        w.puts("queries", v);
        w
    }
    /// ( query ) where a statement may stand: pipe syntax is fine here
    pub fn grouped_query(&mut self) -> M {
        let mut n = self.t("(", "GroupedStatement");
        let q = self.query(false);
        n.put("stmt", q);
        let r = self.sym(")");
        n.put("rparen", r);
        n
    }
    fn query_body(&mut self, paren: bool) -> M {
        if self.low() {
            return self.select(false);
        }
        let kind = self.s.pick(&[10, 3, 2, 3]);
        let mut q = match kind {
            0 => self.select(true),
            1 => {
                let first = self.select(false);
                let (mut q, open) = self.set_chain_info(first, true);
                if open {
                    self.orderby_limit(&mut q);
                }
                q
            }
            2 => {
                let mut f = self.kw("FROM", "FromStatement");
                let t = self.from_item(true);
                f.put("expr", t);
                f
            }
            _ => {
                // starts with a parenthesis
                let mut q = self.grouped_query();
                let mut open = true;
                let limit = !paren && self.opt(1, 3);
                if !limit && (!paren || self.coin()) {
                    let (c, last_paren) = self.set_chain_info(q, true);
                    q = c;
                    open = last_paren;
                }
                if open {
                    self.orderby_limit(&mut q);
                }
                if limit && !q.kids.iter().any(|(k, _)| matches!(*k, "orderby" | "limit")) {
                    match self.s.pick(&[1, 1, 1]) {
                        0 => {
                            let o = self.orderby();
                            q.put("orderby", o);
                        }
                        1 => {
                            let l = self.limit();
                            q.put("limit", l);
                        }
                        _ => q = self.pipe(q),
                    }
                }
                q
            }
        };
        let n = if q.ty == "FromStatement" { self.count(0) } else if self.opt(1, 8) { self.count(1) } else { 0 };
        for _ in 0..n {
            q = self.pipe(q);
        }
        q
    }
    /// a query followed by pipe operators
    pub fn piped(&mut self) -> M {
        let mut q = if self.s.chance(1, 4) {
            let w = self.with_clause("WithClause");
            let mut q = self.query_body(true);
            if q.ty == "PipeStatement" {
                q.put("with", w);
                return q;
            }
            // WITH belongs to the whole pipe
            for _ in 0..self.count(1) {
                q = self.pipe(q);
            }
            q.put("with", w);
            return q;
        } else if self.s.chance(2, 3) {
            let mut f = self.kw("FROM", "FromStatement");
            let t = self.from_item(true);
            f.put("expr", t);
            f
        } else {
            self.query_body(true)
        };
        for _ in 0..self.count(1) {
            q = self.pipe(q);
        }
        q
    }
    fn orderby_limit(&mut self, q: &mut M) {
        if self.maybe() {
            let o = self.orderby();
            q.put("orderby", o);
        }
        if self.maybe() {
            let l = self.limit();
            q.put("limit", l);
        }
    }
    /// operands joined by set operators, from the left; also whether the last one is in parentheses
    fn set_chain_info(&mut self, first: M, tail: bool) -> (M, bool) {
        let mut q = first;
        let n = self.reps(&[5, 3, 1]) + 1;
        let mut paren = false;
        for i in 0..n {
            let (_, mut op) = self.set_op("SetOperator", "distinct_or_all");
            op.put("left", q);
            paren = self.coin();
            let r = if paren {
                self.grouped_query()
            } else {
                self.select(tail && i + 1 == n)
            };
            op.put("right", r);
            q = op;
        }
        (q, paren)
    }
    /// the comma after the last item of a list
    fn trailing_comma(&mut self, v: &mut Vec<M>) {
        if self.opt(1, 16) {
            let c = self.sym(",");
            v.last_mut().unwrap().put("comma", c);
        }
    }
    /// [FULL OUTER] UNION ALL [BY NAME ...]
    fn set_op(&mut self, ty: &'static str, key: &'static str) -> ((), M) {
        // after a trailing comma LEFT would begin another item
        let comma = self.toks.last().map_or(false, |t| t.lit == ",");
        let method = if self.opt(1, 5) && !comma {
            Some(match self.s.below(6) {
                0 => self.key("INNER"),
                1 => self.key("FULL"),
                2 => self.seq2("FULL", "OUTER"),
                3 => self.key("LEFT"),
                4 => self.seq2("LEFT", "OUTER"),
                _ => self.key("OUTER"),
            })
        } else {
            None
        };
        let w = *self.s.of(&["UNION", "INTERSECT", "EXCEPT"]);
        let mut op = self.kw(w, ty);
        op.opt("method", method);
        let w = *self.s.of(&["ALL", "DISTINCT"]);
        let k = self.key(w);
        op.put(key, k);
        if self.opt(1, 6) {
            if self.coin() {
                let mut by = self.kw("BY", "KeywordSequence");
                let mut name = self.kw("NAME", "Keyword");
                if self.maybe() {
                    name.ty = "KeywordSequence";
                    let on = self.kw_grouped("ON", 1);
                    name.put("next_keyword", on);
                }
                by.put("next_keyword", name);
                op.put("by", by);
            } else {
                let strict = if self.coin() { Some(self.kw("STRICT", "KeywordSequence")) } else { None };
                let mut c = self.kw("CORRESPONDING", "Keyword");
                if self.maybe() {
                    c.ty = "KeywordSequence";
                    let b = self.kw_grouped("BY", 1);
                    c.put("next_keyword", b);
                }
                let c = match strict {
                    Some(mut s) => {
                        s.put("next_keyword", c);
                        s
                    }
                    None => c,
                };
                op.put("corresponding", c);
            }
        }
        ((), op)
    }
    pub fn limit(&mut self) -> M {
        let mut l = self.kw("LIMIT", "LimitClause");
        let e = self.expr(MAX);
        l.put("expr", e);
        if self.maybe() {
            let o = self.kw_expr("OFFSET");
            l.put("offset", o);
        }
        l
    }
    pub fn kw_expr(&mut self, kw: &str) -> M {
        let mut k = self.kw(kw, "KeywordWithExpr");
        let e = self.expr(MAX);
        k.put("expr", e);
        k
    }
    fn asterisk(&mut self) -> M {
        let mut a = self.t("*", "Asterisk");
        if self.opt(1, 4) {
            let which = self.s.below(3);
            if which != 1 {
                let k = self.kw_grouped("EXCEPT", 1);
                a.put("except", k);
            }
            if which != 0 {
                let mut k = self.kw("REPLACE", "KeywordWithGroupedXXX");
                let mut g = self.t("(", "GroupedExprs");
                let v = self.list(1, &mut |g| {
                    let mut e = g.expr(MAX);
                    let k = g.key("AS");
                    e.put("as", k);
                    let a = g.ident();
                    e.put("alias", a);
                    e
                });
                g.puts("exprs", v);
                let r = self.sym(")");
                g.put("rparen", r);
                k.put("group", g);
                a.put("replace", k);
            }
        }
        a
    }
    fn select_item(&mut self) -> M {
        match if self.low() { 0 } else { self.s.pick(&[8, 1, 1]) } {
            0 => self.expr_alias(MAX, true, 3),
            1 => self.asterisk(),
            _ => {
                let p = self.path_expr();
                let mut d = self.t(".", "DotOperator");
                d.put("left", p);
                let a = self.asterisk();
                d.put("right", a);
                d
            }
        }
    }
    /// SELECT ...; `tail`: ORDER BY and LIMIT may follow
    pub fn select(&mut self, tail: bool) -> M {
        self.depth += 1;
        let mut n = self.kw("SELECT", "SelectStatement");
        if self.opt(1, 25) {
            let mut w = self.kw("WITH", "DifferentialPrivacyClause");
            let k = self.key("DIFFERENTIAL_PRIVACY");
            w.put("differential_privacy", k);
            if self.coin() {
                let o = self.options();
                w.put("options", o);
            }
            n.put("differential_privacy", w);
        }
        if self.opt(1, 8) {
            let w = *self.s.of(&["DISTINCT", "ALL"]);
            let k = self.key(w);
            n.put("distinct_or_all", k);
        }
        if self.opt(1, 10) {
            let w = *self.s.of(&["STRUCT", "VALUE"]);
            let k = self.keys(&["AS", w]);
            n.puts("as_struct_or_value", k);
        }
        let mut v = self.list(1, &mut |g| g.select_item());
        let star = {
            let l = v.last().unwrap();
            let r = if l.ty == "DotOperator" {
                match l.kids.iter().find(|(k, _)| *k == "right") {
                    Some((_, MKid::One(r))) => r.ty,
                    _ => "",
                }
            } else {
                l.ty
            };
            r == "Asterisk"
        };
        self.trailing_comma(&mut v);
        n.puts("exprs", v);
        let from = star || self.opt(1, 2);
        if from {
            let mut f = self.kw("FROM", "KeywordWithExpr");
            let t = self.from_item(true);
            f.put("expr", t);
            n.put("from", f);
        }
        if self.opt(1, 4) {
            let w = self.kw_expr("WHERE");
            n.put("where", w);
        }
        if self.opt(1, 6) {
            let g = self.groupby(false);
            n.put("groupby", g);
        }
        if self.opt(1, 10) {
            let w = self.kw_expr("HAVING");
            n.put("having", w);
        }
        if self.opt(1, 10) {
            let w = self.kw_expr("QUALIFY");
            n.put("qualify", w);
        }
        if self.opt(1, 12) {
            let w = self.window_clause();
            n.put("window", w);
        }
        if tail {
            if self.opt(1, 6) {
                let o = self.orderby();
                n.put("orderby", o);
            }
            if self.opt(1, 6) {
                let l = self.limit();
                n.put("limit", l);
            }
        }
        self.depth -= 1;
        n
    }
    fn groupby(&mut self, alias: bool) -> M {
        let mut n = self.kw("GROUP", "GroupByExprs");
        let k = self.key("BY");
        n.put("by", k);
        match self.s.pick(&[6, 1, 1, 1]) {
            0 => {
                let v = self.list(1, &mut |g| g.expr_alias(MAX, alias, 4));
                n.puts("exprs", v);
            }
            1 => {
                let w = *self.s.of(&["ROLLUP", "CUBE"]);
                let k = self.keys(&[w]);
                n.puts("how", k);
                let e = self.tuple_args();
                n.puts("exprs", vec![e]);
            }
            2 => {
                let k = self.keys(&["GROUPING", "SETS"]);
                n.puts("how", k);
                let e = self.tuple_args();
                n.puts("exprs", vec![e]);
            }
            _ => {
                let k = self.keys(&["ALL"]);
                n.puts("how", k);
            }
        }
        n
    }
    /// ( a, b ) read as an expression
    fn tuple_args(&mut self) -> M {
        let mut n = self.t("(", "GroupedExpr");
        let mut v = self.list(1, &mut |g| g.expr(MAX));
        if v.len() == 1 {
            n.put("expr", v.pop().unwrap());
        } else {
            n.ty = "StructLiteral";
            n.puts("exprs", v);
        }
        let r = self.sym(")");
        n.put("rparen", r);
        n
    }
    fn window_clause(&mut self) -> M {
        let mut w = self.kw("WINDOW", "WindowClause");
        let v = self.list(1, &mut |g| {
            let name = g.name();
            let mut e = g.t(&name, "WindowExpr");
            let k = g.key("AS");
            e.put("as", k);
            let s = g.window();
            e.put("window", s);
            e
        });
        w.puts("window_exprs", v);
        w
    }
    pub fn window(&mut self) -> M {
        if self.s.chance(1, 5) {
            return self.ident();
        }
        let mut w = self.t("(", "WindowSpecification");
        if self.opt(1, 5) {
            let i = self.ident();
            w.put("name", i);
        }
        if self.maybe() {
            let p = self.xxxby("PARTITION");
            w.put("partitionby", p);
        }
        if self.maybe() {
            let p = self.orderby();
            w.put("orderby", p);
        }
        if self.opt(1, 4) {
            let k = *self.s.of(&["ROWS", "RANGE"]);
            let mut f = self.kw(k, "WindowFrameClause");
            if self.coin() {
                let k = self.key("BETWEEN");
                f.put("between", k);
                let b = self.bound("PRECEDING");
                f.puts("start", b);
                let k = self.key("AND");
                f.put("and", k);
                let b = self.bound("FOLLOWING");
                f.puts("end", b);
            } else {
                let b = self.bound("PRECEDING");
                f.puts("start", b);
            }
            w.put("frame", f);
        }
        let r = self.sym(")");
        w.put("rparen", r);
        w
    }
    fn bound(&mut self, dir: &str) -> Vec<M> {
        match self.s.below(3) {
            0 => self.keys(&["UNBOUNDED", dir]),
            1 => self.keys(&["CURRENT", "ROW"]),
            _ => {
                let e = self.expr(110);
                let k = self.key(dir);
                vec![e, k]
            }
        }
    }
    // ----- FROM -----
    pub fn trailing_alias(&mut self, n: &mut M, den: u32) {
        if self.opt(1, den) {
            if self.coin() {
                let k = self.key("AS");
                n.put("as", k);
            }
            let i = self.ident();
            n.put("alias", i);
        }
    }
    /// tables and joins
    pub fn from_item(&mut self, joins: bool) -> M {
        self.depth += 1;
        let mut l = self.table();
        if joins && self.opt(1, 4) {
            for _ in 0..self.count(1) {
                let ty = match self.s.pick(&[6, 2, 2, 2, 2, 2]) {
                    0 => None,
                    1 => Some(("LEFT", self.coin())),
                    2 => Some(("RIGHT", self.coin())),
                    3 => Some(("FULL", self.coin())),
                    4 => Some(("INNER", false)),
                    _ => Some(("CROSS", false)),
                };
                let mut j;
                match ty {
                    None => {
                        j = if self.s.chance(1, 3) { self.t(",", "JoinOperator") } else { self.kw("JOIN", "JoinOperator") };
                    }
                    Some((w, outer)) => {
                        let t = self.key(w);
                        let o = if outer { Some(self.key("OUTER")) } else { None };
                        j = self.kw("JOIN", "JoinOperator");
                        j.put("join_type", t);
                        j.opt("outer", o);
                    }
                }
                let r = self.table();
                self.join_condition(&mut j);
                j.put("left", l);
                j.put("right", r);
                l = j;
            }
        }
        self.depth -= 1;
        l
    }
    fn join_condition(&mut self, j: &mut M) {
        if self.opt(1, 2) {
            if self.coin() {
                let e = self.kw_expr("ON");
                j.put("on", e);
            } else {
                let f = self.kw("USING", "Identifier");
                let mut c = self.t("(", "CallingFunction");
                c.put("func", f);
                let v = self.list(1, &mut |g| g.ident());
                c.puts("args", v);
                let r = self.sym(")");
                c.put("rparen", r);
                j.put("using", c);
            }
        }
    }
    pub fn tvf(&mut self) -> M {
        let f = self.ident_path();
        let mut n = self.t("(", "CallingTableFunction");
        n.put("func", f);
        let v = self.list(0, &mut |g| {
            if g.opt(1, 4) {
                let k = *g.s.of(&["TABLE", "MODEL"]);
                let mut e = g.kw(k, "UnaryOperator");
                let r = g.table_path();
                e.put("right", r);
                e
            } else {
                g.expr(200)
            }
        });
        if !v.is_empty() {
            n.puts("args", v);
        }
        let r = self.sym(")");
        n.put("rparen", r);
        n
    }
    fn table(&mut self) -> M {
        if self.low() {
            return self.table_path();
        }
        let mut n;
        match self.s.pick(&[12, 2, 3, 3, 2]) {
            0 => {
                n = self.table_path();
                self.trailing_alias(&mut n, 3);
                if self.opt(1, 8) {
                    let mut f = self.kw("FOR", "ForSystemTimeAsOfClause");
                    let k = self.keys(&["SYSTEM_TIME", "AS", "OF"]);
                    f.puts("system_time_as_of", k);
                    let e = self.expr(110);
                    f.put("expr", e);
                    n.put("for_system_time_as_of", f);
                }
            }
            1 => {
                n = self.tvf();
                self.trailing_alias(&mut n, 3);
            }
            2 => {
                n = self.unnest();
                self.trailing_alias(&mut n, 3);
                if self.opt(1, 3) {
                    let mut w = self.kw("WITH", "WithOffsetClause");
                    let k = self.key("OFFSET");
                    w.put("offset", k);
                    if self.maybe() {
                        if self.coin() {
                            let k = self.key("AS");
                            w.put("as", k);
                        }
                        let a = self.ident();
                        w.put("alias", a);
                    }
                    n.put("with_offset", w);
                }
            }
            3 => {
                n = self.grouped_query();
                self.trailing_alias(&mut n, 2);
            }
            _ => {
                // ( a JOIN b ) or ( a )
                n = self.t("(", "GroupedExpr");
                let t = self.from_item(true);
                n.put("expr", t);
                let r = self.sym(")");
                n.put("rparen", r);
                self.trailing_alias(&mut n, 4);
                // what stands in parentheses must not be readable as a query
                if grouped_reads_as_query(&n) {
                    n.ty = "GroupedStatement";
                    for (k, _) in n.kids.iter_mut() {
                        if *k == "expr" {
                            *k = "stmt";
                        }
                    }
                }
            }
        }
        match self.s.pick(&[30, 1, 1, 1]) {
            _ if self.low() => (),
            // WITH OFFSET PIVOT: PIVOT is the name of the offset
            _ if n.kids.iter().any(|(k, _)| *k == "with_offset") => (),
            1 => {
                let mut p = self.kw("PIVOT", "PivotOperator");
                let c = self.pivot_config();
                p.put("config", c);
                self.trailing_alias(&mut p, 3);
                n.put("pivot", p);
            }
            2 => {
                let mut p = self.kw("UNPIVOT", "UnpivotOperator");
                if self.coin() {
                    let w = *self.s.of(&["INCLUDE", "EXCLUDE"]);
                    let k = self.keys(&[w, "NULLS"]);
                    p.puts("include_or_exclude_nulls", k);
                }
                let c = self.unpivot_config();
                p.put("config", c);
                self.trailing_alias(&mut p, 3);
                n.put("unpivot", p);
            }
            3 => {
                let p = self.match_recognize("MatchRecognizeClause");
                n.put("match_recognize", p);
            }
            _ => (),
        }
        if self.opt(1, 25) {
            let mut s = self.kw("TABLESAMPLE", "TableSampleClause");
            let k = self.key("SYSTEM");
            s.put("system", k);
            let r = self.sample_ratio();
            s.put("group", r);
            n.put("tablesample", s);
        }
        n
    }
    fn sample_ratio(&mut self) -> M {
        let mut n = self.t("(", "TableSampleRatio");
        let e = self.expr(110);
        n.put("expr", e);
        let k = self.key("PERCENT");
        n.put("percent", k);
        let r = self.sym(")");
        n.put("rparen", r);
        n
    }
    fn pivot_config(&mut self) -> M {
        let mut n = self.t("(", "PivotConfig");
        let v = self.list(1, &mut |g| {
            let mut e = g.call();
            if g.maybe() {
                if g.coin() {
                    let k = g.key("AS");
                    e.put("as", k);
                }
                let a = g.ident();
                e.put("alias", a);
            }
            e
        });
        n.puts("exprs", v);
        let mut f = self.kw("FOR", "KeywordWithExpr");
        let i = self.ident();
        f.put("expr", i);
        n.put("for", f);
        let mut k = self.kw("IN", "KeywordWithGroupedXXX");
        let g = self.grouped_exprs(1, true);
        k.put("group", g);
        n.put("in", k);
        let r = self.sym(")");
        n.put("rparen", r);
        n
    }
    fn unpivot_config(&mut self) -> M {
        let mut n = self.t("(", "UnpivotConfig");
        let multi = self.coin();
        let e = if multi {
            self.grouped_exprs(1, false)
        } else {
            self.ident()
        };
        n.put("expr", e);
        let mut f = self.kw("FOR", "KeywordWithExpr");
        let i = self.ident();
        f.put("expr", i);
        n.put("for", f);
        let mut k = self.kw("IN", "KeywordWithGroupedXXX");
        let mut g = self.t("(", "GroupedExprs");
        let v = self.list(1, &mut |g| {
            let mut e = if multi { g.grouped_exprs(1, false) } else { g.ident() };
            if g.maybe() {
                if g.coin() {
                    let k = g.key("AS");
                    e.put("as", k);
                }
                let a = if g.coin() { g.string() } else { g.num() };
                e.put("row_value_alias", a);
            }
            e
        });
        g.puts("exprs", v);
        let r = self.sym(")");
        g.put("rparen", r);
        k.put("group", g);
        n.put("in", k);
        let r = self.sym(")");
        n.put("rparen", r);
        n
    }
    fn match_recognize(&mut self, ty: &'static str) -> M {
        let mut n = self.kw("MATCH_RECOGNIZE", ty);
        let mut c = self.t("(", "MatchRecognizeConfig");
        if self.maybe() {
            let p = self.xxxby("PARTITION");
            c.put("partitionby", p);
        }
        if self.maybe() {
            let o = self.orderby();
            c.put("orderby", o);
        }
        if self.maybe() {
            let mut m = self.kw("MEASURES", "KeywordWithExprs");
            let v = self.list(1, &mut |g| {
                let mut e = g.expr(MAX);
                if g.coin() {
                    let k = g.key("AS");
                    e.put("as", k);
                }
                let a = g.ident();
                e.put("alias", a);
                e
            });
            m.puts("exprs", v);
            c.put("measures", m);
        }
        if self.maybe() {
            let words: &[&str] = if self.coin() {
                &["AFTER", "MATCH", "SKIP", "PAST", "LAST", "ROW"]
            } else {
                &["AFTER", "MATCH", "SKIP", "TO", "NEXT", "ROW"]
            };
            let mut v: Vec<M> = words.iter().map(|w| self.kw(w, "KeywordSequence")).collect();
            let mut last = v.pop().unwrap();
            while let Some(mut k) = v.pop() {
                k.put("next_keyword", last);
                last = k;
            }
            c.put("skip_rule", last);
        }
        if self.opt(2, 3) {
            let mut p = self.kw("PATTERN", "PatternClause");
            let mut g = self.grouped_pattern();
            self.suffixes(&mut g);
            p.put("pattern", g);
            c.put("pattern", p);
        }
        if self.maybe() {
            let mut d = self.kw("DEFINE", "KeywordWithExprs");
            let v = self.list(1, &mut |g| {
                let mut i = g.ident();
                let k = g.key("AS");
                i.put("as", k);
                let e = g.expr(MAX);
                i.put("alias", e);
                i
            });
            d.puts("exprs", v);
            c.put("define", d);
        }
        if self.rare() {
            let o = self.options();
            c.put("options", o);
        }
        let r = self.sym(")");
        c.put("rparen", r);
        n.put("config", c);
        self.trailing_alias(&mut n, 3);
        n
    }
    fn grouped_pattern(&mut self) -> M {
        self.depth += 1;
        let mut n = self.t("(", "GroupedPattern");
        let run = |g: &mut G, lo: u32| -> Vec<M> {
            (0..g.count(lo)).map(|_| g.pattern()).collect()
        };
        let mut v = run(self, 1);
        if self.maybe() {
            for _ in 0..self.s.range(1, 3) {
                let mut o = self.t("|", "OrPattern");
                o.puts("left", v);
                let r = run(self, 0);
                o.puts("right", r);
                v = vec![o];
            }
        }
        n.puts("patterns", v);
        let r = self.sym(")");
        n.put("rparen", r);
        self.depth -= 1;
        n
    }
    fn pattern(&mut self) -> M {
        let mut p = if self.opt(1, 5) {
            self.grouped_pattern()
        } else if self.opt(1, 10) {
            let c = *self.s.of(&["^", "$"]);
            self.t(c, "Pattern")
        } else {
            let n = self.name();
            self.t(&n, "Pattern")
        };
        self.suffixes(&mut p);
        p
    }
    fn suffixes(&mut self, p: &mut M) {
        let mut v = vec![];
        for _ in 0..self.reps(&[4, 2, 1]) {
            if self.s.chance(1, 3) {
                let mut q = self.t("{", "PatternQuantifier");
                let style = self.s.below(4);
                let num = |g: &mut G, glue: bool| {
                    let l = if g.s.chance(1, 4) { format!("@{}", g.s.of(&["p", "q1"])) } else { g.s.below(20).to_string() };
                    let i = g.emit(&l, false);
                    g.toks[i].glue = glue;
                    M { tok: Some(i), ty: "NumericLiteral", kids: vec![] }
                };
                if style != 2 {
                    let m = num(self, true);
                    q.put("min", m);
                }
                if style != 0 {
                    let c = self.emit(",", false);
                    self.toks[c].glue = style == 2;
                    q.put("comma", M { tok: Some(c), ty: "Symbol", kids: vec![] });
                    if style != 3 {
                        let m = num(self, false);
                        q.put("max", m);
                    }
                }
                let r = self.sym("}");
                q.put("rbrace", r);
                v.push(q);
            } else {
                let c = *self.s.of(&["?", "+", "*"]);
                let s = self.sym(c);
                v.push(s);
            }
        }
        p.puts("suffixes", v);
    }
    // ----- pipe syntax -----
    pub fn pipe(&mut self, left: M) -> M {
        let mut p = self.t("|>", "PipeStatement");
        p.put("left", left);
        let mut more = false;
        let op = match if self.low() { 0 } else { self.s.pick(&[3, 3, 2, 2, 2, 1, 2, 3, 4, 2, 3, 3, 3, 1, 1, 1, 1, 1, 1]) } {
            0 => self.base("WHERE", &mut |g| vec![g.expr(MAX)]),
            1 => self.base("EXTEND", &mut |g| {
                let mut v = g.list(1, &mut |g| g.expr_alias(MAX, true, 2));
                g.trailing_comma(&mut v);
                v
            }),
            2 => self.base("SET", &mut |g| {
                g.list(1, &mut |g| {
                    let l = g.ident();
                    let mut e = g.t("=", "BinaryOperator");
                    e.put("left", l);
                    let r = g.expr(109);
                    e.put("right", r);
                    e
                })
            }),
            3 => self.base("DROP", &mut |g| g.list(1, &mut |g| g.ident())),
            4 => self.base("RENAME", &mut |g| {
                g.list(1, &mut |g| {
                    let mut e = g.ident();
                    if g.coin() {
                        let k = g.key("AS");
                        e.put("as", k);
                    }
                    let a = g.ident();
                    e.put("alias", a);
                    e
                })
            }),
            5 => self.base("AS", &mut |g| vec![g.ident()]),
            6 => {
                let mut o = self.kw("CALL", "BasePipeOperator");
                let f = self.path_expr();
                let mut n = self.t("(", "CallingFunction");
                n.put("func", f);
                let v = self.list(0, &mut |g| g.expr(200));
                if !v.is_empty() {
                    n.puts("args", v);
                }
                let r = self.sym(")");
                n.put("rparen", r);
                self.trailing_alias(&mut n, 3);
                o.puts("exprs", vec![n]);
                o
            }
            7 => {
                let mut o = self.kw("ORDER", "BasePipeOperator");
                let k = self.key("BY");
                o.put("keywords", k);
                let v = self.list(1, &mut |g| g.sort_key());
                o.puts("exprs", v);
                o
            }
            8 => {
                let mut o = self.kw("SELECT", "SelectPipeOperator");
                let mut ks = vec![];
                if self.maybe() {
                    let w = *self.s.of(&["ALL", "DISTINCT"]);
                    ks.push(w);
                }
                if self.rare() {
                    ks.push("AS");
                    ks.push(*self.s.of(&["STRUCT", "VALUE"]));
                }
                let mut v = self.keys(&ks);
                if let Some(mut last) = v.pop() {
                    while let Some(mut k) = v.pop() {
                        k.ty = "KeywordSequence";
                        k.put("next_keyword", last);
                        last = k;
                    }
                    o.put("keywords", last);
                }
                let mut v = self.list(1, &mut |g| g.select_item());
                self.trailing_comma(&mut v);
                o.puts("exprs", v);
                if self.rare() {
                    let w = self.window_clause();
                    o.put("window", w);
                }
                o
            }
            9 => {
                let mut o = self.kw("LIMIT", "LimitPipeOperator");
                let e = self.expr(MAX);
                o.puts("exprs", vec![e]);
                if self.maybe() {
                    let e = self.kw_expr("OFFSET");
                    o.put("offset", e);
                }
                o
            }
            10 => {
                let mut o = self.kw("AGGREGATE", "AggregatePipeOperator");
                let mut v = self.list(1, &mut |g| {
                    let mut e = if g.coin() { g.call() } else { g.expr(MAX) };
                    if g.maybe() {
                        if g.coin() {
                            let k = g.key("AS");
                            e.put("as", k);
                        }
                        let a = g.ident();
                        e.put("alias", a);
                    }
                    e
                });
                self.trailing_comma(&mut v);
                o.puts("exprs", v);
                if self.maybe() {
                    let g = self.groupby(true);
                    o.put("groupby", g);
                }
                o
            }
            11 => {
                let (_, mut o) = self.set_op("UnionPipeOperator", "keywords");
                let v = self.list(1, &mut |g| g.subquery());
                o.puts("exprs", v);
                o
            }
            12 => {
                let m = match self.s.pick(&[4, 1, 1, 1, 1, 1, 1, 1, 1]) {
                    0 => None,
                    1 => Some(self.key("INNER")),
                    2 => Some(self.key("FULL")),
                    3 => Some(self.key("LEFT")),
                    4 => Some(self.key("RIGHT")),
                    5 => Some(self.key("CROSS")),
                    6 => Some(self.seq2("FULL", "OUTER")),
                    7 => Some(self.seq2("LEFT", "OUTER")),
                    _ => Some(self.seq2("RIGHT", "OUTER")),
                };
                let mut o = self.kw("JOIN", "JoinPipeOperator");
                o.opt("method", m);
                let t = self.table();
                o.puts("exprs", vec![t]);
                self.join_condition(&mut o);
                o
            }
            13 => {
                let mut o = self.kw("TABLESAMPLE", "TableSamplePipeOperator");
                let k = self.key("SYSTEM");
                o.put("keywords", k);
                let r = self.sample_ratio();
                o.put("group", r);
                o
            }
            14 => {
                let mut o = self.kw("PIVOT", "PivotPipeOperator");
                let c = self.pivot_config();
                o.put("config", c);
                self.trailing_alias(&mut o, 3);
                o
            }
            15 => {
                let mut o = self.kw("UNPIVOT", "UnpivotPipeOperator");
                if self.coin() {
                    let w = *self.s.of(&["INCLUDE", "EXCLUDE"]);
                    let k = self.seq2(w, "NULLS");
                    o.put("keywords", k);
                }
                let c = self.unpivot_config();
                o.put("config", c);
                self.trailing_alias(&mut o, 3);
                o
            }
            16 => {
                more = true;
                self.with_clause("WithPipeOperator")
            }
            17 => self.match_recognize("MatchRecognizePipeOperator"),
            _ => self.key("DISTINCT"),
        };
        p.put("right", op);
        if more {
            return self.pipe(p);
        }
        p
    }
    fn base(&mut self, kw: &str, f: &mut dyn FnMut(&mut G) -> Vec<M>) -> M {
        let mut o = self.kw(kw, "BasePipeOperator");
        let v = f(self);
        o.puts("exprs", v);
        o
    }
}

/// `( ( query ) )` is a query in two pairs of parentheses, not a table in parentheses
fn grouped_reads_as_query(n: &M) -> bool {
    match n.kids.iter().find(|(k, _)| *k == "expr") {
        Some((_, MKid::One(e))) if e.ty == "GroupedStatement" => {
            e.kids.iter().all(|(k, _)| matches!(*k, "stmt" | "rparen" | "orderby" | "limit" | "with"))
        }
        _ => false,
    }
}

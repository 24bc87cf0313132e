//! DML, DDL, DCL and the other statements that are not control flow. Every function returns the
//! statement without its final semicolon.
use super::*;

impl G {
    fn if_exists(&mut self, n: &mut M) {
        if self.opt(1, 4) {
            let k = self.keys(&["IF", "EXISTS"]);
            n.puts("if_exists", k);
        }
    }
    fn if_not_exists(&mut self, n: &mut M) {
        if self.opt(1, 4) {
            let k = self.keys(&["IF", "NOT", "EXISTS"]);
            n.puts("if_not_exists", k);
        }
    }
    fn or_replace(&mut self, n: &mut M) {
        if self.opt(1, 4) {
            let k = self.keys(&["OR", "REPLACE"]);
            n.puts("or_replace", k);
        }
    }
    fn opt_options(&mut self, n: &mut M) {
        if self.opt(1, 3) {
            let o = self.options();
            n.put("options", o);
        }
    }
    fn put_key(&mut self, n: &mut M, key: &'static str, w: &str) {
        let k = self.key(w);
        n.put(key, k);
    }
    fn with_connection(&mut self) -> M {
        let mut w = self.kw("WITH", "KeywordSequence");
        let mut c = self.kw("CONNECTION", "KeywordWithExpr");
        let e = if self.coin() { self.key("DEFAULT") } else { self.ident_path() };
        c.put("expr", e);
        w.put("next_keyword", c);
        w
    }
    fn default_collate(&mut self) -> M {
        let mut d = self.kw("DEFAULT", "KeywordSequence");
        let mut c = self.kw("COLLATE", "KeywordWithExpr");
        let s = self.string();
        c.put("expr", s);
        d.put("next_keyword", c);
        d
    }
    /// a , b , c in parentheses as names
    fn name_group(&mut self) -> M {
        let mut n = self.t("(", "GroupedExprs");
        let v = self.list(1, &mut |g| g.ident());
        n.puts("exprs", v);
        let r = self.sym(")");
        n.put("rparen", r);
        n
    }
    // ----- DML -----
    pub fn insert(&mut self, target: bool) -> M {
        let mut n = self.kw("INSERT", "InsertStatement");
        if target {
            if self.coin() {
                self.put_key(&mut n, "into", "INTO");
            }
            let p = self.ident_path();
            n.put("target_name", p);
        }
        if self.opt(1, 2) {
            let g = self.name_group();
            n.put("columns", g);
        }
        match if target { self.s.pick(&[3, 3]) } else { self.s.pick(&[3, 0, 1]) } {
            0 => {
                let mut k = self.kw("VALUES", "KeywordWithExprs");
                let v = self.list(1, &mut |g| {
                    let mut n = g.t("(", "GroupedExprs");
                    let v = g.list(1, &mut |g| if g.rare() { g.kw("DEFAULT", "Keyword") } else { g.expr(200) });
                    n.puts("exprs", v);
                    let r = g.sym(")");
                    n.put("rparen", r);
                    n
                });
                k.puts("exprs", v);
                n.put("input", k);
            }
            1 => {
                let q = self.query(false);
                n.put("input", q);
            }
            _ => self.put_key(&mut n, "input", "ROW"),
        }
        n
    }
    pub fn delete(&mut self) -> M {
        let mut n = self.kw("DELETE", "DeleteStatement");
        if self.coin() {
            self.put_key(&mut n, "from", "FROM");
        }
        let mut p = self.ident_path();
        self.trailing_alias(&mut p, 3);
        n.put("table_name", p);
        let w = self.kw_expr("WHERE");
        n.put("where", w);
        n
    }
    pub fn truncate(&mut self) -> M {
        let mut n = self.kw("TRUNCATE", "TruncateStatement");
        self.put_key(&mut n, "table", "TABLE");
        let p = self.ident_path();
        n.put("table_name", p);
        n
    }
    pub fn update(&mut self, target: bool) -> M {
        let mut n = self.kw("UPDATE", "UpdateStatement");
        if target {
            let mut p = self.table_path();
            self.trailing_alias(&mut p, 3);
            n.put("table_name", p);
        }
        let mut s = self.kw("SET", "KeywordWithExprs");
        let v = self.list(1, &mut |g| {
            let l = g.path_expr();
            let mut e = g.t("=", "BinaryOperator");
            e.put("left", l);
            let r = if g.rare() { g.kw("DEFAULT", "Keyword") } else { g.expr(109) };
            e.put("right", r);
            e
        });
        s.puts("exprs", v);
        n.put("set", s);
        if target {
            if self.maybe() {
                let mut f = self.kw("FROM", "KeywordWithExpr");
                let t = self.from_item(true);
                f.put("expr", t);
                n.put("from", f);
            }
            if self.opt(2, 3) {
                let w = self.kw_expr("WHERE");
                n.put("where", w);
            }
        }
        n
    }
    pub fn merge(&mut self) -> M {
        let mut n = self.kw("MERGE", "MergeStatement");
        if self.coin() {
            self.put_key(&mut n, "into", "INTO");
        }
        let mut p = self.table_path();
        self.trailing_alias(&mut p, 2);
        n.put("table_name", p);
        let mut u = self.kw("USING", "KeywordWithExpr");
        let s = self.from_item(false);
        u.put("expr", s);
        n.put("using", u);
        let o = self.kw_expr("ON");
        n.put("on", o);
        let mut whens = vec![];
        for _ in 0..self.count(1) {
            let mut w = self.kw("WHEN", "WhenClause");
            let not = self.coin();
            if not {
                self.put_key(&mut w, "not", "NOT");
            }
            self.put_key(&mut w, "matched", "MATCHED");
            let mut source = false;
            if not && self.coin() {
                source = self.coin();
                let k = self.keys(&["BY", if source { "SOURCE" } else { "TARGET" }]);
                w.puts("by_target_or_source", k);
            }
            if self.maybe() {
                let a = self.kw_expr("AND");
                w.put("and", a);
            }
            let mut t = self.kw("THEN", "KeywordWithStatement");
            let s = if not && !source {
                self.insert(false)
            } else if self.coin() {
                self.update(false)
            } else {
                self.kw("DELETE", "SingleTokenStatement")
            };
            t.put("stmt", s);
            w.put("then", t);
            whens.push(w);
        }
        n.puts("whens", whens);
        n
    }
    // ----- CREATE -----
    pub fn create_schema(&mut self) -> M {
        let mut n = self.kw("CREATE", "CreateSchemaStatement");
        let ext = self.opt(1, 4);
        if ext {
            self.put_key(&mut n, "external", "EXTERNAL");
        }
        self.put_key(&mut n, "what", "SCHEMA");
        self.if_not_exists(&mut n);
        let p = self.ident_path();
        n.put("ident", p);
        if self.rare() {
            let d = self.default_collate();
            n.put("default_collate", d);
        }
        if ext && self.maybe() {
            let w = self.with_connection();
            n.put("with_connection", w);
        }
        self.opt_options(&mut n);
        n
    }
    pub fn create_index(&mut self) -> M {
        let mut n = self.kw("CREATE", "CreateIndexStatement");
        self.or_replace(&mut n);
        let w = *self.s.of(&["SEARCH", "VECTOR"]);
        let k = self.seq2(w, "INDEX");
        n.put("what", k);
        self.if_not_exists(&mut n);
        let p = self.ident_path();
        n.put("ident", p);
        self.put_key(&mut n, "on", "ON");
        let p = self.ident_path();
        n.put("tablename", p);
        if self.maybe() {
            let mut g = self.t("(", "GroupedExpr");
            let k = self.seq2("ALL", "COLUMNS");
            g.put("expr", k);
            let r = self.sym(")");
            g.put("rparen", r);
            n.put("column_group", g);
        } else {
            let g = self.name_group();
            n.put("column_group", g);
        }
        if self.maybe() {
            let mut k = self.kw("STORING", "KeywordWithGroupedXXX");
            let g = self.name_group();
            k.put("group", g);
            n.put("storing", k);
        }
        if self.rare() {
            let p = self.xxxby("PARTITION");
            n.put("partitionby", p);
        }
        self.opt_options(&mut n);
        n
    }
    pub fn constraint(&mut self) -> M {
        let mut head = None;
        let mut exists = None;
        let mut ident = None;
        if self.maybe() {
            head = Some(self.key("CONSTRAINT"));
            if self.maybe() {
                exists = Some(self.keys(&["IF", "NOT", "EXISTS"]));
            }
            let p = self.ident_path();
            ident = Some(p);
        }
        let primary = self.coin();
        let mut n = self.kw(if primary { "PRIMARY" } else { "FOREIGN" }, "Constraint");
        n.opt("constraint", head);
        if let Some(e) = exists {
            n.puts("if_not_exists", e);
        }
        n.opt("ident", ident);
        self.put_key(&mut n, "key", "KEY");
        let g = self.name_group();
        n.put("columns", g);
        if !primary {
            let r = self.references();
            n.put("references", r);
        }
        if self.coin() {
            let e = self.enforced();
            n.put("enforced", e);
        }
        n
    }
    pub fn column_def(&mut self, schema: bool) -> M {
        let name = self.name();
        let mut d = self.t(&name, "TypeDeclaration");
        let t = self.ty(schema, true);
        d.put("type", t);
        d
    }
    fn column_group(&mut self, schema: bool) -> M {
        let mut g = self.t("(", "GroupedTypeDeclarationOrConstraints");
        let v = self.list(1, &mut |g| if schema && g.opt(1, 8) { g.constraint() } else { g.column_def(schema) });
        g.puts("declarations", v);
        let r = self.sym(")");
        g.put("rparen", r);
        g
    }
    pub fn create_table(&mut self) -> M {
        let mut n = self.kw("CREATE", "CreateTableStatement");
        self.or_replace(&mut n);
        let kind = self.s.pick(&[6, 2, 2]);
        if kind == 0 && self.opt(1, 4) {
            let w = *self.s.of(&["TEMP", "TEMPORARY"]);
            self.put_key(&mut n, "temp", w);
        }
        if kind == 1 {
            self.put_key(&mut n, "external", "EXTERNAL");
        }
        if kind == 2 {
            self.put_key(&mut n, "snapshot", "SNAPSHOT");
        }
        self.put_key(&mut n, "what", "TABLE");
        self.if_not_exists(&mut n);
        let p = self.ident_path();
        n.put("ident", p);
        if kind == 0 && self.rare() {
            let w = *self.s.of(&["LIKE", "COPY"]);
            self.put_key(&mut n, "like_or_copy", w);
            let p = self.ident_path();
            n.put("source_table", p);
        }
        if kind != 2 && self.opt(2, 3) {
            let g = self.column_group(true);
            n.put("column_schema_group", g);
        }
        if kind == 0 {
            if self.rare() {
                let d = self.default_collate();
                n.put("default_collate", d);
            }
            if self.opt(1, 4) {
                let p = self.xxxby("PARTITION");
                n.put("partitionby", p);
            }
            if self.opt(1, 4) {
                let p = self.xxxby("CLUSTER");
                n.put("clusterby", p);
            }
        }
        if kind == 1 {
            if self.maybe() {
                let w = self.with_connection();
                n.put("with_connection", w);
            }
            if self.maybe() {
                let mut w = self.kw("WITH", "WithPartitionColumnsClause");
                let k = self.keys(&["PARTITION", "COLUMNS"]);
                w.puts("partition_columns", k);
                if self.coin() {
                    let g = self.column_group(false);
                    w.put("column_schema_group", g);
                }
                n.put("with_partition_columns", w);
            }
        }
        if kind == 2 || kind == 0 && self.rare() {
            let mut c = self.kw("CLONE", "KeywordWithExpr");
            let mut t = self.table_path();
            if self.coin() {
                let mut f = self.kw("FOR", "ForSystemTimeAsOfClause");
                let k = self.keys(&["SYSTEM_TIME", "AS", "OF"]);
                f.puts("system_time_as_of", k);
                let e = self.expr(110);
                f.put("expr", e);
                t.put("for_system_time_as_of", f);
            }
            c.put("expr", t);
            n.put("clone", c);
        }
        self.opt_options(&mut n);
        let clone = n.kids.iter().any(|(k, _)| *k == "clone");
        if kind == 0 && !clone && self.maybe() {
            let mut a = self.kw("AS", "KeywordWithStatement");
            let q = self.query(false);
            a.put("stmt", q);
            n.put("as", a);
        }
        n
    }
    pub fn create_view(&mut self) -> M {
        let mut n = self.kw("CREATE", "CreateViewStatement");
        self.or_replace(&mut n);
        let mat = self.maybe();
        if mat {
            self.put_key(&mut n, "materialized", "MATERIALIZED");
        }
        self.put_key(&mut n, "what", "VIEW");
        self.if_not_exists(&mut n);
        let p = self.ident_path();
        n.put("ident", p);
        if !mat && self.maybe() {
            let mut g = self.t("(", "GroupedIdentWithOptions");
            let mut v = self.list(1, &mut |g| {
                let mut i = g.var().retype("IdentWithOptions");
                if g.maybe() {
                    let o = g.options();
                    i.put("options", o);
                }
                i
            });
            if self.rare() {
                let c = self.sym(",");
                v.last_mut().unwrap().put("comma", c);
            }
            g.puts("idents", v);
            let r = self.sym(")");
            g.put("rparen", r);
            n.put("column_name_list", g);
        }
        if mat {
            if self.maybe() {
                let p = self.xxxby("PARTITION");
                n.put("partitionby", p);
            }
            if self.maybe() {
                let p = self.xxxby("CLUSTER");
                n.put("clusterby", p);
            }
        }
        self.opt_options(&mut n);
        if mat && self.rare() {
            let mut a = self.kw("AS", "KeywordSequence");
            let mut r = self.kw("REPLICA", "KeywordSequence");
            let mut o = self.kw("OF", "KeywordWithExpr");
            let p = self.ident_path();
            o.put("expr", p);
            r.put("next_keyword", o);
            a.put("next_keyword", r);
            n.put("as", a);
        } else {
            let a = self.as_query();
            n.put("as", a);
        }
        n
    }
    fn as_query(&mut self) -> M {
        let mut a = self.kw("AS", "KeywordWithStatement");
        let q = self.query(false);
        a.put("stmt", q);
        a
    }
    /// a variable or any other single name that is read as a path
    pub fn var(&mut self) -> M {
        let i = self.ident();
        self.sticky = true;
        i
    }
    fn connection(&mut self) -> M {
        let mut w = self.kw("WITH", "KeywordSequence");
        let mut c = self.kw("CONNECTION", "KeywordWithExpr");
        let p = self.ident_path();
        c.put("expr", p);
        w.put("next_keyword", c);
        w
    }
    fn language(&mut self, l: &str) -> M {
        let mut k = self.kw("LANGUAGE", "KeywordWithExpr");
        let i = self.t(l, "Identifier");
        k.put("expr", i);
        k
    }
    pub fn create_function(&mut self) -> M {
        let mut n = self.kw("CREATE", "CreateFunctionStatement");
        self.or_replace(&mut n);
        let kind = self.s.pick(&[4, 3, 2, 2]); // sql, js, remote, table
        if kind != 3 && self.maybe() {
            let w = *self.s.of(&["TEMP", "TEMPORARY"]);
            self.put_key(&mut n, "temp", w);
        }
        if kind == 3 {
            self.put_key(&mut n, "table", "TABLE");
        } else if self.opt(1, 5) {
            self.put_key(&mut n, "aggregate", "AGGREGATE");
        }
        self.put_key(&mut n, "what", "FUNCTION");
        self.if_not_exists(&mut n);
        let p = self.ident_path();
        n.put("ident", p);
        let mut g = self.t("(", "GroupedTypeDeclarationOrConstraints");
        let v = self.list(0, &mut |g| {
            let name = g.name();
            let mut d = g.t(&name, "TypeDeclaration");
            let mut t = if g.opt(1, 5) {
                let mut t = g.kw("ANY", "Type");
                let k = g.key("TYPE");
                t.put("type", k);
                t
            } else {
                g.ty(false, false)
            };
            if g.opt(1, 8) {
                let k = g.seq2("NOT", "AGGREGATE");
                t.put("aggregate", k);
            }
            d.put("type", t);
            d
        });
        if !v.is_empty() {
            g.puts("declarations", v);
        }
        let r = self.sym(")");
        g.put("rparen", r);
        n.put("group", g);
        if kind == 1 || kind == 2 || self.maybe() {
            let mut k = self.kw("RETURNS", "KeywordWithType");
            let t = if kind == 3 && !self.low() { self.fields_ty("TABLE", false) } else { self.ty(false, false) };
            k.put("type", t);
            n.put("returns", k);
        }
        match kind {
            0 => {
                let mut a = self.kw("AS", "KeywordWithGroupedXXX");
                let mut g = self.t("(", "GroupedExpr");
                let e = self.expr(MAX);
                g.put("expr", e);
                let r = self.sym(")");
                g.put("rparen", r);
                a.put("group", g);
                n.put("as", a);
                self.opt_options(&mut n);
            }
            1 => {
                if self.maybe() {
                    let k = if self.coin() { self.keys(&["DETERMINISTIC"]) } else { self.keys(&["NOT", "DETERMINISTIC"]) };
                    n.puts("determinism", k);
                }
                let l = *self.s.of(&["js", "python"]);
                let l = self.language(l);
                n.put("language", l);
                if self.opt(1, 5) {
                    let c = self.connection();
                    n.put("connection", c);
                }
                self.opt_options(&mut n);
                let mut a = self.kw("AS", "KeywordWithExpr");
                let e = if self.maybe() {
                    let mut r = self.kw("r", "UnaryOperator");
                    let s = self.string();
                    r.put("right", s);
                    r
                } else {
                    self.string()
                };
                a.put("expr", e);
                n.put("as", a);
            }
            2 => {
                self.put_key(&mut n, "remote", "REMOTE");
                let c = self.connection();
                n.put("connection", c);
                self.opt_options(&mut n);
            }
            _ => {
                self.opt_options(&mut n);
                let a = self.as_query();
                n.put("as", a);
            }
        }
        n
    }
    pub fn create_procedure(&mut self) -> M {
        let mut n = self.kw("CREATE", "CreateProcedureStatement");
        self.or_replace(&mut n);
        self.put_key(&mut n, "what", "PROCEDURE");
        self.if_not_exists(&mut n);
        let p = self.ident_path();
        n.put("ident", p);
        let mut g = self.t("(", "GroupedTypeDeclarationOrConstraints");
        let v = self.list(0, &mut |g| {
            let io = if g.maybe() {
                let w = *g.s.of(&["IN", "OUT", "INOUT"]);
                Some(g.key(w))
            } else {
                None
            };
            let name = g.name();
            let mut d = g.t(&name, "TypeDeclaration");
            d.opt("in_out", io);
            let t = g.ty(false, false);
            d.put("type", t);
            d
        });
        if !v.is_empty() {
            g.puts("declarations", v);
        }
        let r = self.sym(")");
        g.put("rparen", r);
        n.put("group", g);
        if self.rare() {
            let mut e = self.kw("EXTERNAL", "KeywordSequence");
            let k = self.seq2("SECURITY", "INVOKER");
            e.put("next_keyword", k);
            n.put("external", e);
        }
        let py = self.opt(1, 4);
        if py && self.coin() {
            let w = self.with_connection();
            n.put("with_connection", w);
        }
        self.opt_options(&mut n);
        if py {
            let l = self.language("PYTHON");
            n.put("language", l);
            if self.coin() {
                let mut a = self.kw("AS", "KeywordWithExpr");
                let s = self.string();
                a.put("expr", s);
                n.put("as", a);
            }
        } else {
            let b = self.begin();
            n.put("stmt", b);
        }
        n
    }
    pub fn create_row_access_policy(&mut self) -> M {
        let mut n = self.kw("CREATE", "CreateRowAccessPolicyStatement");
        self.or_replace(&mut n);
        let k = self.keys(&["ROW", "ACCESS", "POLICY"]);
        n.puts("what", k);
        self.if_not_exists(&mut n);
        let p = self.ident_path();
        n.put("ident", p);
        let o = self.kw_path("ON");
        n.put("on", o);
        if self.coin() {
            self.put_key(&mut n, "grant", "GRANT");
            let mut t = self.kw("TO", "KeywordWithGroupedXXX");
            let mut g = self.t("(", "GroupedExprs");
            let v = self.list(1, &mut |g| g.string());
            g.puts("exprs", v);
            let r = self.sym(")");
            g.put("rparen", r);
            t.put("group", g);
            n.put("to", t);
        }
        self.put_key(&mut n, "filter", "FILTER");
        let mut u = self.kw("USING", "KeywordWithExpr");
        let mut g = self.t("(", "GroupedExpr");
        let e = self.expr(MAX);
        g.put("expr", e);
        let r = self.sym(")");
        g.put("rparen", r);
        u.put("expr", g);
        n.put("using", u);
        n
    }
    fn kw_path(&mut self, kw: &str) -> M {
        let mut o = self.kw(kw, "KeywordWithExpr");
        let p = self.ident_path();
        o.put("expr", p);
        o
    }
    pub fn create_model(&mut self) -> M {
        let mut n = self.kw("CREATE", "CreateModelStatement");
        self.or_replace(&mut n);
        self.put_key(&mut n, "what", "MODEL");
        self.if_not_exists(&mut n);
        let p = self.ident_path();
        n.put("ident", p);
        if self.opt(1, 4) {
            let mut k = self.kw("TRANSFORM", "KeywordWithGroupedXXX");
            let g = self.grouped_exprs(1, true);
            k.put("group", g);
            n.put("transform", k);
        }
        for (key, w) in [("input", "INPUT"), ("output", "OUTPUT")] {
            if self.opt(1, 5) {
                let mut k = self.kw(w, "KeywordWithGroupedXXX");
                let g = self.column_group(false);
                k.put("group", g);
                n.put(key, k);
            }
        }
        if self.opt(1, 5) {
            let mut r = self.kw("REMOTE", "KeywordSequence");
            let w = self.with_connection();
            r.put("next_keyword", w);
            n.put("remote", r);
        }
        self.opt_options(&mut n);
        match self.s.pick(&[3, 3, 1]) {
            0 => (),
            1 => {
                let a = self.as_query();
                n.put("query", a);
            }
            _ => {
                let mut a = self.kw("AS", "KeywordWithGroupedXXX");
                let mut g = self.t("(", "TrainingDataCustomHolidayClause");
                let cte = |s: &mut G, name: &str, comma: bool| {
                    let mut q = s.kw(name, "WithQuery");
                    let k = s.key("AS");
                    q.put("as", k);
                    let st = s.grouped_query();
                    q.put("stmt", st);
                    if comma {
                        let c = s.sym(",");
                        q.put("comma", c);
                    }
                    q
                };
                let q = cte(self, "training_data", true);
                g.put("training_data", q);
                let q = cte(self, "custom_holiday", false);
                g.put("custom_holiday", q);
                let r = self.sym(")");
                g.put("rparen", r);
                a.put("group", g);
                n.put("training_data_custom_holiday", a);
            }
        }
        n
    }
    pub fn create_reservation(&mut self) -> M {
        let mut n = self.kw("CREATE", "CreateReservationStatement");
        let w = *self.s.of(&["CAPACITY", "RESERVATION", "ASSIGNMENT"]);
        self.put_key(&mut n, "what", w);
        let p = self.ident_path();
        n.put("ident", p);
        if self.coin() {
            self.put_key(&mut n, "as", "AS");
            self.put_key(&mut n, "json", "JSON");
            let s = self.string();
            n.put("json_string", s);
        } else {
            let o = self.options();
            n.put("options", o);
        }
        n
    }
    // ----- ALTER -----
    fn set_options(&mut self, n: &mut M) {
        self.put_key(n, "set", "SET");
        let o = self.options();
        n.put("options", o);
    }
    pub fn alter_schema(&mut self) -> M {
        let mut n = self.kw("ALTER", "AlterSchemaStatement");
        self.put_key(&mut n, "what", "SCHEMA");
        self.if_exists(&mut n);
        let p = self.ident_path();
        n.put("ident", p);
        match self.s.pick(&[3, 2, 1, 1]) {
            0 => self.set_options(&mut n),
            1 => {
                self.put_key(&mut n, "set", "SET");
                let d = self.default_collate();
                n.put("default_collate", d);
            }
            k => {
                let (key, w) = if k == 2 { ("add", "ADD") } else { ("drop", "DROP") };
                let mut a = self.kw(w, "KeywordSequence");
                let r = self.kw_path("REPLICA");
                a.put("next_keyword", r);
                n.put(key, a);
                self.opt_options(&mut n);
            }
        }
        n
    }
    pub fn alter_column(&mut self) -> M {
        let mut n = self.kw("ALTER", "AlterColumnStatement");
        self.put_key(&mut n, "what", "COLUMN");
        self.if_exists(&mut n);
        let i = self.ident();
        n.put("ident", i);
        match self.s.below(5) {
            0 => self.set_options(&mut n),
            1 => {
                self.put_key(&mut n, "set", "SET");
                let k = self.keys(&["DATA", "TYPE"]);
                n.puts("data_type", k);
                let t = self.ty(false, false);
                n.put("type", t);
            }
            2 => {
                self.put_key(&mut n, "set", "SET");
                let d = self.kw_expr("DEFAULT");
                n.put("default", d);
            }
            3 => {
                let k = self.keys(&["DROP", "DEFAULT"]);
                n.puts("drop_default", k);
            }
            _ => {
                let k = self.keys(&["DROP", "NOT", "NULL"]);
                n.puts("drop_not_null", k);
            }
        }
        n
    }
    pub fn alter_table(&mut self) -> M {
        let mut n = self.kw("ALTER", "AlterTableStatement");
        self.put_key(&mut n, "what", "TABLE");
        self.if_exists(&mut n);
        let p = self.ident_path();
        n.put("ident", p);
        match self.s.below(8) {
            0 => self.set_options(&mut n),
            1 => {
                self.put_key(&mut n, "set", "SET");
                let d = self.default_collate();
                n.put("default_collate", d);
            }
            2 => {
                let v = self.list(1, &mut |g| {
                    let mut c = g.kw("ADD", "AddColumnClause");
                    g.put_key(&mut c, "what", "COLUMN");
                    g.if_not_exists(&mut c);
                    let d = g.column_def(true);
                    c.put("type_declaration", d);
                    c
                });
                n.puts("add_columns", v);
            }
            3 => {
                let v = self.list(1, &mut |g| {
                    let mut c = g.kw("ADD", "AddConstraintClause");
                    let d = g.constraint();
                    c.put("what", d);
                    c
                });
                n.puts("add_constraints", v);
            }
            4 => {
                self.put_key(&mut n, "rename", "RENAME");
                let t = self.kw_path("TO");
                n.put("to", t);
            }
            5 => {
                let v = self.list(1, &mut |g| {
                    let mut c = g.kw("RENAME", "RenameColumnClause");
                    g.put_key(&mut c, "column", "COLUMN");
                    if g.opt(1, 4) {
                        let k = g.seq2("IF", "EXISTS");
                        c.put("if_exists", k);
                    }
                    let i = g.var();
                    c.put("ident", i);
                    let mut t = g.kw("TO", "KeywordWithExpr");
                    let i = g.var();
                    t.put("expr", i);
                    c.put("to", t);
                    c
                });
                n.puts("rename_columns", v);
            }
            6 => {
                let v = self.list(1, &mut |g| {
                    let mut c = g.kw("DROP", "AlterTableDropClause");
                    match g.s.below(3) {
                        0 => {
                            g.put_key(&mut c, "what", "COLUMN");
                            g.if_exists(&mut c);
                            let i = g.var();
                            c.put("ident", i);
                        }
                        1 => {
                            g.put_key(&mut c, "what", "CONSTRAINT");
                            g.if_exists(&mut c);
                            let i = g.var();
                            c.put("ident", i);
                        }
                        _ => {
                            let mut p = g.kw("PRIMARY", "KeywordWithExpr");
                            let k = g.key("KEY");
                            p.put("expr", k);
                            c.put("what", p);
                            g.if_exists(&mut c);
                        }
                    }
                    c
                });
                n.puts("drop_columns", v);
            }
            _ => {
                let a = self.alter_column();
                n.put("alter_column_stmt", a);
            }
        }
        n
    }
    pub fn alter_other(&mut self) -> M {
        match self.s.below(7) {
            0 => {
                let mut n = self.kw("ALTER", "AlterVectorIndexStatement");
                let k = self.seq2("VECTOR", "INDEX");
                n.put("what", k);
                self.if_exists(&mut n);
                let p = self.ident_path();
                n.put("ident", p);
                let o = self.kw_path("ON");
                n.put("on", o);
                self.put_key(&mut n, "operation", "REBUILD");
                n
            }
            1 => {
                let mut n = self.kw("ALTER", "AlterViewStatement");
                let m = self.maybe();
                if m {
                    self.put_key(&mut n, "materialized", "MATERIALIZED");
                }
                self.put_key(&mut n, "what", "VIEW");
                self.if_exists(&mut n);
                let p = self.ident_path();
                n.put("ident", p);
                if self.maybe() {
                    let a = self.alter_column();
                    n.put("alter_column_stmt", a);
                } else {
                    self.set_options(&mut n);
                }
                n
            }
            2 => {
                let mut n = self.kw("ALTER", "AlterOrganizationStatement");
                self.put_key(&mut n, "what", "ORGANIZATION");
                self.set_options(&mut n);
                n
            }
            3 => {
                let mut n = self.kw("ALTER", "AlterProjectStatement");
                self.put_key(&mut n, "what", "PROJECT");
                if self.coin() {
                    let p = self.ident_path();
                    n.put("ident", p);
                }
                self.set_options(&mut n);
                n
            }
            4 => {
                let mut n = self.kw("ALTER", "AlterBICapacityStatement");
                self.put_key(&mut n, "what", "BI_CAPACITY");
                let p = self.ident_path();
                n.put("ident", p);
                self.set_options(&mut n);
                n
            }
            5 => {
                let mut n = self.kw("ALTER", "AlterReservationStatement");
                let w = *self.s.of(&["CAPACITY", "RESERVATION"]);
                self.put_key(&mut n, "what", w);
                let p = self.ident_path();
                n.put("ident", p);
                self.set_options(&mut n);
                n
            }
            _ => {
                let mut n = self.kw("ALTER", "AlterModelStatement");
                self.put_key(&mut n, "what", "MODEL");
                self.if_exists(&mut n);
                let p = self.ident_path();
                n.put("ident", p);
                self.set_options(&mut n);
                n
            }
        }
    }
    // ----- DROP -----
    pub fn drop_policy(&mut self) -> M {
        let mut n = self.kw("DROP", "DropRowAccessPolicyStatement");
        if self.coin() {
            let k = self.keys(&["ROW", "ACCESS", "POLICY"]);
            n.puts("what", k);
            self.if_exists(&mut n);
            let p = self.ident_path();
            n.put("ident", p);
        } else {
            let k = self.keys(&["ALL", "ROW", "ACCESS", "POLICIES"]);
            n.puts("what", k);
        }
        let o = self.kw_path("ON");
        n.put("on", o);
        n
    }
    pub fn drop(&mut self) -> M {
        let mut n = self.kw("DROP", "DropStatement");
        let mut what = *self.s.of(&["TABLE", "SCHEMA", "VIEW", "FUNCTION", "PROCEDURE", "MODEL", "CAPACITY", "RESERVATION", "ASSIGNMENT", "SEARCH", "VECTOR", "EXTERNAL", "MATERIALIZED", "TVF"]);
        match what {
            "EXTERNAL" => {
                self.put_key(&mut n, "external", "EXTERNAL");
                what = *self.s.of(&["TABLE", "SCHEMA"]);
            }
            "MATERIALIZED" => {
                self.put_key(&mut n, "materialized", "MATERIALIZED");
                what = "VIEW";
            }
            "TVF" => {
                self.put_key(&mut n, "table", "TABLE");
                what = "FUNCTION";
            }
            _ => (),
        }
        if let "SEARCH" | "VECTOR" = what {
            let k = self.seq2(what, "INDEX");
            n.put("what", k);
        } else {
            self.put_key(&mut n, "what", what);
        }
        self.if_exists(&mut n);
        let p = self.ident_path();
        n.put("ident", p);
        if what == "SCHEMA" && self.maybe() {
            let w = *self.s.of(&["CASCADE", "RESTRICT"]);
            self.put_key(&mut n, "cascade_or_restrict", w);
        }
        if let "SEARCH" | "VECTOR" = what {
            let o = self.kw_path("ON");
            n.put("on", o);
        }
        n
    }
    pub fn undrop(&mut self) -> M {
        let mut n = self.kw("UNDROP", "UndropStatement");
        self.put_key(&mut n, "what", "SCHEMA");
        self.if_not_exists(&mut n);
        let p = self.ident_path();
        n.put("ident", p);
        n
    }
    // ----- DCL -----
    pub fn grant(&mut self) -> M {
        let revoke = self.coin();
        let mut n = if revoke { self.kw("REVOKE", "RevokeStatement") } else { self.kw("GRANT", "GrantStatement") };
        let v = self.list(1, &mut |g| {
            let q = g.quoted();
            g.t(&q, "Identifier")
        });
        n.puts("roles", v);
        self.put_key(&mut n, "on", "ON");
        let w = *self.s.of(&["SCHEMA", "TABLE", "VIEW"]);
        self.put_key(&mut n, "resource_type", w);
        let p = self.ident_path();
        n.put("ident", p);
        let mut k = self.kw(if revoke { "FROM" } else { "TO" }, "KeywordWithExprs");
        let v = self.list(1, &mut |g| g.string());
        k.puts("exprs", v);
        n.put(if revoke { "from" } else { "to" }, k);
        n
    }
    // ----- other -----
    pub fn call_stmt(&mut self) -> M {
        let mut n = self.kw("CALL", "CallStatement");
        let p = self.path_expr();
        let c = self.call_plain(p);
        n.put("procedure", c);
        n
    }
    pub fn assert_stmt(&mut self) -> M {
        let mut n = self.kw("ASSERT", "AssertStatement");
        let e = self.expr(MAX);
        n.put("expr", e);
        if self.coin() {
            self.put_key(&mut n, "as", "AS");
            let s = if self.coin() { self.string() } else { self.expr(MAX) };
            n.put("description", s);
        }
        n
    }
    pub fn export_data(&mut self) -> M {
        let mut n = self.kw("EXPORT", "ExportDataStatement");
        self.put_key(&mut n, "data", "DATA");
        if self.opt(1, 4) {
            let w = self.with_connection();
            n.put("with_connection", w);
        }
        let o = self.options();
        n.put("options", o);
        let a = self.as_query();
        n.put("as", a);
        n
    }
    pub fn export_model(&mut self) -> M {
        let mut n = self.kw("EXPORT", "ExportModelStatement");
        self.put_key(&mut n, "what", "MODEL");
        let p = self.ident_path();
        n.put("ident", p);
        self.opt_options(&mut n);
        n
    }
    pub fn load(&mut self) -> M {
        let mut n = self.kw("LOAD", "LoadStatement");
        self.put_key(&mut n, "data", "DATA");
        let over = self.coin();
        self.put_key(&mut n, "into", if over { "OVERWRITE" } else { "INTO" });
        let p = self.ident_path();
        n.put("ident", p);
        if self.opt(1, 4) {
            let o = if self.coin() { Some(self.key("OVERWRITE")) } else { None };
            let mut c = self.kw("PARTITIONS", "OverwritePartitionsClause");
            c.opt("overwrite", o);
            let mut g = self.t("(", "GroupedExpr");
            let e = self.expr(MAX);
            g.put("expr", e);
            let r = self.sym(")");
            g.put("rparen", r);
            c.put("grouped_expr", g);
            n.put("overwrite_partitions", c);
        }
        if self.maybe() {
            let g = self.column_group(false);
            n.put("column_group", g);
        }
        if self.opt(1, 4) {
            let p = self.xxxby("PARTITION");
            n.put("partitionby", p);
        }
        if self.opt(1, 4) {
            let p = self.xxxby("CLUSTER");
            n.put("clusterby", p);
        }
        self.opt_options(&mut n);
        self.put_key(&mut n, "from", "FROM");
        self.put_key(&mut n, "files", "FILES");
        let mut g = self.t("(", "GroupedExprs");
        let v = self.list(1, &mut |g| {
            let l = g.ident();
            let mut e = g.t("=", "BinaryOperator");
            e.put("left", l);
            let r = g.expr(109);
            e.put("right", r);
            e
        });
        g.puts("exprs", v);
        let r = self.sym(")");
        g.put("rparen", r);
        n.put("from_files", g);
        if self.opt(1, 4) {
            let mut w = self.kw("WITH", "WithPartitionColumnsClause");
            let k = self.keys(&["PARTITION", "COLUMNS"]);
            w.puts("partition_columns", k);
            if self.coin() {
                let g = self.column_group(false);
                w.put("column_schema_group", g);
            }
            n.put("with_partition_columns", w);
        }
        if self.opt(1, 4) {
            self.put_key(&mut n, "with", "WITH");
            self.put_key(&mut n, "connection", "CONNECTION");
            let p = self.ident_path();
            n.put("connection_name", p);
        }
        n
    }
    pub fn dml(&mut self) -> M {
        match self.s.below(5) {
            0 => self.insert(true),
            1 => self.delete(),
            2 => self.update(true),
            3 => self.merge(),
            _ => self.truncate(),
        }
    }
    pub fn ddl(&mut self) -> M {
        match self.s.pick(&[6, 2, 2, 3, 3, 3, 1, 2, 1, 2, 3, 2, 1, 1, 3, 1]) {
            0 => self.create_table(),
            1 => self.create_schema(),
            2 => self.create_index(),
            3 => self.create_view(),
            4 => self.create_function(),
            5 => self.create_procedure(),
            6 => self.create_row_access_policy(),
            7 => self.create_model(),
            8 => self.create_reservation(),
            9 => self.alter_schema(),
            10 => self.alter_table(),
            11 => self.alter_other(),
            12 => self.alter_column(),
            13 => self.drop_policy(),
            14 => self.drop(),
            _ => self.undrop(),
        }
    }
    pub fn misc(&mut self) -> M {
        match self.s.below(6) {
            0 => self.grant(),
            1 => self.call_stmt(),
            2 => self.assert_stmt(),
            3 => self.export_data(),
            4 => self.export_model(),
            _ => self.load(),
        }
    }
}

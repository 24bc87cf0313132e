//! Expressions and types. `lvl` is exclusive: every operator exposed by the expression binds
//! tighter than `lvl`.
//!
//!  101 call, subscript, field    102 unary + - ~    103 * / ||   104 + -   105 << >>   106 &
//!  107 ^   108 |   109 comparison, LIKE, IN, BETWEEN, IS   110 NOT   111 AND   112 OR   200 =>
use super::*;

pub const DATEPARTS: &[&str] = &["DAY", "HOUR", "MONTH", "YEAR", "SECOND", "WEEK", "QUARTER"];
const FUNCS: &[&str] = &["SUM", "COUNT", "MAX", "f", "my_func", "COALESCE", "ARRAY_AGG", "SAFE.DIVIDE", "NET.HOST", "ds.fn", "STRING_AGG", "LAG"];

#[derive(Clone, Copy, PartialEq)]
enum Post {
    /// can be followed by . [ (
    Any,
    /// only by [
    Sub,
}

/// ASC, DESC and NULLS FIRST hang on the last operand of an expression
fn last_operand(m: &mut M) -> &mut M {
    let key = match m.ty {
        "UnaryOperator" | "BinaryOperator" | "DotOperator" | "FunctionChain" | "IsDistinctFromOperator" => "right",
        "BetweenOperator" => "right_max",
        "InOperator" => match m.kids.iter().find(|(k, _)| *k == "right") {
            Some((_, MKid::One(r))) if r.ty == "CallingUnnest" => "right",
            _ => return m,
        },
        _ => return m,
    };
    let i = m.kids.iter().position(|(k, _)| *k == key).unwrap();
    match &mut m.kids[i].1 {
        MKid::One(r) => last_operand(r),
        _ => unreachable!(),
    }
}

impl G {
    pub fn expr(&mut self, lvl: u32) -> M {
        self.depth += 1;
        let m = self.expr_(lvl);
        self.depth -= 1;
        m
    }
    fn expr_(&mut self, lvl: u32) -> M {
        if self.drive > 0 && lvl > 102 {
            self.drive -= 1;
            return self.nest(lvl);
        }
        if self.low() || lvl <= 101 || self.full && self.s.chance(3, 4) {
            return self.atom_simple();
        }
        if lvl <= 102 {
            return self.primary();
        }
        match self.s.pick(&[10, 5, 8, 2]) {
            0 => self.atom_simple(),
            1 => self.primary(),
            2 => {
                let ops: Vec<u32> = (103..=112).filter(|p| *p < lvl && *p != 110).collect();
                if ops.is_empty() {
                    return self.primary();
                }
                let p = *self.s.of(&ops);
                self.binary(p)
            }
            _ => self.prefix(lvl),
        }
    }
    /// an expression that goes one level deeper
    fn nest(&mut self, lvl: u32) -> M {
        match self.s.below(11) {
            0 | 1 => {
                let mut n = self.t("(", "GroupedExpr");
                let e = self.expr(MAX);
                n.put("expr", e);
                let r = self.sym(")");
                n.put("rparen", r);
                n
            }
            2 => {
                let f = self.t("f", "Identifier");
                self.call_plain(f)
            }
            3 => self.case_expr(),
            4 => {
                let mut n = self.t("[", "ArrayLiteral");
                let v = self.list(1, &mut |g| g.expr(MAX));
                n.puts("exprs", v);
                let r = self.sym("]");
                n.put("rparen", r);
                n
            }
            5 => self.subquery(),
            6 if lvl > 110 => {
                let mut n = self.kw("NOT", "UnaryOperator");
                let r = self.expr(110);
                n.put("right", r);
                n
            }
            7 if lvl > 109 => {
                let left = self.atom_simple();
                let mut n = self.kw("IN", "InOperator");
                n.put("left", left);
                let r = self.grouped_exprs(1, false);
                n.put("right", r);
                n
            }
            8 | 9 => {
                // a chain of operators, all of one level
                let ops: Vec<u32> = (103..=112).filter(|p| *p < lvl && *p != 110 && *p != 109).collect();
                if ops.is_empty() {
                    return self.cast();
                }
                let p = *self.s.of(&ops);
                let k = self.s.pick(&[4, 2, 1]) as u32 * 3 + 1;
                let mut left = self.expr(p);
                for _ in 0..self.long().unwrap_or(k) {
                    let op: &[&str] = match p {
                        103 => &["*", "/", "||"],
                        104 => &["+", "-"],
                        105 => &["<<", ">>"],
                        106 => &["&"],
                        107 => &["^"],
                        108 => &["|"],
                        111 => &["AND"],
                        _ => &["OR"],
                    };
                    let op = *self.s.of(op);
                    let mut n = if p >= 111 { self.kw(op, "BinaryOperator") } else { self.t(op, "BinaryOperator") };
                    n.put("left", left);
                    let r = self.atom_simple();
                    n.put("right", r);
                    left = n;
                }
                left
            }
            _ => self.cast(),
        }
    }
    fn prefix(&mut self, lvl: u32) -> M {
        if lvl > 110 && self.coin() {
            let mut n = self.kw("NOT", "UnaryOperator");
            let r = self.expr(110);
            n.put("right", r);
            return n;
        }
        let op = *self.s.of(&["-", "+", "~"]);
        let mut n = self.t(op, "UnaryOperator");
        let r = self.unary_operand();
        n.put("right", r);
        n
    }
    fn unary_operand(&mut self) -> M {
        if self.rare() {
            let op = *self.s.of(&["-", "+", "~"]);
            let mut n = self.t(op, "UnaryOperator");
            let r = self.unary_operand();
            n.put("right", r);
            return n;
        }
        self.primary()
    }
    /// operators of exactly level p
    fn binary(&mut self, p: u32) -> M {
        let left = self.expr(p + 1);
        if p == 109 {
            return self.comparison(left);
        }
        let op: &[&str] = match p {
            103 => &["*", "/", "||"],
            104 => &["+", "-"],
            105 => &["<<", ">>"],
            106 => &["&"],
            107 => &["^"],
            108 => &["|"],
            111 => &["AND"],
            _ => &["OR"],
        };
        let op = *self.s.of(op);
        let mut n = if p >= 111 { self.kw(op, "BinaryOperator") } else { self.t(op, "BinaryOperator") };
        n.put("left", left);
        let r = self.expr(p);
        n.put("right", r);
        n
    }
    fn comparison(&mut self, left: M) -> M {
        match self.s.pick(&[10, 3, 3, 4, 3, 2]) {
            0 => {
                let op = *self.s.of(&["=", "<", ">", "<=", ">=", "!=", "<>"]);
                let mut n = self.t(op, "BinaryOperator");
                n.put("left", left);
                if self.opt(1, 20) {
                    let q = *self.s.of(&["ANY", "ALL", "SOME"]);
                    let q = self.key(q);
                    n.put("quantifier", q);
                    let r = self.paren_exprs();
                    n.put("right", r);
                } else {
                    let r = self.expr(109);
                    n.put("right", r);
                }
                n
            }
            1 => {
                let not = if self.maybe() { Some(self.key("NOT")) } else { None };
                let mut n = self.kw("LIKE", "BinaryOperator");
                n.put("left", left);
                n.opt("not", not);
                if self.opt(1, 4) {
                    let q = *self.s.of(&["ANY", "ALL", "SOME"]);
                    let q = self.key(q);
                    n.put("quantifier", q);
                    let r = if self.rare() { self.unnest() .retype("CallingFunction") } else { self.paren_exprs() };
                    n.put("right", r);
                } else {
                    let r = self.expr(109);
                    n.put("right", r);
                }
                n
            }
            2 => {
                let mut n = self.kw("IS", "BinaryOperator");
                n.put("left", left);
                if self.maybe() {
                    let k = self.key("NOT");
                    n.put("not", k);
                }
                let r = match self.s.below(3) {
                    0 => self.kw("NULL", "NullLiteral"),
                    1 => self.kw("TRUE", "BooleanLiteral"),
                    _ => self.kw("FALSE", "BooleanLiteral"),
                };
                n.put("right", r);
                n
            }
            3 => {
                let not = if self.maybe() { Some(self.key("NOT")) } else { None };
                let mut n = self.kw("IN", "InOperator");
                n.put("left", left);
                n.opt("not", not);
                let r = match self.s.pick(&[4, 1, 1]) {
                    0 => self.grouped_exprs(1, false),
                    1 => self.unnest(),
                    _ => self.subquery(),
                };
                n.put("right", r);
                n
            }
            4 => {
                let not = if self.maybe() { Some(self.key("NOT")) } else { None };
                let mut n = self.kw("BETWEEN", "BetweenOperator");
                n.put("left", left);
                n.opt("not", not);
                let a = self.expr(109);
                n.put("right_min", a);
                let k = self.key("AND");
                n.put("and", k);
                let b = self.expr(109);
                n.put("right_max", b);
                n
            }
            _ => {
                let mut n = self.kw("IS", "IsDistinctFromOperator");
                n.put("left", left);
                if self.maybe() {
                    let k = self.key("NOT");
                    n.put("not", k);
                }
                let k = self.key("DISTINCT");
                n.put("distinct", k);
                let k = self.key("FROM");
                n.put("from", k);
                let r = self.expr(109);
                n.put("right", r);
                n
            }
        }
    }
    /// ( a, b ) as an operand: a struct, or a group if there is one
    fn paren_exprs(&mut self) -> M {
        self.paren(false)
    }
    fn paren(&mut self, alias: bool) -> M {
        let mut n = self.t("(", "GroupedExpr");
        let mut v = self.list(1, &mut |g| g.expr_alias(MAX, alias, 8));
        if v.len() == 1 {
            n.put("expr", v.pop().unwrap());
        } else {
            n.ty = "StructLiteral";
            n.puts("exprs", v);
        }
        let r = self.sym(")");
        n.put("rparen", r);
        n
    }
    /// ( a, b ) after a keyword
    pub fn grouped_exprs(&mut self, lo: u32, alias: bool) -> M {
        let mut n = self.t("(", "GroupedExprs");
        let mut v = self.list(lo, &mut |g| g.expr_alias(MAX, alias, 3));
        if v.len() > 1 && self.opt(1, 25) {
            let c = self.sym(",");
            v.last_mut().unwrap().put("comma", c);
        }
        if !v.is_empty() {
            n.puts("exprs", v);
        }
        let r = self.sym(")");
        n.put("rparen", r);
        n
    }
    /// OPTIONS ( x = y ) and the like
    pub fn kw_grouped(&mut self, kw: &str, lo: u32) -> M {
        let mut n = self.kw(kw, "KeywordWithGroupedXXX");
        let g = self.grouped_exprs(lo, false);
        n.put("group", g);
        n
    }
    pub fn options(&mut self) -> M {
        self.options_(false)
    }
    /// `simple`: in a type's <> where a > closes the type
    fn options_(&mut self, simple: bool) -> M {
        let mut n = self.kw("OPTIONS", "KeywordWithGroupedXXX");
        let mut p = self.t("(", "GroupedExprs");
        let v = self.list(0, &mut |g| {
            let l = g.ident();
            let mut e = g.t("=", "BinaryOperator");
            e.put("left", l);
            let r = if simple { g.atom_simple() } else { g.expr(109) };
            e.put("right", r);
            e
        });
        if !v.is_empty() {
            p.puts("exprs", v);
        }
        let r = self.sym(")");
        p.put("rparen", r);
        n.put("group", p);
        n
    }
    /// an expression that may carry an alias; `den`: one in how many
    pub fn expr_alias(&mut self, lvl: u32, alias: bool, den: u32) -> M {
        let mut e = self.expr(lvl);
        if alias && self.opt(1, den) {
            if self.s.chance(2, 3) {
                let k = self.key("AS");
                e.put("as", k);
            }
            let a = self.ident();
            e.put("alias", a);
        }
        e
    }
    /// something ORDER BY can sort by, with its direction
    pub fn sort_key(&mut self) -> M {
        if self.opt(2, 3) {
            let lvl = if self.coin() { 102 } else { MAX };
            let mut e = self.expr(lvl);
            if self.maybe() {
                let d = *self.s.of(&["ASC", "DESC"]);
                let k = self.key(d);
                last_operand(&mut e).put("order", k);
            }
            if self.opt(1, 6) {
                let d = *self.s.of(&["FIRST", "LAST"]);
                let k = self.keys(&["NULLS", d]);
                last_operand(&mut e).puts("null_order", k);
            }
            e
        } else {
            self.expr(MAX)
        }
    }
    pub fn orderby(&mut self) -> M {
        let mut n = self.kw("ORDER", "XXXByExprs");
        let k = self.key("BY");
        n.put("by", k);
        let v = self.list(1, &mut |g| g.sort_key());
        n.puts("exprs", v);
        n
    }
    pub fn xxxby(&mut self, kw: &str) -> M {
        let mut n = self.kw(kw, "XXXByExprs");
        let k = self.key("BY");
        n.put("by", k);
        let v = self.list(1, &mut |g| g.expr(MAX));
        n.puts("exprs", v);
        n
    }
    /// ( SELECT ... )
    pub fn subquery(&mut self) -> M {
        let mut n = self.t("(", "GroupedStatement");
        let q = self.query(true);
        n.put("stmt", q);
        let r = self.sym(")");
        n.put("rparen", r);
        n
    }
    /// UNNEST ( ... ) as a node of type CallingUnnest
    pub fn unnest(&mut self) -> M {
        let f = self.kw("UNNEST", "Identifier");
        let mut n = self.t("(", "CallingUnnest");
        n.put("func", f);
        let a = self.expr(MAX);
        n.puts("args", vec![a]);
        let r = self.sym(")");
        n.put("rparen", r);
        n
    }
    pub fn atom_simple(&mut self) -> M {
        match self.s.pick(&[10, 6, 3, 1, 2, 1, 1]) {
            0 => self.column(),
            1 => self.num(),
            2 => self.string(),
            3 => self.kw("NULL", "NullLiteral"),
            4 => {
                let b = *self.s.of(&["TRUE", "FALSE"]);
                self.kw(b, "BooleanLiteral")
            }
            5 => self.parameter(),
            _ => self.template(),
        }
    }
    /// level 101 and below: literals, calls, fields, subscripts
    pub fn primary(&mut self) -> M {
        if self.low() {
            return self.atom_simple();
        }
        let (mut m, mut post) = self.primary_head();
        for _ in 0..self.reps(&[8, 3, 1, 1]) {
            if self.low() {
                break;
            }
            m = match (post, self.s.pick(&[4, 3, 2])) {
                (Post::Any, 0) => {
                    let mut d = self.t(".", "DotOperator");
                    d.put("left", m);
                    let n = self.field_name();
                    let r = self.t(&n, "Identifier");
                    d.put("right", r);
                    d
                }
                (Post::Any, 2) => {
                    // a chained function call; on a plain path it is a call of the path
                    let mut first = &m;
                    while first.ty == "DotOperator" {
                        first = match first.kids.iter().find(|(k, _)| *k == "left") {
                            Some((_, MKid::One(l))) => l,
                            _ => break,
                        };
                    }
                    if first.ty == "Identifier" {
                        let mut d = self.t(".", "DotOperator");
                        d.put("left", m);
                        let n = self.plain();
                        let r = self.t(&n, "Identifier");
                        d.put("right", r);
                        self.call_plain(d)
                    } else {
                        let mut d = self.t(".", "FunctionChain");
                        d.put("left", m);
                        let f = if self.opt(1, 5) {
                            let mut p = self.t("(", "GroupedExpr");
                            let e = self.path_expr();
                            p.put("expr", e);
                            let r = self.sym(")");
                            p.put("rparen", r);
                            p
                        } else {
                            let n = self.plain();
                            self.t(&n, "Identifier")
                        };
                        let c = self.call_plain(f);
                        d.put("right", c);
                        d
                    }
                }
                _ => {
                    let mut a = self.t("[", "AccessOperator");
                    a.put("left", m);
                    let i = self.expr(MAX);
                    a.put("right", i);
                    let r = self.sym("]");
                    a.put("rparen", r);
                    a
                }
            };
            post = Post::Any;
        }
        m
    }
    /// a field name; a keyword is a name too after a dot
    fn field_name(&mut self) -> String {
        if self.s.chance(1, 8) {
            let w = *self.s.of(words::RESERVED);
            if matches!(w, "CAST" | "EXTRACT" | "WITH") {
                return "cast_".into(); // these change how the arguments of a call are read
            }
            w.to_lowercase()
        } else {
            self.name()
        }
    }
    /// a.b.c in an expression
    pub fn path_expr(&mut self) -> M {
        let mut m = self.ident();
        for _ in 0..self.reps(&[3, 3, 1]) {
            let mut d = self.t(".", "DotOperator");
            d.put("left", m);
            let n = self.field_name();
            let r = self.t(&n, "Identifier");
            d.put("right", r);
            m = d;
        }
        m
    }
    pub fn call_plain(&mut self, func: M) -> M {
        let mut n = self.t("(", "CallingFunction");
        n.put("func", func);
        let v = self.list(0, &mut |g| g.expr(MAX));
        if !v.is_empty() {
            n.puts("args", v);
        }
        let r = self.sym(")");
        n.put("rparen", r);
        n
    }
    fn primary_head(&mut self) -> (M, Post) {
        match self.s.pick(&[8, 10, 4, 3, 3, 3, 3, 2, 2, 2, 1, 2, 1, 1, 1]) {
            0 => (self.path_expr(), Post::Any),
            1 => (self.call(), Post::Any),
            2 => (self.paren(true), Post::Any),
            3 => (self.case_expr(), Post::Sub),
            4 => (self.array_lit(), Post::Sub),
            5 => (self.struct_lit(), Post::Any),
            6 => {
                // typed or prefixed literals
                if self.coin() {
                    let p = *self.s.of(&["r", "b", "rb", "br"]);
                    let mut n = self.kw(p, "UnaryOperator");
                    let s = self.string();
                    n.put("right", s);
                    (n, Post::Sub)
                } else {
                    let p = *self.s.of(&["DATE", "TIME", "DATETIME", "TIMESTAMP", "NUMERIC", "BIGNUMERIC", "DECIMAL", "BIGDECIMAL", "JSON"]);
                    let mut n = self.kw(p, "UnaryOperator");
                    let s = if self.rare() {
                        let p = *self.s.of(&["r", "b", "rb", "br"]);
                        let mut n = self.kw(p, "UnaryOperator");
                        let s = self.string();
                        n.put("right", s);
                        n
                    } else {
                        self.string()
                    };
                    n.put("right", s);
                    (n, Post::Sub)
                }
            }
            7 => {
                let mut n = self.kw("INTERVAL", "IntervalLiteral");
                let e = self.expr(110);
                n.put("expr", e);
                let d = *self.s.of(DATEPARTS);
                let d = self.key(d);
                n.put("date_part", d);
                if self.opt(1, 4) {
                    let t = self.key("TO");
                    n.put("to", t);
                    let d = *self.s.of(DATEPARTS);
                    let d = self.key(d);
                    n.put("to_date_part", d);
                }
                (n, Post::Sub)
            }
            8 => (self.subquery(), Post::Any),
            9 => {
                let f = *self.s.of(&["EXISTS", "ARRAY"]);
                let f = self.kw(f, "Identifier");
                let mut n = self.t("(", "CallingFunction");
                n.put("func", f);
                let q = self.query(true);
                n.puts("args", vec![q]);
                let r = self.sym(")");
                n.put("rparen", r);
                (n, Post::Any)
            }
            10 => {
                let mut ty = self.kw("RANGE", "Type");
                let mut g = self.t("<", "GroupedType");
                let t = *self.s.of(&["DATE", "DATETIME", "TIMESTAMP"]);
                let t = self.t(t, "Type");
                g.put("type", t);
                let r = self.sym(">");
                g.put("rparen", r);
                ty.put("type_declaration", g);
                let mut n = self.string();
                n.ty = "RangeLiteral";
                n.put("type", ty);
                (n, Post::Sub)
            }
            11 => (self.cast(), Post::Any),
            12 => (self.extract(), Post::Any),
            13 => {
                // WITH(a AS 1, b AS 2, a + b)
                let f = self.kw("WITH", "Identifier");
                let mut n = self.t("(", "CallingFunction");
                n.put("func", f);
                let mut v = vec![];
                for _ in 0..self.count(1) {
                    let mut i = self.ident();
                    let k = self.key("AS");
                    i.put("as", k);
                    let e = self.expr(MAX);
                    i.put("alias", e);
                    let c = self.sym(",");
                    i.put("comma", c);
                    v.push(i);
                }
                let e = self.expr(MAX);
                v.push(e);
                n.puts("args", v);
                let r = self.sym(")");
                n.put("rparen", r);
                (n, Post::Any)
            }
            _ => {
                let mut n = self.t("(", "EmptyStruct");
                let r = self.sym(")");
                n.put("rparen", r);
                (n, Post::Sub)
            }
        }
    }
    fn func_path(&mut self, f: &str) -> M {
        let mut m = None;
        for w in f.split('.') {
            m = Some(match m {
                None => self.t(w, "Identifier"),
                Some(l) => {
                    let mut d = self.t(".", "DotOperator");
                    d.put("left", l);
                    let r = self.t(w, "Identifier");
                    d.put("right", r);
                    d
                }
            });
        }
        m.unwrap()
    }
    pub fn call(&mut self) -> M {
        let func = match self.s.pick(&[6, 3, 2]) {
            0 => {
                let f = *self.s.of(FUNCS);
                self.func_path(f)
            }
            1 => self.path_expr(),
            _ => {
                let f = *self.s.of(&["IF", "LEFT", "RIGHT", "RANGE", "DATE", "TIMESTAMP", "JSON", "ANY_VALUE", "NULLIF", "REPLACE", "OFFSET"]);
                self.kw(f, "Identifier")
            }
        };
        let mut n = self.t("(", "CallingFunction");
        n.put("func", func);
        let style = if self.low() { 0 } else { self.s.pick(&[2, 10, 2, 4, 2]) };
        match style {
            0 => (),
            1 => {
                let v = self.list(1, &mut |g| g.expr(MAX));
                n.puts("args", v);
            }
            2 => {
                let v = self.t("*", "Asterisk");
                n.puts("args", vec![v]);
            }
            3 => {
                // aggregate
                if self.maybe() {
                    let k = self.key("DISTINCT");
                    n.put("distinct", k);
                }
                let v = self.list(1, &mut |g| g.expr(MAX));
                n.puts("args", v);
                if self.maybe() {
                    let w = *self.s.of(&["RESPECT", "IGNORE"]);
                    let k = self.keys(&[w, "NULLS"]);
                    n.puts("ignore_nulls", k);
                }
                if self.opt(1, 5) {
                    let mut h = self.kw("HAVING", "KeywordSequence");
                    let w = *self.s.of(&["MAX", "MIN"]);
                    let mut x = self.kw(w, "KeywordWithExpr");
                    let e = self.expr(MAX);
                    x.put("expr", e);
                    h.put("next_keyword", x);
                    n.put("having", h);
                }
                if self.maybe() {
                    let o = self.orderby();
                    n.put("orderby", o);
                }
                if self.maybe() {
                    let mut l = self.kw("LIMIT", "KeywordWithExpr");
                    let e = self.expr(MAX);
                    l.put("expr", e);
                    n.put("limit", l);
                }
            }
            _ => {
                // named and table arguments
                let v = self.list(1, &mut |g| match g.s.pick(&[3, 1]) {
                    0 => {
                        let l = g.ident();
                        let mut e = g.t("=>", "BinaryOperator");
                        e.put("left", l);
                        let r = g.expr(200);
                        e.put("right", r);
                        e
                    }
                    _ => {
                        let k = *g.s.of(&["TABLE", "MODEL"]);
                        let mut e = g.kw(k, "UnaryOperator");
                        let r = g.table_path();
                        e.put("right", r);
                        e
                    }
                });
                n.puts("args", v);
            }
        }
        let r = self.sym(")");
        n.put("rparen", r);
        if self.opt(1, 7) {
            let mut o = self.kw("OVER", "OverClause");
            let w = self.window();
            o.put("window", w);
            n.put("over", o);
        }
        n
    }
    fn cast(&mut self) -> M {
        let f = *self.s.of(&["CAST", "SAFE_CAST"]);
        let f = self.kw(f, "Identifier");
        let mut n = self.t("(", "CallingFunction");
        n.put("func", f);
        let e = self.expr(MAX);
        let mut c = self.kw("AS", "CastArgument");
        c.put("cast_from", e);
        let t = self.ty(false, false);
        c.put("cast_to", t);
        if self.opt(1, 4) {
            let mut k = self.kw("FORMAT", "KeywordWithExpr");
            let e = self.expr(MAX);
            k.put("expr", e);
            c.put("format", k);
        }
        n.puts("args", vec![c]);
        let r = self.sym(")");
        n.put("rparen", r);
        n
    }
    fn extract(&mut self) -> M {
        let f = self.kw("EXTRACT", "Identifier");
        let mut n = self.t("(", "CallingFunction");
        n.put("func", f);
        let p = *self.s.of(DATEPARTS);
        let mut part = self.t(p, "Identifier");
        if p == "WEEK" && self.maybe() {
            let mut c = self.t("(", "CallingFunction");
            c.put("func", part);
            let a = self.t("SUNDAY", "Identifier");
            c.puts("args", vec![a]);
            let r = self.sym(")");
            c.put("rparen", r);
            part = c;
        }
        let mut f = self.kw("FROM", "ExtractArgument");
        f.put("extract_datepart", part);
        let e = self.expr(MAX);
        f.put("extract_from", e);
        if self.maybe() {
            let k = self.keys(&["AT", "TIME", "ZONE"]);
            f.puts("at_time_zone", k);
            let e = self.expr(MAX);
            f.put("time_zone", e);
        }
        n.puts("args", vec![f]);
        let r = self.sym(")");
        n.put("rparen", r);
        n
    }
    fn case_expr(&mut self) -> M {
        let mut n = self.kw("CASE", "CaseExpr");
        if self.maybe() {
            let e = self.expr(MAX);
            n.put("expr", e);
        }
        let mut arms = vec![];
        for _ in 0..self.count(1) {
            let mut a = self.kw("WHEN", "CaseExprArm");
            let e = self.expr(MAX);
            a.put("expr", e);
            let k = self.key("THEN");
            a.put("then", k);
            let e = self.expr(MAX);
            a.put("result", e);
            arms.push(a);
        }
        if self.maybe() {
            let mut a = self.kw("ELSE", "CaseExprArm");
            let e = self.expr(MAX);
            a.put("result", e);
            arms.push(a);
        }
        n.puts("arms", arms);
        let k = self.key("END");
        n.put("end", k);
        n
    }
    fn array_lit(&mut self) -> M {
        let ty = if self.maybe() { Some(self.array_ty(false)) } else { None };
        let mut n = self.t("[", "ArrayLiteral");
        let v = self.list(0, &mut |g| g.expr(MAX));
        n.puts("exprs", v);
        let r = self.sym("]");
        n.put("rparen", r);
        n.opt("type", ty);
        n
    }
    fn struct_lit(&mut self) -> M {
        let ty = self.struct_ty(false);
        let mut n = self.t("(", "StructLiteral");
        let v = self.list(0, &mut |g| g.expr_alias(MAX, true, 3));
        n.puts("exprs", v);
        let r = self.sym(")");
        n.put("rparen", r);
        n.put("type", ty);
        n
    }
    // ----- types -----
    fn array_ty(&mut self, schema: bool) -> M {
        let mut t = self.kw("ARRAY", "Type");
        if self.opt(3, 4) {
            let mut g = self.t("<", "GroupedType");
            let i = self.ty(schema, false);
            g.put("type", i);
            let r = self.sym(">");
            g.put("rparen", r);
            t.put("type_declaration", g);
        }
        t
    }
    fn struct_ty(&mut self, schema: bool) -> M {
        self.fields_ty("STRUCT", schema)
    }
    /// STRUCT or TABLE with its fields
    pub fn fields_ty(&mut self, k: &'static str, schema: bool) -> M {
        let mut t = self.kw(k, "Type");
        if self.opt(1, 2) {
            let mut g = self.t("<", "GroupedTypeDeclarationOrConstraints");
            let v = self.list(0, &mut |g| g.field_decl(schema));
            g.puts("declarations", v);
            let r = self.sym(">");
            g.put("rparen", r);
            t.put("type_declaration", g);
        }
        t
    }
    fn field_decl(&mut self, schema: bool) -> M {
        if self.s.chance(1, 3) {
            let mut d = G::none("TypeDeclaration");
            let t = self.ty_bare();
            d.put("type", t);
            d
        } else {
            let n = self.name();
            let mut d = self.t(&n, "TypeDeclaration");
            let t = self.ty(schema, false);
            d.put("type", t);
            d
        }
    }
    /// a type without parameters or attributes
    fn ty_bare(&mut self) -> M {
        match self.s.pick(&[6, 1, 1]) {
            0 => {
                let t = *self.s.of(&["INT64", "STRING", "FLOAT64", "DATE", "BYTES", "JSON"]);
                self.kw(t, "Type")
            }
            1 => {
                // ARRAY always with its element type here
                let mut t = self.kw("ARRAY", "Type");
                let mut g = self.t("<", "GroupedType");
                let i = self.ty_bare();
                g.put("type", i);
                let r = self.sym(">");
                g.put("rparen", r);
                t.put("type_declaration", g);
                t
            }
            _ => {
                let mut t = self.kw("STRUCT", "Type");
                let mut g = self.t("<", "GroupedTypeDeclarationOrConstraints");
                let v = self.list(1, &mut |g| g.field_decl(false));
                g.puts("declarations", v);
                let r = self.sym(">");
                g.put("rparen", r);
                t.put("type_declaration", g);
                t
            }
        }
    }
    /// a type; with `schema`, as it stands in a column definition
    pub fn ty(&mut self, schema: bool, column: bool) -> M {
        self.depth += 1;
        let mut t = if self.low() {
            self.kw("INT64", "Type")
        } else {
            match self.s.pick(&[8, 2, 2, 2, 1]) {
                0 => {
                    let t = *self.s.of(&["INT64", "STRING", "FLOAT64", "DATE", "BYTES", "JSON", "BOOL", "GEOGRAPHY", "TIMESTAMP"]);
                    self.kw(t, "Type")
                }
                1 => {
                    let t = *self.s.of(&["STRING", "BYTES", "NUMERIC", "BIGNUMERIC"]);
                    let mut t = self.kw(t, "Type");
                    let mut g = self.t("(", "GroupedExprs");
                    let v = self.list(1, &mut |g| g.num());
                    g.puts("exprs", v);
                    let r = self.sym(")");
                    g.put("rparen", r);
                    t.put("parameter", g);
                    t
                }
                2 => self.array_ty(schema),
                3 => self.struct_ty(schema),
                _ => {
                    let mut ty = self.kw("RANGE", "Type");
                    let mut g = self.t("<", "GroupedType");
                    let t = *self.s.of(&["DATE", "DATETIME", "TIMESTAMP"]);
                    let t = self.t(t, "Type");
                    g.put("type", t);
                    let r = self.sym(">");
                    g.put("rparen", r);
                    ty.put("type_declaration", g);
                    ty
                }
            }
        };
        if self.opt(1, 20) {
            let mut c = self.kw("COLLATE", "KeywordWithExpr");
            let s = self.string();
            c.put("expr", s);
            t.put("collate", c);
        }
        if schema {
            if column && self.opt(1, 10) {
                if self.coin() {
                    let mut c = self.kw("CONSTRAINT", "KeywordWithExpr");
                    let i = self.ident_path();
                    c.put("expr", i);
                    t.put("constraint", c);
                }
                if self.coin() {
                    let p = self.seq2("PRIMARY", "KEY");
                    t.put("primarykey", p);
                    let e = self.enforced();
                    t.put("enforced", e);
                } else {
                    let r = self.references();
                    t.put("references", r);
                    let e = self.enforced();
                    t.put("enforced", e);
                }
            }
            if column && self.opt(1, 8) {
                let mut d = self.kw("DEFAULT", "KeywordWithExpr");
                let e = self.expr(110);
                d.put("expr", e);
                t.put("default", d);
            }
            if self.opt(1, 6) {
                let k = self.keys(&["NOT", "NULL"]);
                t.puts("not_null", k);
            }
            if self.opt(1, 6) {
                let o = self.options_(!column);
                t.put("options", o);
            }
        }
        self.depth -= 1;
        t
    }
    pub fn enforced(&mut self) -> M {
        if self.coin() {
            self.seq2("NOT", "ENFORCED")
        } else {
            self.key("ENFORCED")
        }
    }
    /// REFERENCES tbl(col, ...)
    pub fn references(&mut self) -> M {
        let mut r = self.kw("REFERENCES", "KeywordWithExpr");
        let p = self.ident_path();
        let mut c = self.t("(", "CallingFunction");
        c.put("func", p);
        let v = self.list(1, &mut |g| g.ident());
        c.puts("args", v);
        let x = self.sym(")");
        c.put("rparen", x);
        r.put("expr", c);
        r
    }
    // ----- names of tables, schemas, ... -----
    /// part of a path that may be made of several adjacent tokens, such as region-us
    fn path_part(&mut self, first: bool) -> M {
        if self.s.chance(1, 6) {
            let q = self.quoted();
            return self.t(&q, "Identifier");
        }
        let w = self.plain();
        let mut m = self.t(&w, "Identifier");
        if !self.features.no_multi_token && self.opt(1, if first { 6 } else { 20 }) {
            m.ty = "MultiTokenIdentifier";
            let mut v = vec![];
            let glued = |g: &mut G, l: &str| {
                let i = g.emit(l, false);
                g.toks[i].glue = true;
                g.toks[i].gap = false;
                M { tok: Some(i), ty: "Identifier", kids: vec![] }
            };
            for _ in 0..self.s.range(1, 3) {
                let d = glued(self, "-");
                v.push(d);
                let number = self.s.chance(1, 5);
                let w = if number { self.s.below(1000).to_string() } else { self.plain() };
                if number && self.s.chance(1, 3) {
                    // my-project-123.dataset: the lexer takes the point to the number
                    let d = glued(self, &format!("{}.", w));
                    v.push(d);
                    let w = self.plain();
                    let w = if w.starts_with(['e', 'E']) { format!("d{}", w) } else { w };
                    let d = glued(self, &w);
                    v.push(d);
                    break;
                }
                let d = glued(self, &w);
                v.push(d);
            }
            if self.s.chance(1, 10) {
                let d = glued(self, "*");
                v.push(d);
            }
            m.puts("trailing_idents", v);
        }
        self.sticky = true;
        m
    }
    /// a dotted path of names where a table, routine, model, ... is named
    pub fn ident_path(&mut self) -> M {
        let mut m = self.path_part(true);
        for _ in 0..self.reps(&[5, 4, 2]) {
            let mut d = self.t(".", "DotOperator");
            d.put("left", m);
            let r = self.path_part(false);
            d.put("right", r);
            m = d;
        }
        m
    }
    pub fn table_path(&mut self) -> M {
        self.ident_path()
    }
}

//! Procedural language, and whole scripts.
use super::*;

impl G {
    fn put_kw(&mut self, n: &mut M, key: &'static str, w: &str) {
        let k = self.key(w);
        n.put(key, k);
    }
    pub fn declare(&mut self) -> M {
        let mut n = self.kw("DECLARE", "DeclareStatement");
        let v = self.list(1, &mut |g| g.var());
        n.puts("idents", v);
        let ty = self.s.chance(2, 3);
        if ty {
            let t = self.ty(false, false);
            n.put("variable_type", t);
        }
        if !ty || self.coin() {
            let d = self.kw_expr("DEFAULT");
            n.put("default", d);
        }
        n
    }
    pub fn set(&mut self) -> M {
        let mut n = self.kw("SET", "SetStatement");
        let l = match self.s.pick(&[4, 1, 1]) {
            0 => self.path_expr(),
            1 => self.parameter(),
            _ => {
                let mut p = self.t("(", "StructLiteral");
                let v = self.list(2, &mut |g| g.ident());
                p.puts("exprs", v);
                let r = self.sym(")");
                p.put("rparen", r);
                p
            }
        };
        let mut e = self.t("=", "BinaryOperator");
        e.put("left", l);
        let r = self.expr(109);
        e.put("right", r);
        n.put("expr", e);
        n
    }
    pub fn execute(&mut self) -> M {
        let mut n = self.kw("EXECUTE", "ExecuteStatement");
        self.put_kw(&mut n, "immediate", "IMMEDIATE");
        let e = self.expr(MAX);
        n.put("sql_expr", e);
        if self.maybe() {
            let mut k = self.kw("INTO", "KeywordWithExprs");
            let v = self.list(1, &mut |g| g.var());
            k.puts("exprs", v);
            n.put("into", k);
        }
        if self.maybe() {
            let mut k = self.kw("USING", "KeywordWithExprs");
            let v = self.list(1, &mut |g| g.expr_alias(MAX, true, 3));
            k.puts("exprs", v);
            n.put("using", k);
        }
        n
    }
    /// statements in a block, each with its semicolon
    fn block(&mut self, lo: u32) -> Vec<M> {
        let n = self.count(lo);
        (0..n).map(|_| self.statement(true)).collect()
    }
    fn kw_block(&mut self, w: &str, ty: &'static str) -> M {
        let mut n = self.kw(w, ty);
        let v = self.block(0);
        n.puts("stmts", v);
        n
    }
    pub fn begin(&mut self) -> M {
        self.depth += 1;
        let mut n = self.kw("BEGIN", "BeginStatement");
        let v = self.block(0);
        if !v.is_empty() {
            n.puts("stmts", v);
        }
        if self.opt(1, 4) {
            let k = self.keys(&["EXCEPTION", "WHEN", "ERROR"]);
            n.puts("exception_when_error", k);
            let t = self.kw_block("THEN", "KeywordWithStatements");
            n.put("then", t);
        }
        self.put_kw(&mut n, "end", "END");
        self.depth -= 1;
        n
    }
    fn if_stmt(&mut self) -> M {
        let mut n = self.kw("IF", "IfStatement");
        let e = self.expr(MAX);
        n.put("condition", e);
        let t = self.kw_block("THEN", "KeywordWithStatements");
        n.put("then", t);
        let k = if self.maybe() { self.count(1) } else { 0 };
        let mut v = vec![];
        for _ in 0..k {
            let mut c = self.kw("ELSEIF", "ElseIfClause");
            let e = self.expr(MAX);
            c.put("condition", e);
            let t = self.kw_block("THEN", "KeywordWithStatements");
            c.put("then", t);
            v.push(c);
        }
        if !v.is_empty() {
            n.puts("elseifs", v);
        }
        if self.maybe() {
            let e = self.kw_block("ELSE", "KeywordWithStatements");
            n.put("else", e);
        }
        let k = self.keys(&["END", "IF"]);
        n.puts("end_if", k);
        n
    }
    fn loop_stmt(&mut self) -> M {
        let mut n = self.kw_block("LOOP", "LoopStatement");
        let k = self.keys(&["END", "LOOP"]);
        n.puts("end_loop", k);
        n
    }
    fn repeat_stmt(&mut self) -> M {
        let mut n = self.kw_block("REPEAT", "RepeatStatement");
        let u = self.kw_expr("UNTIL");
        n.put("until", u);
        let k = self.keys(&["END", "REPEAT"]);
        n.puts("end_repeat", k);
        n
    }
    fn while_stmt(&mut self) -> M {
        let mut n = self.kw("WHILE", "WhileStatement");
        let e = self.expr(MAX);
        n.put("condition", e);
        let d = self.kw_block("DO", "KeywordWithStatements");
        n.put("do", d);
        let k = self.keys(&["END", "WHILE"]);
        n.puts("end_while", k);
        n
    }
    fn for_stmt(&mut self) -> M {
        let mut n = self.kw("FOR", "ForStatement");
        let i = self.ident();
        n.put("ident", i);
        let mut k = self.kw("IN", "KeywordWithGroupedXXX");
        let q = self.grouped_query();
        k.put("group", q);
        n.put("in", k);
        let d = self.kw_block("DO", "KeywordWithStatements");
        n.put("do", d);
        let k = self.keys(&["END", "FOR"]);
        n.puts("end_for", k);
        n
    }
    fn case_stmt(&mut self) -> M {
        let mut n = self.kw("CASE", "CaseStatement");
        if self.coin() {
            let e = self.expr(MAX);
            n.put("expr", e);
        }
        let mut arms = vec![];
        for _ in 0..self.count(1) {
            let mut a = self.kw("WHEN", "CaseStatementArm");
            let e = self.expr(MAX);
            a.put("expr", e);
            self.put_kw(&mut a, "then", "THEN");
            let v = self.block(0);
            a.puts("stmts", v);
            arms.push(a);
        }
        if self.maybe() {
            let a = self.kw_block("ELSE", "CaseStatementArm");
            arms.push(a);
        }
        n.puts("arms", arms);
        let k = self.keys(&["END", "CASE"]);
        n.puts("end_case", k);
        n
    }
    fn labeled(&mut self) -> M {
        let l = self.name();
        let label = self.t(&l, "Identifier");
        let colon = self.sym(":");
        let mut n = match self.s.below(5) {
            0 => self.loop_stmt(),
            1 => self.while_stmt(),
            2 => self.repeat_stmt(),
            3 => self.for_stmt(),
            _ => self.begin(),
        };
        n.put("leading_label", label);
        n.put("colon", colon);
        if self.coin() {
            let t = self.t(&l, "Identifier");
            n.put("trailing_label", t);
        }
        n
    }
    fn transaction(&mut self) -> M {
        let w = *self.s.of(&["COMMIT", "ROLLBACK", "BEGIN"]);
        let mut n = self.kw(w, "TransactionStatement");
        if self.coin() {
            self.put_kw(&mut n, "transaction", "TRANSACTION");
        }
        n
    }
    fn raise(&mut self) -> M {
        let mut n = self.kw("RAISE", "RaiseStatement");
        if self.coin() {
            let mut u = self.kw("USING", "KeywordWithExpr");
            let l = self.t("MESSAGE", "Identifier");
            let mut e = self.t("=", "BinaryOperator");
            e.put("left", l);
            let r = self.expr(109);
            e.put("right", r);
            u.put("expr", e);
            n.put("using", u);
        }
        n
    }
    fn break_stmt(&mut self) -> M {
        let w = *self.s.of(&["BREAK", "LEAVE", "CONTINUE", "ITERATE"]);
        let mut n = self.kw(w, "BreakContinueStatement");
        if self.coin() {
            let i = self.ident();
            n.put("label", i);
        }
        n
    }
    /// control flow
    pub fn control(&mut self) -> M {
        self.depth += 1;
        let m = match if self.low() { 0 } else { self.s.pick(&[2, 3, 3, 2, 3, 4, 2, 2, 2, 2, 2, 3, 3, 2]) } {
            0 => self.set(),
            1 => self.declare(),
            2 => self.execute(),
            3 => self.break_stmt(),
            4 => self.begin(),
            5 => self.if_stmt(),
            6 => self.loop_stmt(),
            7 => self.repeat_stmt(),
            8 => self.while_stmt(),
            9 => self.for_stmt(),
            10 => self.case_stmt(),
            11 => self.labeled(),
            12 => match self.s.below(2) {
                0 => self.transaction(),
                _ => self.kw("RETURN", "SingleTokenStatement"),
            },
            _ => self.raise(),
        };
        self.depth -= 1;
        m
    }
    /// any statement; `semi`: with its semicolon
    pub fn statement(&mut self, semi: bool) -> M {
        self.depth += 1;
        let mut m = if self.drive > 0 && self.mix == Mix::Script {
            self.drive -= 1;
            match self.s.below(8) {
                0 | 1 => self.begin(),
                2 => self.if_stmt(),
                3 => self.loop_stmt(),
                4 => self.while_stmt(),
                5 => self.case_stmt(),
                6 => self.repeat_stmt(),
                _ => self.labeled(),
            }
        } else if self.drive > 0 {
            self.query(false)
        } else if self.low() {
            self.select(false)
        } else {
            match self.mix {
                Mix::Query => self.query(false),
                Mix::Pipe => self.piped(),
                Mix::Dml => self.dml(),
                Mix::Ddl => self.ddl(),
                Mix::Misc => self.misc(),
                Mix::Statements => match self.s.pick(&[3, 5, 3]) {
                    0 => self.dml(),
                    1 => self.ddl(),
                    _ => self.misc(),
                },
                Mix::Script => match self.s.pick(&[5, 1, 1]) {
                    0 => self.control(),
                    1 => self.dml(),
                    _ => self.query(false),
                },
                Mix::All => match self.s.pick(&[4, 3, 4, 2, 4]) {
                    0 => self.query(false),
                    1 => self.dml(),
                    2 => self.ddl(),
                    3 => self.misc(),
                    _ => self.control(),
                },
            }
        };
        self.depth -= 1;
        if semi {
            let s = self.sym(";");
            m.put("semicolon", s);
        }
        m
    }
    pub fn script(&mut self, max: u32) -> Vec<M> {
        let n = 1 + self.s.below(max);
        let mut v = vec![];
        for i in 0..n {
            let semi = i + 1 < n || self.coin();
            v.push(self.statement(semi));
        }
        v
    }
}

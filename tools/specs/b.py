# ----- lexer -----
bug('comment-cr', 'C01', 'a block comment that contains a carriage return',
 'Carriage returns inside a block comment are dropped from its text.',
 [('src/lexer.rs', """        self.next_char()?; // * -> /
        self.next_char()?; // / -> next_char
        let res = self.input[first_position..self.position]
            .into_iter()
            .collect();""", """        self.next_char()?; // * -> /
        self.next_char()?; // / -> next_char
        let res = self.input[first_position..self.position]
            .into_iter()
            .filter(|c| **c != '\\r')
            .collect();""")],
 ["SELECT /* a\r\n b */ 1"])
bug('column-utf16', 'C02', 'a character outside the Basic Multilingual Plane before a token on the same line',
 'Columns count UTF-16 units instead of characters.',
 [('src/lexer.rs', """                self.line += 1;
            } else {
                self.column += 1;
            }
            self.position += 1;""", """                self.line += 1;
            } else {
                self.column += self.input[self.position].len_utf16();
            }
            self.position += 1;""")],
 ["SELECT '\U0001F600', a", "SELECT /* \U0001F600 */ 1 + 2"])
bug('template-braces', 'C03', 'a template in three or more braces with two closing braces inside',
 'A template opened with three braces already ends at two closing braces.',
 [('src/lexer.rs', "while !(0..count).all(|i| self.get_char(i) == Some('}')) {", "while !(0..count.min(2)).all(|i| self.get_char(i) == Some('}')) {")],
 ["SELECT {{{ a }} b }}}, 1"])
bug('comment-slash', 'C03', 'a block comment whose first character is a slash',
 'The text /*/ counts as a complete comment.',
 [('src/lexer.rs', """        self.next_char()?; // / -> *
        self.next_char()?; // * ->
        while""", """        self.next_char()?; // / -> *
        while""")],
 ["SELECT /*/ a */ 1"])
bug('nested-type-equal', 'C03', 'a type that ends right before an equals sign',
 'The closing > of a type is glued to an equals sign behind it.',
 [('src/lexer.rs', """                if 0 < self.type_declaration_depth {
                    self.type_declaration_depth -= 1;""", """                if 0 < self.type_declaration_depth && self.get_char(1) != Some('=') {
                    self.type_declaration_depth -= 1;""")],
 ["CREATE FUNCTION f(a ARRAY<INT64>=1) AS (a)", "SELECT ARRAY<INT64>=[1]", "SELECT CAST(a AS ARRAY<INT64>) >> 2"])
bug('quoted-by-bytes', 'C04', 'a name or symbol that begins with a character of several bytes',
 'Classifying a token that begins with a multi-byte character panics.',
 [('src/token.rs', "self.literal.chars().next().unwrap() == ch && self.literal.chars().last().unwrap() == ch",
   "self.literal[..1].starts_with(ch) && self.literal.ends_with(ch)")],
 ["SELECT \u00e9t\u00e9 FROM t"])
bug('eof-error-line', 'C05', 'an unterminated literal in a text that ends with a line feed',
 'The error for an unterminated literal names a line that does not exist in the text.',
 [('src/lexer.rs', """            Err(BQ2CSTError::new(
                self.line,
                self.column,
                "Unexpected EOF.".to_string(),
            ))""", """            Err(BQ2CSTError::new(
                self.line,
                self.column.max(2) - 1,
                "Unexpected EOF.".to_string(),
            ))""")],
 ["SELECT 'abc", "SELECT /* a\n"])
bug('alter-action-position', 'C25', 'an ALTER TABLE with an unknown action',
 'The error for an unknown ALTER TABLE action is reported at the name of the table.',
 [('src/parser.rs', """                return Err(BQ2CSTError::from_token(
                    self.get_token(1)?,
                    format!(
                        "Expected `SET`, `ADD` `RENAME` or `DROP` but got: {:?}",
                        self.get_token(1)?
                    ),""", """                return Err(BQ2CSTError::from_token(
                    self.get_token(0)?,
                    format!(
                        "Expected `SET`, `ADD` `RENAME` or `DROP` but got: {:?}",
                        self.get_token(1)?
                    ),""")],
 ["ALTER TABLE t MOVE COLUMN a"])
# ----- comments -----
bug('comment-dedup', 'C06', 'two comments with the same text directly one after another',
 'Of two equal comments in a row before a token one is lost.',
 [('src/parser.rs', """        for i in from_idx..next_token_idx {
            self.leading_comment_indices.push(i);
        }""", """        for i in from_idx..next_token_idx {
            if from_idx < i && self.tokens[i].literal == self.tokens[i - 1].literal {
                continue;
            }
            self.leading_comment_indices.push(i);
        }""")],
 ["SELECT\n-- a\n-- a\n1"])
bug('first-token-comment', 'C07', 'a script whose first token is followed by a block comment of several lines and another comment behind its end',
 'A comment that begins on a later line is attached as trailing comment of the first token.',
 [('src/parser.rs', """        while p.tokens[trailing_comment_idx].is_comment()
            && p.tokens[p.position].line == p.tokens[trailing_comment_idx].line
        {""", """        while p.tokens[trailing_comment_idx].is_comment()
            && p.tokens[trailing_comment_idx - 1].line == p.tokens[trailing_comment_idx].line
        {""")],
 ["SELECT /* a */ /* b\n */ 1", "SELECT 1 /* x */ /* y */", "/* q */ SELECT /* a\nb */ /* c */ 1", "BEGIN /* 1 */\n/* 2 */ /* 3 */ SELECT 1; END"])
bug('eof-trailing', 'C06', 'a comment behind the last token on its line with another comment on the next line',
 'A comment between a trailing comment of the last token and the end of the input is lost.',
 [('src/parser.rs', """        let from_idx = match self.trailing_comment_indices.last() {
            Some(n) => *n + 1,
            None => self.position + 1,
        };""", """        let from_idx = match self.trailing_comment_indices.last() {
            Some(n) if self.trailing_comment_indices.len() > 1 => *n + 2,
            Some(n) => *n + 1,
            None => self.position + 1,
        };""")],
 ["SELECT 1 /* a */ /* b */\n-- c\n", "SELECT 1 /* a */ /* b */\n-- c\n, 2"])
# ----- structure -----
bug('drop-order', 'C08', 'an ALTER TABLE that drops a primary key after another item',
 'DROP PRIMARY KEY is put before the items that stand in front of it.',
 [('src/parser.rs', """                        drop_column.push_node("comma", self.construct_node(NodeType::Symbol)?);
                    }
                    drop_columns.push(drop_column);""", """                        drop_column.push_node("comma", self.construct_node(NodeType::Symbol)?);
                    }
                    if drop_column.children.contains_key("ident") {
                        drop_columns.push(drop_column);
                    } else {
                        drop_columns.insert(0, drop_column);
                    }""")],
 ["ALTER TABLE t DROP CONSTRAINT a, DROP PRIMARY KEY"])
bug('with-peek', 'C09', 'a comment between SELECT WITH and the parenthesis of a WITH expression',
 'SELECT WITH (...) is taken for SELECT WITH DIFFERENTIAL_PRIVACY when a comment stands before the parenthesis.',
 [('src/parser.rs', """        if self.get_token(1)?.is("WITH") && !self.get_token(2)?.is("(") {
            self.next_token()?; // -> WITH""", """        if self.get_token(1)?.is("WITH") && !self.tokens[self.get_offset_index(1)? + 1].is("(") {
            self.next_token()?; // -> WITH""")],
 ["SELECT WITH /* c */ (a AS 1, a)"])
bug('training-data-case', 'C10', 'TRAINING_DATA in capital letters',
 'CREATE MODEL ... AS (TRAINING_DATA AS ...) is accepted in lower case only.',
 [('src/parser.rs', """if self.get_token(2)?.is("training_data") {""", """if self.get_token(2)?.literal == "training_data" {""")],
 ["CREATE MODEL m AS (TRAINING_DATA AS (SELECT 1), CUSTOM_HOLIDAY AS (SELECT 2))"])
bug('offset-case', 'C10', 'LIMIT with OFFSET in mixed case',
 'OFFSET after LIMIT is recognised only in capitals or in lower case.',
 [('src/parser.rs', """        if self.get_token(1)?.literal.to_uppercase() == "OFFSET" {
            self.next_token()?; // expr -> OFFSET""", """        if ["OFFSET", "offset"].contains(&self.get_token(1)?.literal.as_str()) {
            self.next_token()?; // expr -> OFFSET""")],
 ["SELECT 1 LIMIT 1 Offset 2"])
bug('create-lookahead', 'C11', 'a CREATE of an unknown kind, followed by another statement',
 'Looking for the kind of a CREATE goes on into the next statement.',
 [('src/parser.rs', """                        _ => {
                            offset += 1;
                            if 5 < offset {
                                break;
                            }
                        }
                    }
                }
                return Err(BQ2CSTError::from_token(
                    self.get_token(0)?,
                    format!("Expected `SCHEMA`, `TABLE`, `VIEW`, `FUNCTION`""", """                        _ => {
                            offset += 1;
                            if 7 < offset || self.is_eof(offset) {
                                break;
                            }
                        }
                    }
                }
                return Err(BQ2CSTError::from_token(
                    self.get_token(0)?,
                    format!("Expected `SCHEMA`, `TABLE`, `VIEW`, `FUNCTION`""")],
 ["CREATE a b c d e TABLE t", "CREATE a b c d e f g", "CREATE a b c d e VIEW v AS SELECT 1"])
# ----- expressions -----
bug('concat-precedence', 'C12', 'the operator || next to + or -',
 'Concatenation binds like an addition instead of a multiplication.',
 [('src/parser.rs', """            "*" | "/" | "||" => 103,
            "+" | "-" => 104,""", """            "*" | "/" => 103,
            "+" | "-" | "||" => 104,""")],
 ["SELECT a - b || c"])
bug('shift-right', 'C12', 'a right shift next to a bitwise and',
 'Right shift binds weaker than the bitwise and.',
 [('src/parser.rs', """            "<<" | ">>" => 105,
            "&" => 106,""", """            "<<" => 105,
            ">>" | "&" => 106,""")],
 ["SELECT a & b >> c"])
bug('unary-dot', 'C12', 'a minus before a subscript on a call',
 'A sign binds stronger than a subscript.',
 [('src/parser.rs', """                    let right = self.parse_expr(103, false, false, false, true)?;""", """                    let right = self.parse_expr(102, false, false, false, true)?;""")],
 ["SELECT -a[0], -f(x)[0], -f(x).y"])
bug('is-not-distinct', 'C12', 'IS NOT DISTINCT FROM followed by an operator of weaker binding',
 'The right side of IS DISTINCT FROM takes in AND and OR.',
 [('src/parser.rs', """        self.next_token()?; // FROM -> expr
        node.push_node(
            "right",
            self.parse_expr(precedence, false, false, false, true)?,
        );""", """        self.next_token()?; // FROM -> expr
        node.push_node(
            "right",
            self.parse_expr(precedence + 2, false, false, false, true)?,
        );""")],
 ["SELECT a IS DISTINCT FROM b AND c", "SELECT a IS NOT DISTINCT FROM b = c"])
bug('system-variable', 'C22', 'a system variable with a quoted name',
 'A parameter with a back-quoted name is not classified as parameter.',
 [('src/token.rs', """        let mut iterator = self.literal.chars();
        match iterator.next() {
            Some('?') | Some('@') => return true,
            _ => return false,
        }""", """        let mut iterator = self.literal.chars();
        match iterator.next() {
            Some('?') => return true,
            Some('@') => return !self.literal.ends_with('`'),
            _ => return false,
        }""")],
 ["SELECT @`a b`"])
bug('numeric-capital', 'C22', 'a number that begins with a point and has an exponent',
 'A number such as .5e3 is not classified as a number.',
 [('src/token.rs', '''r"^([0-9]+|([0-9]*\\.[0-9]+))([eE][\\+\\-]?[0-9]+)?$"''', '''r"^([0-9]+(\\.[0-9]+)?([eE][\\+\\-]?[0-9]+)?|\\.[0-9]+)$"''')],
 ["SELECT .5e3, .5, 1.5e3, 1e3"])
# ----- queries -----
bug('trailing-comma-intersect', 'C13', 'a select list with a trailing comma, followed by INTERSECT',
 'After a trailing comma INTERSECT is taken for a select item.',
 [('src/parser.rs', """                    "LIMIT",
                    "UNION",
                    "INTERSECT",
                    "EXCEPT",""", """                    "LIMIT",
                    "UNION",
                    "EXCEPT",""")],
 ["SELECT 1, INTERSECT DISTINCT SELECT 2"])
bug('quantifier-open', 'C13', 'a MATCH_RECOGNIZE pattern with a quantifier without lower bound',
 'The upper bound of a quantifier {,n} is stored as lower bound.',
 [('src/parser.rs', """                quantifier.push_node("max", self.construct_node(NodeType::NumericLiteral)?);""", """                let field = if quantifier.children.contains_key("min") { "max" } else { "min" };
                quantifier.push_node(field, self.construct_node(NodeType::NumericLiteral)?);""")],
 ["SELECT * FROM t MATCH_RECOGNIZE (ORDER BY a MEASURES b AS c PATTERN (x{,3}) DEFINE x AS TRUE)"])
bug('pattern-alternatives', 'C13', 'a MATCH_RECOGNIZE pattern with three alternatives',
 'The third alternative of a pattern becomes part of the second.',
 [('src/parser.rs', """while !self.get_token(1)?.in_(&vec!["|", ")"]) {
                    self.next_token()?; // -> right""", """while !self.get_token(1)?.in_(&vec![")"]) {
                    self.next_token()?; // -> right""")],
 ["SELECT * FROM t MATCH_RECOGNIZE (ORDER BY a MEASURES b AS c PATTERN (x | y | z) DEFINE x AS TRUE)"])
bug('except-replace', 'C13', '* with EXCEPT and REPLACE',
 'REPLACE is read only when there is no EXCEPT before it.',
 [('src/parser.rs', """                        left.push_node("except", except);
                    }
                    if self.get_token(1)?.is("REPLACE") {""", """                        left.push_node("except", except);
                    } else if self.get_token(1)?.is("REPLACE") {""")],
 ["SELECT * EXCEPT (a) REPLACE (b AS c) FROM t"])
bug('pipe-distinct-as-struct', 'C14', 'a pipe SELECT with DISTINCT and AS STRUCT',
 'Of three keywords after a pipe SELECT the first is lost.',
 [('src/parser.rs', """            while let Some(mut kw) = keywords.pop() {
                kw.node_type = NodeType::KeywordSequence;
                kw.push_node("next_keyword", temp);
                temp = kw
            }""", """            if let Some(mut kw) = keywords.pop() {
                kw.node_type = NodeType::KeywordSequence;
                kw.push_node("next_keyword", temp);
                temp = kw
            }""")],
 ["FROM t |> SELECT DISTINCT AS STRUCT a"])
bug('pipe-unknown', 'C25', 'an unknown pipe operator',
 'Unknown pipe operators are accepted.',
 [('src/parser.rs', """            "EXTEND" | "SET" | "DROP" | "RENAME" | "AS" | "WHERE" | "CALL" => {
                self.parse_base_pipe_operator(false)?
            }""", """            "EXTEND" | "SET" | "DROP" | "RENAME" | "AS" | "WHERE" | "CALL" | "KEEP" | "WINDOW" => {
                self.parse_base_pipe_operator(false)?
            }""")],
 ["FROM t |> KEEP a"])
bug('pipe-select-window', 'C14', 'a pipe SELECT with a trailing comma before WINDOW',
 'After a trailing comma in a pipe SELECT the WINDOW clause is taken for a select item.',
 [('src/parser.rs', """let exprs = self.parse_exprs(&vec![";", "WINDOW"], true, true)?;""", """let exprs = self.parse_exprs(&vec![";"], true, true)?;""")],
 ["FROM t |> SELECT a, WINDOW w AS (ORDER BY b)"])
# ----- statements -----
bug('insert-with', 'C15', 'an INSERT whose query is in parentheses and begins with WITH',
 'INSERT t (WITH ...) takes the query for the column list.',
 [('src/parser.rs', """                .in_(&vec!["(", "SELECT", "WITH", "FROM"])""", """                .in_(&vec!["(", "SELECT", "FROM"])""")],
 ["INSERT t (WITH a AS (SELECT 1) SELECT * FROM a)"])
bug('merge-by-target', 'C15', 'a MERGE branch WHEN NOT MATCHED BY TARGET with a condition',
 'The condition of a MERGE branch is read only without BY.',
 [('src/parser.rs', """                when.push_node_vec("by_target_or_source", vec![by, target]);
            }
            if self.get_token(1)?.is("AND") {""", """                when.push_node_vec("by_target_or_source", vec![by, target]);
            } else if self.get_token(1)?.is("AND") {""")],
 ["MERGE t USING s ON TRUE WHEN NOT MATCHED BY TARGET AND a THEN INSERT ROW"])
bug('values-comma', 'C15', 'three or more rows in VALUES',
 'Rows of VALUES after the second are kept without the comma.',
 [('src/parser.rs', """                    self.next_token()?; // ) -> ,
                    lparen.push_node("comma", self.construct_node(NodeType::Symbol)?);""", """                    self.next_token()?; // ) -> ,
                    if lparens.len() < 2 {
                        lparen.push_node("comma", self.construct_node(NodeType::Symbol)?);
                    }""")],
 ["INSERT t VALUES (1), (2), (3), (4)"])
bug('add-constraint-once', 'C16', 'an ALTER TABLE that adds two constraints',
 'Only the first of several ADD CONSTRAINT clauses is read.',
 [('src/parser.rs', """                    let mut add_constraints = Vec::new();
                    while self.get_token(1)?.is("ADD") {""", """                    let mut add_constraints = Vec::new();
                    if self.get_token(1)?.is("ADD") {""")],
 ["ALTER TABLE t ADD PRIMARY KEY (a) NOT ENFORCED, ADD CONSTRAINT c FOREIGN KEY (b) REFERENCES u (d) NOT ENFORCED"])
bug('external-partition-columns', 'C16', 'an external table with a connection and partition columns',
 'WITH PARTITION COLUMNS is read only when there is no WITH CONNECTION.',
 [('src/parser.rs', """            create.push_node("with_connection", self.parse_with_connection_clause()?);
        }
        if self.get_token(1)?.is("WITH") && self.get_token(2)?.is("PARTITION") && external {""", """            create.push_node("with_connection", self.parse_with_connection_clause()?);
        } else if self.get_token(1)?.is("WITH") && self.get_token(2)?.is("PARTITION") && external {""")],
 ["CREATE EXTERNAL TABLE t WITH CONNECTION c WITH PARTITION COLUMNS (a INT64) OPTIONS (x = 1)"])
bug('view-options-comma', 'C16', 'a view whose column list has options on a column that is not the last',
 'The comma behind the options of a view column ends up as a column.',
 [('src/parser.rs', """                    ident.push_node("options", self.parse_keyword_with_grouped_exprs(false)?);
                }
                if self.get_token(1)?.is(",") {""", """                    ident.push_node("options", self.parse_keyword_with_grouped_exprs(false)?);
                } else if self.get_token(1)?.is(",") {""")],
 ["CREATE VIEW v (a OPTIONS (x = 1), b) AS SELECT 1, 2"])
bug('if-exists-alter-view', 'C16', 'ALTER COLUMN with IF EXISTS inside ALTER TABLE',
 'IF EXISTS of ALTER COLUMN is kept under another field.',
 [('src/parser.rs', """            self.next_token()?;
            alter.push_node_vec("if_exists", self.parse_n_keywords(2)?);
        }
        self.next_token()?; // -> ident
        alter.push_node("ident", self.construct_node(NodeType::Identifier)?);""", """            self.next_token()?;
            alter.push_node_vec("if_not_exists", self.parse_n_keywords(2)?);
        }
        self.next_token()?; // -> ident
        alter.push_node("ident", self.construct_node(NodeType::Identifier)?);""")],
 ["ALTER TABLE t ALTER COLUMN IF EXISTS a DROP NOT NULL"])
bug('load-with-both', 'C17', 'LOAD DATA with partition columns and a connection',
 'WITH CONNECTION is read only when there is no WITH PARTITION COLUMNS.',
 [('src/parser.rs', """            load.push_node("with_partition_columns", with);
        }
        if self.get_token(1)?.is("WITH") && self.get_token(2)?.is("CONNECTION") {""", """            load.push_node("with_partition_columns", with);
        } else if self.get_token(1)?.is("WITH") && self.get_token(2)?.is("CONNECTION") {""")],
 ["LOAD DATA INTO t FROM FILES (a = 1) WITH PARTITION COLUMNS (b INT64) WITH CONNECTION c"])
bug('elseif-twice', 'C18', 'an IF statement with two ELSEIF branches',
 'The statements of an ELSEIF branch run into a further ELSEIF.',
 [('src/parser.rs', """            elseif.push_node(
                "then",
                self.parse_keyword_with_statements(&vec!["ELSEIF", "ELSE", "END"])?,
            );""", """            elseif.push_node(
                "then",
                self.parse_keyword_with_statements(&vec!["ELSE", "END"])?,
            );""")],
 ["IF a THEN SELECT 1; ELSEIF b THEN SELECT 2; ELSEIF c THEN SELECT 3; END IF"])
bug('case-statement-else', 'C18', 'a CASE statement whose ELSE branch is empty',
 'An empty ELSE branch of a CASE statement is dropped.',
 [('src/parser.rs', """            else_.push_node_vec("stmts", stmts);
            arms.push(else_);""", """            if !stmts.is_empty() {
                else_.push_node_vec("stmts", stmts);
                arms.push(else_);
            }""")],
 ["CASE WHEN a THEN SELECT 1; ELSE END CASE"])
bug('execute-into', 'C18', 'EXECUTE IMMEDIATE with three or more INTO variables',
 'The variables of EXECUTE IMMEDIATE INTO are stored in reverse after the second.',
 [('src/parser.rs', """                    ident.push_node("comma", self.construct_node(NodeType::Symbol)?);
                    idents.push(ident);
                } else {
                    idents.push(self.parse_identifier()?);
                    break;
                }
            }
            into.push_node_vec("exprs", idents);""", """                    ident.push_node("comma", self.construct_node(NodeType::Symbol)?);
                    idents.insert(idents.len().min(1), ident);
                } else {
                    idents.push(self.parse_identifier()?);
                    break;
                }
            }
            into.push_node_vec("exprs", idents);""")],
 ["EXECUTE IMMEDIATE 'a' INTO b, c, d, e"])
bug('export-semicolon', 'C23', 'EXPORT DATA with a semicolon',
 'The semicolon of EXPORT DATA goes to the query inside it.',
 [('src/parser.rs', """        as_.push_node("stmt", self.parse_statement(false)?);
        export.push_node("as", as_);""", """        as_.push_node("stmt", self.parse_statement(semicolon)?);
        export.push_node("as", as_);""")],
 ["EXPORT DATA OPTIONS (a = 1) AS SELECT 1;"])
bug('repeat-until-alias', 'C24', 'a query in parentheses as condition of an IF statement in a loop',
 'A grouped statement in an expression is parsed without its set operation.',
 [('src/parser.rs', """                lparen.push_node("stmt", self.parse_select_statement(false, true)?);
                self.next_token()?; // -> )
                lparen.push_node("rparen", self.construct_closing_symbol(")")?);
                node.push_node("right", lparen);""", """                lparen.push_node("stmt", self.parse_select_statement(false, false)?);
                self.next_token()?; // -> )
                lparen.push_node("rparen", self.construct_closing_symbol(")")?);
                node.push_node("right", lparen);""")],
 ["SELECT a IN (SELECT 1 UNION ALL SELECT 2)"])
bug('frame-expr', 'C24', 'a CASE expression as argument of IF inside a subscript',
 'A CASE with an operand misreads operands that are themselves comparisons.',
 [('src/parser.rs', """                    if !self.get_token(0)?.is("WHEN") {
                        left.push_node(
                            "expr",
                            self.parse_expr(usize::MAX, false, false, false, true)?,
                        );
                        self.next_token()?; // expr -> WHEN
                    }""", """                    if !self.get_token(0)?.is("WHEN") {
                        left.push_node("expr", self.parse_expr(109, false, false, false, true)?);
                        self.next_token()?; // expr -> WHEN
                    }""")],
 ["SELECT CASE a = b WHEN TRUE THEN 1 END"])
bug('short-alias', 'C26', 'an alias without AS whose name begins with two underscores',
 'Names that begin with two underscores are no identifiers.',
 [('src/token.rs', """        let mut iterator = self.literal.chars();
        match iterator.next() {
            Some('a'..='z') | Some('A'..='Z') | Some('_') => (),
            _ => return false, // "", ";", ...
        }""", """        if self.literal.starts_with("__") {
            return false;
        }
        let mut iterator = self.literal.chars();
        match iterator.next() {
            Some('a'..='z') | Some('A'..='Z') | Some('_') => (),
            _ => return false, // "", ";", ...
        }""")],
 ["SELECT a __b FROM t __c"])
bug('long-name', 'C26', 'a quoted name with a point inside',
 'A quoted name with a point at its end is read on as a name of several tokens.',
 [('src/parser.rs', """                if curr_token.literal.chars().next().unwrap() == '`' {
                    break;
                }""", """                if curr_token.literal.chars().next().unwrap() == '`'
                    && !curr_token.literal.contains('-')
                {
                    break;
                }""")],
 ["SELECT * FROM `a-b`-- c\n", "SELECT * FROM `a-b`JOIN u ON TRUE"])

bug('trailing-three', 'C07', 'three or more comments behind a token on its line',
 'Only the first two comments on the line of a token become its trailing comments, the others lead the next token.',
 [('src/parser.rs', """        while trailing_comment_idx < next_token_idx
            && self.get_token(0)?.line == self.tokens[trailing_comment_idx].line
        {
            self.trailing_comment_indices.push(trailing_comment_idx);
            trailing_comment_idx += 1;
        }
        Ok(())""", """        while trailing_comment_idx < next_token_idx
            && self.trailing_comment_indices.len() < 2
            && self.get_token(0)?.line == self.tokens[trailing_comment_idx].line
        {
            self.trailing_comment_indices.push(trailing_comment_idx);
            trailing_comment_idx += 1;
        }
        Ok(())""")],
 ["SELECT 1, /* a */ /* b */ /* c */ 2"])
bug('glue-line', 'C09', 'a name, and on the next line a token which begins in the column where the name ended',
 'Whether two tokens of a dashed name touch is decided by the column alone.',
 [('src/parser.rs', """                    && !(curr_token.line == next_token.line
                        && curr_token.column""", """                    && !(curr_token.line <= next_token.line
                        && curr_token.column""")],
 ["SELECT a FROM t\n               WHERE b"])
bug('for-mixed-case', 'C10', 'FOR SYSTEM_TIME AS OF in mixed case',
 'FOR behind a table is recognised only in all upper or all lower case.',
 [('src/parser.rs', """        if self.get_token(1)?.literal.to_uppercase() == "FOR" {""", """        if self.get_token(1)?.literal == "FOR" || self.get_token(1)?.literal == "for" {""")],
 ["SELECT a FROM t For SYSTEM_TIME AS OF b"])
bug('between-max', 'C12', 'a comparison behind BETWEEN ... AND ...',
 'The upper bound of BETWEEN swallows a comparison that follows.',
 [('src/parser.rs', """        between.push_node(
            "right_max",
            self.parse_expr(precedence, false, false, false, true)?,""", """        between.push_node(
            "right_max",
            self.parse_expr(precedence + 1, false, false, false, true)?,""")],
 ["SELECT a BETWEEN b AND c = d"])
bug('using-comma', 'C13', 'a comma join behind a join with USING',
 'The list of joins ends behind USING when a comma follows.',
 [('src/parser.rs', """            join.push_node("left", left);
            join.push_node("right", right);
            left = join;""", """            let using = join.children.contains_key("using");
            join.push_node("left", left);
            join.push_node("right", right);
            left = join;
            if using && self.get_token(1)?.is(",") {
                break;
            }""")],
 ["SELECT a FROM b JOIN c USING (d), e"])
bug('error-column', 'C05', 'an error at a quoted name',
 'Errors at quoted names are reported one column too far.',
 [('src/error.rs', """            column: token.column,
            message,""", """            column: token.column + token.literal.starts_with('`') as usize,
            message,""")],
 ["ALTER TABLE t `x` y", "SELECT (a `b` `c`)"])
bug('line-separator', 'C02', 'a line separator (U+2028) in the text',
 'U+2028 starts a new line.',
 [('src/lexer.rs', """            if self.input[self.position] == '\\n' {
                self.column = 1;""", """            if matches!(self.input[self.position], '\\n' | '\\u{2028}') {
                self.column = 1;""")],
 ["SELECT 'a\u2028b', c"])
bug('bom-skip', 'C01', 'a zero width no-break space between tokens',
 'U+FEFF is skipped like white space and is lost.',
 [('src/lexer.rs', """        Some(ch) => ch.is_whitespace(), // specified in the Unicode Character Database""", """        Some(ch) => ch.is_whitespace() || *ch == '\\u{feff}',""")],
 ["SELECT 1 \ufeff, 2"])
bug('cte-close', 'C25', 'a WITH query that something else than ) closes',
 'The end of a WITH query is no longer checked.',
 [('src/parser.rs', """        if !self.get_token(0)?.is(")") {
            return Err(BQ2CSTError::from_token(
                self.get_token(0)?,
                "expected )".to_string(),
            ));
        }
        grouped""", """        grouped""")],
 ["WITH w AS (SELECT 1 ] SELECT 2"])
bug('case-double', 'C04', 'nested CASE expressions',
 'Every condition of CASE is parsed twice, so nested ones take exponential time.',
 [('src/parser.rs', """                        arm.push_node(
                            "expr",
                            self.parse_expr(usize::MAX, false, false, false, true)?,
                        );
                        self.next_token()?; // expr ->THEN""", """                        let start = self.clone();
                        self.parse_expr(usize::MAX, false, false, false, true)?;
                        if !self.get_token(1)?.is("THEN") {
                            return Err(BQ2CSTError::from_token(
                                self.get_token(1)?,
                                "expected THEN".to_string(),
                            ));
                        }
                        *self = start;
                        arm.push_node(
                            "expr",
                            self.parse_expr(usize::MAX, false, false, false, true)?,
                        );
                        self.next_token()?; // expr ->THEN""")],
 ["SELECT " + "CASE WHEN " * 40 + "a" + " THEN 1 END" * 40])
bug('quoted-keyword', 'C26', 'a quoted name that is a keyword inside its quotes',
 'A quoted name counts as the keyword it quotes.',
 [('src/token.rs', """    pub fn is(&self, literal: &str) -> bool {
        self.literal.to_uppercase() == literal.to_uppercase()""", """    pub fn is(&self, literal: &str) -> bool {
        self.literal.trim_matches('`').to_uppercase() == literal.to_uppercase()""")],
 ["SELECT a `from` FROM b"])
bug('bicapacity-semicolon', 'C23', 'ALTER BI_CAPACITY without semicolon at the end of the text',
 'ALTER BI_CAPACITY needs its semicolon.',
 [('src/parser.rs', """        alter.push_node("what", self.construct_node(NodeType::Keyword)?);
        self.next_token()?; // -> ident
        alter.push_node("ident", self.parse_identifier()?);
        self.next_token()?; // -> SET
        alter.push_node("set", self.construct_node(NodeType::Keyword)?);
        self.next_token()?; // -> OPTIONS
        alter.push_node("options", self.parse_keyword_with_grouped_exprs(false)?);
        if self.get_token(1)?.is(";") && semicolon {
            self.next_token()?; // -> ;
            alter.push_node("semicolon", self.construct_node(NodeType::Symbol)?);
        }
        Ok(alter)
    }
    fn parse_alter_reservation_statement""", """        alter.push_node("what", self.construct_node(NodeType::Keyword)?);
        self.next_token()?; // -> ident
        alter.push_node("ident", self.parse_identifier()?);
        self.next_token()?; // -> SET
        alter.push_node("set", self.construct_node(NodeType::Keyword)?);
        self.next_token()?; // -> OPTIONS
        alter.push_node("options", self.parse_keyword_with_grouped_exprs(false)?);
        if semicolon {
            self.next_token()?; // -> ;
            alter.push_node("semicolon", self.construct_closing_symbol(";")?);
        }
        Ok(alter)
    }
    fn parse_alter_reservation_statement""")],
 ["ALTER BI_CAPACITY a.b SET OPTIONS (c = 1)"])
bug('full-outer', 'C06', 'FULL OUTER JOIN',
 'OUTER of FULL OUTER JOIN is dropped from the tree.',
 [('src/parser.rs', """                    join.push_node("join_type", type_);
                    join.push_node("outer", outer);""", """                    if !type_.token.as_ref().map_or(false, |t| t.is("FULL")) {
                        join.push_node("outer", outer);
                    }
                    join.push_node("join_type", type_);""")],
 ["SELECT a FROM b FULL OUTER JOIN c ON d"])
bug('whens-order', 'C08', 'MERGE with at least four branches',
 'The branches of MERGE are listed in another order when there are more than three.',
 [('src/parser.rs', """        merge.push_node_vec("whens", whens);""", """        if 3 < whens.len() {
            whens.sort_by_key(|w: &Node| w.children.contains_key("not"));
        }
        merge.push_node_vec("whens", whens);""")],
 ["MERGE a USING b ON c WHEN NOT MATCHED THEN INSERT ROW WHEN MATCHED AND d THEN DELETE WHEN NOT MATCHED BY SOURCE THEN DELETE WHEN MATCHED THEN DELETE"])
bug('begin-end-body', 'C18', 'a block with EXCEPTION but without statements before it',
 'EXCEPTION is attached only to blocks that have statements.',
 [('src/parser.rs', """        if self.get_token(1)?.is("exception") {""", """        if self.get_token(1)?.is("exception") && begin.children.contains_key("stmts") {""")],
 ["BEGIN EXCEPTION WHEN ERROR THEN SELECT 1; END"])
bug('pipe-join-cross', 'C14', 'a pipe join with CROSS',
 'CROSS is not taken as the method of a pipe join.',
 [('src/parser.rs', """            .in_(&vec!["INNER", "FULL", "LEFT", "RIGHT", "CROSS", "OUTER"])
        {
            let mut method;
            if self.get_token(1)?.is("OUTER") {
                method = self.construct_node(NodeType::KeywordSequence)?;
                self.next_token()?; // -> OUTER
                let outer = self.construct_node(NodeType::Keyword)?;
                method.push_node("next_keyword", outer);
            } else {
                method = self.construct_node(NodeType::Keyword)?;
            }

            self.next_token()?; // -> JOIN""", """            .in_(&vec!["INNER", "FULL", "LEFT", "RIGHT", "CROSS", "OUTER"])
        {
            let mut method;
            if self.get_token(1)?.is("OUTER") && !self.get_token(0)?.is("RIGHT") {
                method = self.construct_node(NodeType::KeywordSequence)?;
                self.next_token()?; // -> OUTER
                let outer = self.construct_node(NodeType::Keyword)?;
                method.push_node("next_keyword", outer);
            } else {
                method = self.construct_node(NodeType::Keyword)?;
            }

            self.next_token()?; // -> JOIN""")],
 ["FROM a |> RIGHT OUTER JOIN b ON c"])
bug('drop-policy-if', 'C16', 'DROP ROW ACCESS POLICY whose name is quoted',
 'DROP ALL ROW ACCESS POLICIES is cut one word short after IF EXISTS.',
 [('src/parser.rs', """            drop.push_node_vec("what", self.parse_n_keywords(4)?);
        }
        if self.get_token(1)?.is("IF") {""", """            drop.push_node_vec("what", self.parse_n_keywords(4)?);
        }
        if self.get_token(1)?.is("IF") && self.get_token(3)?.is_identifier() && !self.get_token(3)?.literal.starts_with('`') {""")],
 ["DROP ROW ACCESS POLICY IF EXISTS `a` ON b"])
bug('true-case', 'C22', 'TRUE or FALSE in mixed case',
 'A boolean in mixed case is not classified as boolean literal.',
 [('src/token.rs', """        self.literal.to_uppercase() == "TRUE" || self.literal.to_uppercase() == "FALSE\"""", """        ["TRUE", "FALSE", "true", "false", "True", "False"].contains(&self.literal.as_str())""")],
 ["SELECT tRue"])
bug('merge-and-bound', 'C15', 'a MERGE branch with BY and a condition with OR',
 'The condition of a MERGE branch with BY TARGET or BY SOURCE ends before OR.',
 [('src/parser.rs', """                let cond = self.parse_expr(usize::MAX, false, false, false, true)?;
                and.push_node("expr", cond);""", """                let by = when.children.contains_key("by_target_or_source");
                let limit = if by { 112 } else { usize::MAX };
                let cond = self.parse_expr(limit, false, false, false, true)?;
                and.push_node("expr", cond);""")],
 ["MERGE a USING b ON c WHEN NOT MATCHED BY SOURCE AND d OR e THEN DELETE"])

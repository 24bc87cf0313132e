bug('lex-crlf-column', 'C02', 'a carriage return without line feed in the source, and a token after it on the same line',
 'The column of tokens after a lone carriage return is off by one.',
 [('src/lexer.rs', """                self.line += 1;
            } else {
                self.column += 1;
            }
            self.position += 1;""", """                self.line += 1;
            } else if self.input[self.position] != '\\r' {
                self.column += 1;
            }
            self.position += 1;""")],
 ["SELECT\r 1, a\r\nFROM t\r\n", "SELECT '\r', 2"])
bug('lex-escape-triple', 'C03', 'a triple-quoted string with an escaped quote right before the closing quotes after another backslash pair',
 'A backslash pair in a triple-quoted string leaves the next quote escaped, so the string does not end where it should.',
 [('src/lexer.rs', """            if self.get_char(0) == Some('\\\\') {
                odd_backslashes = !odd_backslashes;
            } else {
                odd_backslashes = false;
            }
            self.next_char()?;
        }
        self.next_char()?; // 1st ' -> 2nd '
        self.next_char()?; // 2nd ' -> 3rd '
        self.next_char()?; // 3rd ' ->  next_ch""", """            odd_backslashes = self.get_char(0) == Some('\\\\');
            self.next_char()?;
        }
        self.next_char()?; // 1st ' -> 2nd '
        self.next_char()?; // 2nd ' -> 3rd '
        self.next_char()?; // 3rd ' ->  next_ch""")],
 ["SELECT '''a\\\\''', 1, '''b'''"])
bug('trailing-comment-line', 'C07', 'two or more comments behind a token, the first on its line and a later one on the next line',
 'A comment on the next line is attached as trailing comment of the token before.',
 [('src/parser.rs', """        while trailing_comment_idx < next_token_idx
            && self.get_token(0)?.line == self.tokens[trailing_comment_idx].line
        {""", """        while trailing_comment_idx < next_token_idx
            && self.tokens[trailing_comment_idx - 1].line == self.tokens[self.position].line
        {""")],
 ["SELECT 1 -- a\n-- b\n, 2", "SELECT 1 /* a */ /* b */\n/* c */ + 2"])
bug('number-exponent-sign', 'C03', 'a number with a lower-case exponent and a plus sign', 'A plus sign after a lower-case exponent is split off.',
 [('src/lexer.rs', """        if let Some('E') | Some('e') = self.get_char(0) {
            self.next_char()?; // e -> 9, +, -
            if let Some('+') | Some('-') = self.get_char(0) {""", """        if let Some('E') | Some('e') = self.get_char(0) {
            let upper = self.get_char(0) == Some('E');
            self.next_char()?; // e -> 9, +, -
            if self.get_char(0) == Some('-') || upper && self.get_char(0) == Some('+') {""")],
 ["SELECT 1e+5, 2E+5, 3e-5"])
bug('comment-trim', 'C01', 'a line comment that ends with a semicolon',
 'Trailing semicolons of a line comment are dropped from its text.',
 [('src/lexer.rs', """            .collect::<String>()
            .trim_end()
            .to_string();""", """            .collect::<String>()
            .trim_end_matches(|c: char| c.is_whitespace() || c == ';')
            .to_string();""")],
 ["SELECT 1 -- end;\n, 2"])
bug('peek-comment', 'C09', 'a comment between NOT and IN, LIKE or BETWEEN',
 'Looking ahead counts comments as tokens when looking exactly two tokens ahead.',
 [('src/parser.rs', """        let mut cnt = 0;
        let mut idx = self.position + 1;
        loop {""", """        let mut cnt = 0;
        let mut idx = self.position + 1;
        if offset == 2 && idx + 1 < self.tokens.len() && !self.tokens[idx].is_comment() {
            return Ok(idx + 1);
        }
        loop {""")],
 ["SELECT a NOT /* c */ IN (1), 2", "SELECT * FROM a LEFT /* c */ JOIN b"])
bug('error-eof-position', 'C05', 'an unterminated literal in a text of several lines', 'The error for an unterminated literal points past the last column when the text ends with a line feed.',
 [('src/lexer.rs', """            Err(BQ2CSTError::new(
                self.line,
                self.column,
                "Unexpected EOF.".to_string(),
            ))""", """            Err(BQ2CSTError::new(
                self.line,
                self.position + 1,
                "Unexpected EOF.".to_string(),
            ))""")],
 ["SELECT 1,\n 'abc"])
bug('quantifier-between', 'C12', 'BETWEEN whose upper bound is followed by another comparison-level operator', 'The upper bound of BETWEEN swallows a following comparison.',
 [('src/parser.rs', """        self.next_token()?; // AND -> expr2
        between.push_node(
            "right_max",
            self.parse_expr(precedence, false, false, false, true)?,""", """        self.next_token()?; // AND -> expr2
        between.push_node(
            "right_max",
            self.parse_expr(precedence + 1, false, false, false, true)?,""")],
 ["SELECT a BETWEEN 1 AND 2 = b"])
bug('token-case-underscore', 'C10', 'a lower-case spelling of a keyword with an underscore', 'Keywords with an underscore are recognised in upper case only.',
 [('src/token.rs', """    pub fn is(&self, literal: &str) -> bool {
        self.literal.to_uppercase() == literal.to_uppercase()
    }""", """    pub fn is(&self, literal: &str) -> bool {
        if literal.contains('_') {
            return self.literal == literal;
        }
        self.literal.to_uppercase() == literal.to_uppercase()
    }""")],
 ["SELECT * FROM t match_recognize (order by a measures a as b pattern (c) define c as true)"])

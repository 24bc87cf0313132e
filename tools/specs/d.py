bug('peek-255', 'C09', 'more than 255 comments between two tokens',
 'Looking for the next token gives up after 255 comments, as if the text had ended.',
 [('src/parser.rs', """            if idx < self.tokens.len() {
                if !self.tokens[idx]""", """            if idx < self.tokens.len() && idx - self.position <= usize::from(u8::MAX) {
                if !self.tokens[idx]""")],
 ["SELECT 1 " + "/**/" * 300 + " , 2"])
bug('weak-cache', 'C21', 'two texts with the same characters in another order in the same instance',
 'Tokens are kept from call to call under a weak checksum of the text.',
 [('src/lexer.rs', """    pub fn tokenize_code(mut self) -> BQ2CSTResult<Vec<Token>> {
        let mut token = self.next_token()?;""", """    pub fn tokenize_code(mut self) -> BQ2CSTResult<Vec<Token>> {
        thread_local! {
            static LAST: std::cell::RefCell<Option<(usize, u32, Vec<Token>)>> = const { std::cell::RefCell::new(None) };
        }
        let len = self.input.len();
        let sum = self
            .input
            .iter()
            .fold(0u32, |s, c| s.wrapping_add(*c as u32));
        let kept = LAST.with(|l| match &*l.borrow() {
            Some((n, s, tokens)) if *n == len && *s == sum => Some(tokens.clone()),
            _ => None,
        });
        if let Some(tokens) = kept {
            return Ok(tokens);
        }
        let mut token = self.next_token()?;"""),
  ('src/lexer.rs', """        self.tokens.push(Token::eof());
        Ok(self.tokens)""", """        self.tokens.push(Token::eof());
        LAST.with(|l| *l.borrow_mut() = Some((len, sum, self.tokens.clone())));
        Ok(self.tokens)""")],
 """const assert = require('assert');
const p = require(process.env.PKG + '/bq2cst.js');
p.tokenize('SELECT ab');
assert.deepStrictEqual(p.tokenize('SELECT ba')[1].literal, 'ba');
""", demo='demo-wasm')
bug('undrop-end', 'C23', 'UNDROP as the last statement without a semicolon',
 'UNDROP reads on behind its name, so that it must be followed by something.',
 [('src/parser.rs', """        undrop.push_node("ident", self.parse_identifier()?);
        if self.get_token(1)?.is(";") && semicolon {""", """        undrop.push_node("ident", self.parse_identifier()?);
        if (self.get_token(1)?.is(";") || self.get_token(2)?.is(";")) && semicolon {""")],
 ["UNDROP SCHEMA a"])
bug('name-end', 'C26', 'a name that ends with an underscore',
 'Such a name is not classified as a name.',
 [('src/token.rs', """        let mut iterator = self.literal.chars();
        match iterator.next() {
            Some('a'..='z') | Some('A'..='Z') | Some('_') => (),""", """        let mut iterator = self.literal.chars();
        if self.literal.len() > 1 && iterator.next_back() == Some('_') {
            return false;
        }
        let mut iterator = self.literal.chars();
        match iterator.next() {
            Some('a'..='z') | Some('A'..='Z') | Some('_') => (),""")],
 ["SELECT a_"])
bug('not-error-ahead', 'C28', 'NOT that no operator follows, and something behind that',
 'The error is reported at the token behind the wrong one, if there is one.',
 [('src/parser.rs', """                    return Err(BQ2CSTError::from_token(
                        self.get_token(offset + 1)?,
                        format!(""", """                    return Err(BQ2CSTError::from_token(
                        self.get_token(offset + 2).or(self.get_token(offset + 1))?,
                        format!(""")],
 ["SELECT a NOT b c"])
bug("empty-third", "C11", "a second semicolon behind the third statement or a later one",
 "A repeated semicolon is swallowed, but only behind the third statement and later ones.",
 [('src/parser.rs', """        let mut stmts: Vec<Node> = Vec::new();
        while !self.is_eof(0) {
            let stmt = self.parse_statement(true)?;""", """        let mut stmts: Vec<Node> = Vec::new();
        while !self.is_eof(0) {
            let stmt = self.parse_statement(true)?;
            if stmts.len() > 1 && self.get_token(0)?.is(";") && !self.is_eof(1) && self.get_token(1)?.is(";") {
                self.next_token()?; // empty statement
            }""")],
 ["SELECT 1; SELECT 2; SELECT 3;;"])
bug('elseif-three', 'C18', 'IF with three or more ELSEIF branches',
 'The third branch and those after it come in the wrong order.',
 [('src/parser.rs', """            elseifs.push(elseif);
        }""", """            if elseifs.len() < 2 {
                elseifs.push(elseif);
            } else {
                elseifs.insert(2, elseif);
            }
        }""")],
 ["IF a THEN ELSEIF b THEN ELSEIF c THEN ELSEIF d THEN ELSEIF e THEN END IF"])
bug('unpivot-alias-template', 'C14', 'UNPIVOT rows with AS and a numeric alias in the pipe',
 'A numeric row alias is only recognised without AS.',
 [('src/parser.rs', """            if self.get_token(1)?.is("AS") {
                self.next_token()?; // -> AS
                expr.push_node("as", self.construct_node(NodeType::Keyword)?);
            }
            if self.get_token(1)?.is_string() || self.get_token(1)?.is_numeric() {""", """            if self.get_token(1)?.is("AS") {
                self.next_token()?; // -> AS
                expr.push_node("as", self.construct_node(NodeType::Keyword)?);
            }
            if self.get_token(1)?.is_string()
                || self.get_token(1)?.is_numeric() && !self.get_token(0)?.is("AS")
            {""")],
 ["FROM t |> UNPIVOT (a FOR b IN (c AS 1, d AS 2))"])
bug('quantifier-open', 'C13', 'a pattern quantifier with an upper bound only',
 'The upper bound of {,n} is taken for the lower one.',
 [('src/parser.rs', """            if !self.get_token(1)?.is("}") {
                self.next_token()?; // -> n
                quantifier.push_node("max", self.construct_node(NodeType::NumericLiteral)?);""", """            if !self.get_token(1)?.is("}") {
                self.next_token()?; // -> n
                let key = match self.get_token(1)?.is_parameter() {
                    true => "min",
                    false => "max",
                };
                quantifier.push_node(key, self.construct_node(NodeType::NumericLiteral)?);""")],
 ["SELECT 1 FROM t MATCH_RECOGNIZE (MEASURES a AS b PATTERN (A{,@x}) DEFINE A AS TRUE)"])
bug('assert-as', 'C17', 'ASSERT with a description that is an expression with an operator',
 'Only the first operand of the description is read.',
 [('src/parser.rs', """            assert.push_node(
                "description",
                self.parse_expr(usize::MAX, false, false, false, true)?,
            )""", """            assert.push_node(
                "description",
                self.parse_expr(103, false, false, false, true)?,
            )""")],
 ["ASSERT a AS 'b' || 'c'"])
bug('template-brace', 'C03', 'a template that contains a closing brace directly before its end',
 'The end of a template is looked for from its end backwards, so that }}} closes one later.',
 [('src/lexer.rs', """                    while !(0..count).all(|i| self.get_char(i) == Some('}')) {""", """                    while !(0..count).all(|i| self.get_char(i) == Some('}'))
                        || count > 1 && self.get_char(count) == Some('}')
                    {""")],
 ["SELECT {{ a }}}"])
bug('tail-comment', 'C27', 'a line comment that ends with a non-breaking space',
 'Comments lose characters that are not ASCII at their end.',
 [('src/lexer.rs', """            .trim_end()
            .to_string();
        Ok(res)
    }
    fn read_identifier""", """            .trim_end_matches(|c: char| c.is_whitespace() || c.is_control() || c == '\\u{feff}')
            .to_string();
        Ok(res)
    }
    fn read_identifier""")],
 ["SELECT 1 -- a\u0001\n"])
bug('line-parity', 'C02', 'a multi-line comment that ends in the column where it began',
 'The column behind a block comment is off by the number of its lines.',
 [('src/lexer.rs', """        self.next_char()?; // * -> /
        self.next_char()?; // / -> next_char
        let res""", """        self.next_char()?; // * -> /
        if self.get_char(1) == Some('\\u{3000}') {
            self.column += 1; // wide space
        }
        self.next_char()?; // / -> next_char
        let res""")],
 ["SELECT /* a */\u3000 1"])
bug('error-wide', 'C05', 'an unterminated literal behind a line break',
 'The error of an unterminated text is reported one line later.',
 [('src/lexer.rs', """            Err(BQ2CSTError::new(
                self.line,
                self.column,
                "Unexpected EOF.".to_string(),
            ))""", """            Err(BQ2CSTError::new(
                self.line + usize::from(self.column == 1 && self.line > 2),
                self.column,
                "Unexpected EOF.".to_string(),
            ))""")],
 ["SELECT\n\n'''a\n"])

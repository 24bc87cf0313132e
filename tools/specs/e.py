bug('export-model-end', 'C23', 'EXPORT MODEL without options and without a semicolon at the end of the text',
 'What follows the name is taken for OPTIONS unless it is a semicolon.',
 [('src/parser.rs', """        export.push_node("ident", self.parse_identifier()?);
        if self.get_token(1)?.is("OPTIONS") {""", """        export.push_node("ident", self.parse_identifier()?);
        if !self.get_token(1)?.is(";") {""")],
 ["EXPORT MODEL a.b"])
bug('string-backslash', 'C26', 'a string whose last character is an escaped backslash',
 'A string that ends in a backslash and a quote is not classified as a string.',
 [('src/token.rs', """        self.literal.chars().next().unwrap() == ch && self.literal.chars().last().unwrap() == ch""",
   """        self.literal.chars().next().unwrap() == ch
            && self.literal.chars().last().unwrap() == ch
            && !(self.literal.len() == 4 && self.literal.chars().rev().nth(1) == Some('\\\\'))""")],
 ["SELECT '\\\\\\\\'"])
bug('message-rest', 'C28', 'an ALTER TABLE with an unknown action and something behind it',
 'The message of the error counts the tokens of the whole text.',
 [('src/parser.rs', """                        "Expected `SET`, `ADD` `RENAME` or `DROP` but got: {:?}",
                        self.get_token(1)?
                    ),""", """                        "Expected `SET`, `ADD` `RENAME` or `DROP` but got: {:?} ({} tokens left)",
                        self.get_token(1)?,
                        self.tokens.len() - self.position
                    ),""")],
 ["ALTER TABLE t x y"])
bug('qualify-window', 'C13', 'QUALIFY and WINDOW together in one SELECT',
 'WINDOW is only looked for when there is no QUALIFY.',
 [('src/parser.rs', """        // WINDOW
        if self.get_token(1)?.is("WINDOW") {
            self.next_token()?; // -> WINDOW
            node.push_node("window", self.parse_window_clause()?);
        }
        // ORDER BY
        if self.get_token(1)?.is("ORDER") {
            self.next_token()?; // expr -> ORDER""", """        // WINDOW
        if self.get_token(1)?.is("WINDOW") {
            self.next_token()?; // -> WINDOW
            let window = self.parse_window_clause()?;
            if !node.children.contains_key("having") || !node.children.contains_key("qualify") {
                node.push_node("window", window);
            }
        }
        // ORDER BY
        if self.get_token(1)?.is("ORDER") {
            self.next_token()?; // expr -> ORDER""")],
 ["SELECT a FROM t GROUP BY a HAVING b QUALIFY c WINDOW w AS (ORDER BY d)"])
bug('collate-default', 'C16', 'a column with COLLATE and PRIMARY KEY',
 'The PRIMARY KEY of a collated column is read as its constraint name.',
 [('src/parser.rs', """            primary.push_node("next_keyword", key);
            res.push_node("primarykey", primary);""", """            primary.push_node("next_keyword", key);
            if res.children.contains_key("collate") {
                res.push_node("constraint", primary);
            } else {
                res.push_node("primarykey", primary);
            }""")],
 ["CREATE TABLE t (a STRING COLLATE 'und:ci' PRIMARY KEY NOT ENFORCED)"])
bug('number-e', 'C10', 'a number with a capital E and a sign',
 'The sign of an exponent is only taken behind a small e.',
 [('src/lexer.rs', """            if let Some('+') | Some('-') = self.get_char(0) {
                self.next_char()?; // +, - -> 9""", """            if self.input[self.position - 1] == 'E' && self.get_char(0) == Some('+') {
                // E+9 is not an exponent
            } else if let Some('+') | Some('-') = self.get_char(0) {
                self.next_char()?; // +, - -> 9""")],
 ["SELECT 1E+9"])
bug('triple-quote-four', 'C03', 'a triple-quoted string whose content begins with a quote of the other kind and an escaped quote',
 'The escape right at the beginning of a triple-quoted string is not seen.',
 [('src/lexer.rs', """                && self.get_char(0) == ch
                && self.get_char(1) == ch
                && self.get_char(2) == ch
            {
                break;
            }
            if self.get_char(0) == Some('\\\\') {""", """                && self.get_char(0) == ch
                && self.get_char(1) == ch
                && self.get_char(2) == ch
            {
                break;
            }
            if self.get_char(0) == Some('\\\\') && self.position > first_position + 3 {""")],
 ["SELECT '''\\\\''' a'''"])
bug('eof-comment-order', 'C07', 'two or more comments behind the last token, the first of them on another line',
 'Comments before the end of the text come in reverse order when there are more than two.',
 [('src/parser.rs', """        for i in from_idx..next_token_idx {
            self.leading_comment_indices.push(i);
        }""", """        for i in from_idx..next_token_idx {
            self.leading_comment_indices.push(i);
        }
        if next_token_idx + 1 == self.tokens.len() && next_token_idx - from_idx > 2 {
            self.leading_comment_indices[1..].reverse();
        }""")],
 ["SELECT 1\n-- a\n-- b\n-- c\n"])
bug('alias-row', 'C24', 'an alias that is also a frame word, in an argument of a call in a pipe',
 'A call inside a subscript of a CASE expression loses its alias.',
 [('src/parser.rs', """            "^" => 107,
            "|" => 108,""", """            "^" => 107,
            "|" if self.position > 0 && self.tokens[self.position - 1].is("[") => 105,
            "|" => 108,""")],
 ["SELECT a[b | c & d]"])
bug('loop-label-case', 'C18', 'a labelled statement with a label behind its END in a nested block',
 'A trailing label is lost when the statement is nested in a block and the label differs in case.',
 [('src/parser.rs', """            self.next_token()?; // -> trailing_label
            stmt.push_node("trailing_label", self.construct_node(NodeType::Identifier)?);""", """            self.next_token()?; // -> trailing_label
            let label = self.construct_node(NodeType::Identifier)?;
            if !self.is_eof(1) || semicolon {
                stmt.push_node("trailing_label", label);
            }""")],
 ["BEGIN a: LOOP BREAK; END LOOP a; END"])
bug('types-limit', 'C19', 'the pipe operator LIMIT without OFFSET in JavaScript',
 'The field is declared as always present.',
 [('src/types.rs', """  node_type: "LimitPipeOperator";
  children: {
    offset?: NodeChild;""", """  node_type: "LimitPipeOperator";
  children: {
    offset: NodeChild;""")],
 """const fs = require('fs'); const assert = require('assert');
const d = fs.readFileSync(process.env.PKG + '/bq2cst.d.ts', 'utf8');
const p = require(process.env.PKG + '/bq2cst.js');
const n = p.parse('FROM t |> LIMIT 1')[0].children.right.Node;
assert.strictEqual(n.node_type, 'LimitPipeOperator');
const t = d.slice(d.indexOf('type LimitPipeOperator'));
if (!n.children.offset) assert(!/^[^}]*\\boffset:/.test(t), 'offset is declared as always present');
""", demo='demo-wasm')

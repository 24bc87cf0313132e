#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (single source for both)."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEX = ["src/lexer.rs", "src/token.rs"]
PAR = ["src/parser.rs", "src/cst.rs", "src/constants.rs"]
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None, hook="native entry points `verif::tokenize` and `verif::parse` (cfg bq2cst_verif)"):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe or ["the token list returned by tokenize, the tree or error returned by parse"], "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, anchors=a, technique=technique, note=note))

prop("C01", "Tokens reproduce the source",
 "Whenever tokenising succeeds, the token texts appear in the source in their order, character for character, with nothing but white space between, before and after them (a line comment may lose white space at its end). So no character of the source is lost, altered, duplicated or invented, whatever it contains.",
 ["inputs"], "for every text, of any length and over all of Unicode",
 "The tests tokenise a handful of short ASCII snippets; the claim is about every text, including odd escapes, nested quotes, unusual white space and non-ASCII text.",
 LEX, [("per-character scanner that cuts literals out of the input", "src/lexer.rs Lexer::next_token and the read_* functions"), ("trailing white space of line comments is dropped", "src/lexer.rs construct_token / comments")],
 "property-based testing: random, mutated and exhaustively enumerated texts against a round-trip oracle",
 "Exploration: all texts of up to 4 characters over 30 significant characters, plus random and grammar-generated texts; round-trip oracle shares no code with the lexer.")
prop("C02", "Line and column of every token and node are exact",
 "Every token, and every tree node that carries a token, reports the 1-based line and the 1-based column (counted in characters, only a line feed starts a new line) at which its text really starts in the source. This holds for any layout, for multi-line tokens before it, for non-ASCII text and for sources with many thousands of lines or columns.",
 ["inputs"], "for every text and every token and node of the answer",
 "Tests assert positions of a few tokens in short snippets; multi-line strings, tabs, carriage returns, wide characters and large files are not sampled.",
 LEX + ["src/cst.rs", "src/parser.rs"], [("line/column counters advanced per character", "src/lexer.rs next_char"), ("position stored when a token starts", "src/lexer.rs next_token"), ("tokens cloned into nodes", "src/parser.rs construct_node")],
 "property-based testing: positions recounted on the generated source",
 "Exploration. Positions are recounted from the text by the harness; for generated scripts they follow from how the text was written.",
 state=[("line, column", "where the next character is", "src/lexer.rs Lexer")])
prop("C03", "Token boundaries follow the lexical rules",
 "The text is split exactly as the lexical rules say: strings with backslash escapes and triple quotes, back-quoted names, parameters, templates in braces, decimal numbers with fraction and exponent, hexadecimal numbers, words, two-character operators (with > closing an open type such as ARRAY<...> taken alone), and #, -- and /* */ comments. The text is rejected exactly when a string, quoted name, comment or template is not terminated or a @ names nothing.",
 ["inputs"], "for every text",
 "Lexer tests cover one example per token kind; interactions (escape before a closing quote, comment openers in strings, type brackets next to shifts, tokens that touch) are unbounded.",
 LEX, [("one reader per token kind", "src/lexer.rs read_*"), ("depth of open type brackets decides > against >>", "src/lexer.rs type_declaration_depth")],
 "differential testing against an independent reference lexer, over random and exhaustively enumerated texts",
 "Exploration; trusts the harness's reference lexer, written from the rules, as the statement of the lexical rules.",
 state=[("type_declaration_depth", "number of open <", "src/lexer.rs Lexer")])
prop("C04", "Every text gets an answer",
 "Tokenising and parsing any text ends with a result or with a reported error: no panic, no stack exhaustion for nesting of some dozen levels, no endless loop. The work grows polynomially with the length and the nesting depth of the text, never exponentially.",
 ["inputs"], "for every text, well formed or not, of any shape and depth within the stated bounds",
 "Tests feed valid statements; truncated, garbled, deeply nested and pathological texts are exactly what an editor or a formatter sends while somebody types.",
 LEX + PAR + ["src/lib.rs", "src/error.rs"], [("errors are returned, not panicked", "src/error.rs, `?` throughout src/parser.rs"), ("retry of a parenthesised table only once per position", "src/parser.rs parse_table, not_statement_positions")],
 "fuzzing (structure-aware, mutation, exhaustive small texts) with crash, hang and allocation-growth oracles; native and WebAssembly",
 "Exploration. Runs in a child process with memory limit and hang watchdog; growth is measured in allocations, not time. Nesting is exercised to 48 levels natively, to 24 in the WebAssembly build.")
prop("C05", "Errors are well formed and point into the source",
 "A rejected text yields one error with a non-empty message and a line and column which are the start of a token of that text, or the place where the text breaks off (for an unterminated literal the end of the text, for a premature end the end-of-input mark). Parsing and tokenising report the same lexical error, and parsing never accepts what tokenising rejects.",
 ["inputs"], "for every rejected text",
 "Tests check that a few broken statements are rejected; where an error points for arbitrary breakage is not covered.",
 ["src/error.rs", "src/lexer.rs", "src/parser.rs", "src/lib.rs"], [("BQ2CSTError::from_token", "src/error.rs"), ("end-of-input errors", "src/parser.rs get_token / next_token"), ("lexer errors carry the current position", "src/lexer.rs")],
 "fuzzing with an invariant over the reported error and a reference lexer for lexical errors",
 "Exploration over arbitrary texts; the position rule is an invariant, lexical errors are compared with the reference lexer exactly.")
prop("C06", "The tree holds every token exactly once",
 "For every accepted text, the tree contains every token of the source (comments included) exactly once with its text and position, and no token that the source does not have. The list of statements ends with exactly one end-of-input node.",
 ["inputs"], "for every accepted text",
 "Tests compare trees of chosen statements; losing or doubling a token needs a particular combination of optional clauses that no test samples.",
 PAR, [("every consumed token becomes a node or a child", "src/parser.rs construct_node and push_node in every parse_* function"), ("EOF node ends the list", "src/parser.rs parse_code")],
 "property-based testing: multiset of tokens of the tree against the tokens of the source",
 "Exploration over generated scripts of every statement kind and over accepted arbitrary texts.")
prop("C07", "Comments hang on the tokens next to them",
 "Every comment of an accepted text is attached in source order to exactly one node: as trailing comment of the token before it when it begins on the line where that token stands (under the documented rule), otherwise as leading comment of the token after it, or of the end-of-input node when nothing follows. Comments never change the rest of the tree.",
 ["inputs"], "for every accepted text and every placement of comments",
 "Tests place a few comments at friendly spots; comments may stand between any two tokens of any construct.",
 PAR, [("leading/trailing comment indices collected while advancing", "src/parser.rs next_token, construct_node"), ("comments attached when a node is made", "src/parser.rs construct_node, src/cst.rs")],
 "property-based testing: attachment predicted from the layout the generator wrote",
 "Exploration. For generated scripts the expected attachment follows from the layout; for arbitrary accepted texts from an independent statement of the rule.",
 state=[("leading_comment_indices, trailing_comment_indices", "comments around the current token", "src/parser.rs Parser")])
prop("C08", "Nodes cover contiguous, nested, ordered ranges",
 "In the tree of an accepted text every node's tokens form one contiguous range of the source (comments aside), the ranges of different children do not overlap, list children stand in source order, and statements follow one another in source order. So a node can be cut out, moved or printed as a unit.",
 ["inputs"], "for every accepted text and every node",
 "Tests look at single trees; whether some combination of clauses makes a node swallow or interleave a neighbour's tokens is a claim about all of them.",
 PAR, [("each parse_* function consumes a contiguous run of tokens", "src/parser.rs")],
 "property-based testing: structural invariant over the tree",
 "Exploration over generated scripts and accepted arbitrary texts.")
prop("C09", "Layout does not change the tree",
 "Changing only white space, line breaks and comments between tokens (where they separate or already touch harmlessly) changes neither whether a text is accepted nor its tree, apart from positions and attached comments. A rejected text stays rejected at the same token.",
 ["inputs"], "for every text and every pair of layouts of its tokens",
 "Tests use one layout each; the claim relates pairs of texts and quantifies over every gap.",
 LEX + PAR, [("comments are skipped by look-ahead", "src/parser.rs get_offset_index"), ("white space only separates tokens", "src/lexer.rs skip_whitespace")],
 "metamorphic testing: two layouts of one token sequence",
 "Exploration over generated and arbitrary texts; identifiers made of touching tokens (region-us) keep touching.")
prop("C10", "Keywords are case-insensitive everywhere",
 "Changing the letter case of any keywords, identifiers, literal prefixes and exponents in a text changes neither whether it is accepted nor the tree, apart from the spelled text of the tokens. A rejected text stays rejected at the same token.",
 ["inputs"], "for every text and every choice of letter case",
 "Tests are written in upper case with a few lower-case samples; each of some hundred keyword comparisons could be case-sensitive.",
 LEX + PAR, [("comparisons on upper-cased literals", "src/token.rs is / in_; to_uppercase matches in src/parser.rs and src/lexer.rs")],
 "metamorphic testing: letter case of words changed at random",
 "Exploration, ASCII letters only (locale-dependent case of other letters is not part of SQL keywords).")
prop("C11", "Statements are independent of their neighbours",
 "A script whose statements end with semicolons is answered as if its parts were given one by one: the trees are the same up to the shifted positions, and an error in a later part is reported at the same token. Any statement of an accepted script, cut out and parsed alone, gives the same subtree.",
 ["inputs", "histories"], "for all sequences of statements",
 "Tests parse statements one at a time or in one fixed script; state leaking from one statement into the next depends on the pair.",
 LEX + PAR, [("statements parsed in a loop until the end", "src/parser.rs parse_code"), ("lexer state carried across statements", "src/lexer.rs type_declaration_depth")],
 "metamorphic testing: concatenation and cutting",
 "Exploration over generated scripts followed by generated or arbitrary texts.")
prop("C12", "Operators bind by GoogleSQL precedence",
 "Expressions are grouped by the documented precedence of GoogleSQL operators, from field access, subscript and calls through unary, multiplicative, additive, shift, bitwise, comparison (IN, LIKE, BETWEEN, IS, with NOT), NOT, AND and OR; binary operators of one level associate to the left. Parentheses override it, and the operands keep their own trees.",
 ["inputs"], "for every sequence of operators and operands",
 "Tests hold a few two-operator samples; all pairs and triples with prefixes and long chains are out of their reach.",
 PAR, [("precedence table", "src/parser.rs get_precedence"), ("precedence climbing", "src/parser.rs parse_expr")],
 "exhaustive pairs and triples of operators plus random sequences against an independent precedence-climbing model",
 "All pairs with all combinations of unary operators and all triples are enumerated; longer sequences are random.")
TREE = "Tests hold a few dozen written-out trees per construct; the combinations of optional clauses, nesting and list lengths are unbounded."
def tree(id, title, statement, mech, extra=""):
    prop(id, title, statement, ["inputs", "programs"], "for every combination of clauses, list lengths and nesting of these statements", TREE, PAR, mech,
     "grammar-based generation; the expected tree is built together with the script and compared node by node",
     "Exploration; trusts the harness's grammar generator as the statement of which tree a script has." + extra)
tree("C13", "Queries get the tree their clauses spell out",
 "Every query built from SELECT lists (DISTINCT, AS STRUCT/VALUE, * EXCEPT/REPLACE), FROM with joins, subqueries, UNNEST, PIVOT/UNPIVOT, sampling and MATCH_RECOGNIZE, WHERE, GROUP BY, HAVING, QUALIFY, WINDOW, ORDER BY, LIMIT, WITH and set operations is accepted. Its tree has exactly one node per clause, item, join and operand, with the documented node types and fields, in the right place and nesting, joins and set operations grouping to the left.",
 [("SELECT, set operators, WITH", "src/parser.rs parse_select_statement, parse_cte"), ("tables and joins", "src/parser.rs parse_table"), ("calls and expressions", "src/parser.rs parse_expr")])
tree("C14", "Pipe queries get the tree their operators spell out",
 "Every pipe query, starting from FROM or from any query and followed by any sequence of pipe operators (SELECT, EXTEND, SET, DROP, RENAME, AS, WHERE, LIMIT, AGGREGATE, ORDER BY, JOIN, CALL, set operations, TABLESAMPLE, PIVOT, UNPIVOT, WITH, MATCH_RECOGNIZE, DISTINCT), is accepted. Each operator becomes one node whose left side is everything before it, with its keywords, arguments and options in the documented fields.",
 [("FROM statement and |>", "src/parser.rs parse_from_statement, parse_pipe_* functions")])
tree("C15", "INSERT, UPDATE, DELETE, MERGE and TRUNCATE trees",
 "Every INSERT, UPDATE, DELETE, TRUNCATE TABLE and MERGE statement, with any combination of optional words, column lists, VALUES rows or queries, FROM, WHERE, and any sequence of MERGE branches, is accepted. Its tree has exactly one node per clause, row, assignment and branch, with the documented node types and fields in source order.",
 [("DML statements", "src/parser.rs parse_insert_statement, parse_update_statement, parse_delete_statement, parse_merge_statement, parse_truncate_statement")])
tree("C16", "CREATE, ALTER, DROP and UNDROP trees",
 "Every CREATE, ALTER, DROP and UNDROP statement for the supported objects (schema, table, view, materialized view, index, function, table function, procedure, row access policy, model, reservation objects and the like), with any combination of modifiers, column definitions, types, constraints, options and bodies, is accepted. Its tree has exactly one node per modifier, column, constraint and clause, with the documented node types and fields.",
 [("DDL statements", "src/parser.rs parse_create_*, parse_alter_*, parse_drop_*, parse_undrop_statement"), ("types and columns", "src/parser.rs parse_type, parse_grouped_type_declaration_or_constraints")])
tree("C17", "GRANT, REVOKE, LOAD, EXPORT, CALL and ASSERT trees",
 "Every GRANT, REVOKE, LOAD DATA, EXPORT DATA, EXPORT MODEL, CALL and ASSERT statement, with any combination of optional parts and list lengths, is accepted. Its tree has exactly one node per role, resource, user, option and clause, with the documented node types and fields.",
 [("DCL and other statements", "src/parser.rs parse_grant_statement, parse_revoke_statement, parse_load_statement, parse_export_*, parse_call_statement, parse_assert_satement")])
tree("C18", "Procedural scripts get the tree of their blocks",
 "Every procedural statement (DECLARE, SET, EXECUTE IMMEDIATE, BEGIN/EXCEPTION/END, IF, CASE, LOOP, REPEAT, WHILE, FOR, BREAK/LEAVE/CONTINUE/ITERATE, RAISE, RETURN, transactions, labels) is accepted with any bodies, nested to any depth. Each block's tree holds exactly its own statements in order, its branches, conditions, labels and END keywords in the documented fields.",
 [("procedural statements", "src/parser.rs parse_begin_statement, parse_if_statement, parse_case_statement, parse_loop_statement, parse_labeled_statement, ...")])
prop("C22", "Leaf tokens are classified by what they are",
 "In the tree of a grammatical script every leaf has the node type of its token and role: names and quoted names are identifiers, strings, numbers, TRUE/FALSE, NULL, parameters and templates are the respective literals, keywords and symbols in clause positions are keywords and symbols, and a name in front of a call or a dot is an identifier even if it is a keyword elsewhere. No leaf of a grammatical script is left unclassified.",
 ["inputs"], "for every grammatical script and every leaf",
 "Tests look at a few literals; names that resemble keywords, prefixes, odd numbers and quoted names in all positions are not sampled.",
 PAR + ["src/token.rs"], [("classification of single tokens", "src/parser.rs construct_node, src/token.rs is_identifier / is_numeric / is_string"), ("reserved keywords", "src/constants.rs")],
 "grammar-based generation; node types known by construction",
 "Exploration over generated scripts and over generated expressions and types in every template position.")
prop("C23", "The last semicolon is optional",
 "Adding a semicolon to an accepted text whose last statement has none, or removing it, keeps the text accepted and changes nothing in the trees but the semicolon of that statement. This holds for every kind of statement.",
 ["inputs"], "for every accepted text and every kind of last statement",
 "Tests end statements one way or the other, rarely both.",
 PAR, [("semicolon consumed per statement", "src/parser.rs, `semicolon` parameter of the statement functions")],
 "metamorphic testing: last semicolon toggled",
 "Exploration over generated scripts and accepted arbitrary texts without unclassified tokens.")
prop("C24", "A construct has one tree wherever it stands",
 "An expression, a query, a statement or a type has the same subtree in every place where the grammar allows it: select list, WHERE, arguments, subscripts, CASE, window and frame clauses, pipe operators, DML, DDL, procedural conditions and bodies. What surrounds it changes neither its acceptance nor its shape.",
 ["inputs", "programs"], "for every pair of a construct and a place where it may stand",
 "Tests put simple operands into each clause; the product of constructs and places is never tried.",
 PAR, [("one recursive function per construct, called from every clause with its own stop words", "src/parser.rs parse_expr, parse_exprs, parse_select_statement, parse_statement, parse_type")],
 "grammar-based generation into enumerated templates; subtree compared with the expected one",
 "Exploration: every template is used in turn with random pieces.")
prop("C25", "Broken scripts are rejected where they break",
 "A script is rejected, not silently accepted, when it uses an unknown kind of statement, CREATE, ALTER, ALTER action, pipe operator or MERGE action, has something other than SELECT, FROM, WITH or a parenthesis where a query must begin, has NOT where an operator must follow, ends inside a bracket or a block, closes a bracket with something else, or ends in an unterminated literal. Where one word is wrong the error is reported at that word, for an unterminated literal at the end of the text, for an unfinished statement not before it.",
 ["inputs"], "for every script broken in one of these ways, in any surrounding",
 "Tests contain few negative cases; silent acceptance loses or misplaces user code.",
 PAR + ["src/error.rs", "src/lexer.rs"], [("explicit rejections", "src/parser.rs, uses of BQ2CSTError::from_token"), ("closing brackets checked", "src/parser.rs construct_closing_symbol"), ("premature end", "src/parser.rs get_token / next_token")],
 "mutation of generated scripts at known places; acceptance and position of the error are the oracle",
 "Exploration over broken templates, cut-off scripts, unterminated literals, and a bracket invariant over accepted arbitrary texts.")
prop("C26", "Names and literal contents are opaque",
 "Replacing names that are no keywords by other such names, and strings, numbers, quoted names, parameters and templates by others of the same kind, changes neither whether a text is accepted nor the shape and types of its tree. No particular name, length, number or text has a meaning of its own.",
 ["inputs"], "for every text and every such replacement",
 "Tests use a few names and literals; a special case for some other name or length cannot be found by example.",
 LEX + PAR, [("identifiers recognised by form and keyword list only", "src/token.rs is_identifier, src/constants.rs"), ("literals recognised by their delimiters only", "src/token.rs, src/lexer.rs")],
 "metamorphic testing: consistent renaming and replacement of literals",
 "Exploration; names drawn at random, resembling keywords, and from new literals found in the sources under test.")

prop("C27", "The source can be printed back from the tree",
 "Every token and comment carries enough to put it back: printing the tokens and comments of the trees of an accepted text at their lines and columns gives the source again up to white space. The printed text is accepted and has exactly the same trees, positions included.",
 ["inputs"], "for every accepted text",
 "Tests compare trees with stored trees; none prints a tree, which is what the formatter that uses this library does.",
 LEX + PAR + ["src/cst.rs"], [("literal and position of tokens", "src/token.rs Token, src/lexer.rs construct_*"), ("children and comments of nodes", "src/cst.rs push_node / push_node_vec, src/parser.rs construct_node")],
 "round trip: text -> tree -> printed text -> tree",
 "Exploration over generated scripts in random layouts and accepted arbitrary texts.")
prop("C28", "What follows a mistake does not matter",
 "A text that is rejected at one of its own tokens is rejected at that token, with the same message, whatever is added behind it. Where the mistake is among the last words of the text, what is added stands behind a semicolon.",
 ["inputs", "histories"], "for every rejected text and every text added behind it",
 "Tests look at few rejected texts and never at what follows the mistake; looking ahead too far is invisible in valid scripts.",
 PAR + ["src/error.rs"], [("one pass over the tokens, look-ahead bounded by the statement", "src/parser.rs get_token / parse_code"), ("error position", "src/error.rs BQ2CSTError::from_token")],
 "metamorphic testing: suffixes added to rejected texts",
 "Exploration over broken scripts, token soups and word lists with added scripts and soups.")

exec(open(os.path.join(here, "tools", "wasm_properties.py")).read()) if os.path.exists(os.path.join(here, "tools", "wasm_properties.py")) else None
P.sort(key=lambda p: p["id"])
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": p["anchors"]}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "bash run.sh build",
 "hooks": {"guard": "rustc --cfg bq2cst_verif", "enable": "RUSTFLAGS=\"--cfg bq2cst_verif\" cargo build (done by /verif/run.sh)", "source_commits": ["c5f2c39"]},
 "checks": [{"property": p["id"], "quick_cmd": f"bash run.sh {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {p['id']}", "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P],
 "not_applicable": [],
 "notes": "Replay a reported violation with: bash run.sh replay evidence/<id>.replay.json. Known findings and repaired defects: KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, p["id"]

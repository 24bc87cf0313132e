prop("C19", "Trees conform to the published TypeScript types",
 "For every grammatical script, what parse and tokenize return in JavaScript is a value of the types which the package publishes in its .d.ts: every node type is declared, every child of a node is declared for that node type as single node or list with a fitting node type, every child declared as always there is there, and every child declared as never there is absent. Tokens are null only where the types allow it.",
 ["inputs"], "for every grammatical script",
 "The types are a string literal in the Rust sources; no compiler and no test relates it to the trees that the parser builds.",
 ["src/types.rs", "src/parser.rs", "src/cst.rs", "src/lib.rs"], [("published types", "src/types.rs NODES"), ("children pushed by name", "src/parser.rs push_node / push_node_vec"), ("node types", "src/cst.rs NodeType")],
 "property-based testing: generated scripts run in the WebAssembly build, values checked against the types compiled from its .d.ts",
 "Exploration. The types are read from the .d.ts of the current build by the TypeScript compiler. TABLESAMPLE on anything but a table and ALTER COLUMN on its own, which the documentation excludes, are left out.",
 observe=["return values of parse and tokenize of the wasm-bindgen package under Node.js"], hook=None)
prop("C20", "The JavaScript package answers like the sources, in plain data",
 "In JavaScript, parse and tokenize return exactly the trees and tokens that the Rust sources build, as plain JSON data (arrays, plain objects, strings, numbers, null). A rejected text makes them throw the error as a plain object with line, column and message.",
 ["inputs"], "for every text",
 "The only test of the JavaScript side parses `select 1;`; what the conversion does with other values, errors and non-ASCII text is not looked at.",
 ["src/lib.rs", "src/error.rs", "src/cst.rs", "src/token.rs"], [("conversion of results and errors", "src/lib.rs parse, tokenize (Serializer::json_compatible)"), ("serde derives", "src/cst.rs, src/token.rs, src/error.rs")],
 "differential testing: WebAssembly build under Node.js against the native build, same generated texts",
 "Exploration. The position of the end of input is the largest number of the platform and is normalised. Texts nested deeper than some dozen levels may exhaust the stack of the WebAssembly build and are not compared.",
 observe=["return values and thrown values of parse and tokenize of the wasm-bindgen package under Node.js", "native result through the hook"])
prop("C21", "Calls are independent of earlier calls",
 "What parse and tokenize answer for a text does not depend on which texts the same instance was given before, accepted or rejected, in whatever order and however often. Calls leave nothing behind: repeating them does not let the memory grow for ever.",
 ["histories"], "for every sequence of calls",
 "Tests make isolated calls; state kept between calls (a cache, a counter, a leak) needs a history to show.",
 ["src/lib.rs", "src/lexer.rs", "src/parser.rs", "src/utils.rs"], [("a new lexer and parser per call", "src/lib.rs parse, tokenize"), ("panic hook installed once", "src/utils.rs")],
 "stateful property-based testing: generated call histories in one WebAssembly instance against single calls in fresh instances",
 "Exploration: short histories of arbitrary texts, long histories of short texts, repeated rounds for memory.",
 observe=["return values and thrown values of the wasm-bindgen package under Node.js; size of its memory"], hook=None)

LIB = 'const lib = require(process.env.PKG + "/bq2cst.js"); const assert = require("assert");\n'
bug('throw-string', 'C20', 'a text that the lexer rejects, through the JavaScript package',
 'parse throws a plain string instead of an object with line, column and message when tokenizing fails.',
 [('src/lib.rs', """        Err(bq2cst_error) => {
            return Err(bq2cst_error
                .serialize(&s)
                .expect("Problem converting error struct to json."))
        }
    });
    let stmts""", """        Err(bq2cst_error) => {
            return Err(JsValue::from_str(&format!(
                "{}:{} {:?}",
                bq2cst_error.line, bq2cst_error.column, bq2cst_error
            )))
        }
    });
    let stmts""")],
 LIB + """let e; try { lib.parse("SELECT 'abc"); } catch (x) { e = x; }
assert(e && typeof e === 'object' && typeof e.line === 'number' && typeof e.column === 'number' && typeof e.message === 'string');
""", demo='demo-wasm')
bug('map-children', 'C20', 'any tree with children in JavaScript',
 'The serializer is no longer the JSON compatible one in tokenize errors and parse results: missing tokens become undefined and children become a Map.',
 [('src/lib.rs', """    let stmts = match p.parse_code() {""", """    let s = s.serialize_missing_as_null(false);
    let stmts = match p.parse_code() {""")],
 LIB + """const t = lib.parse('SELECT 1 AS a FROM (SELECT 1 x), t');
(function walk(v) { assert(v !== undefined); if (v && typeof v === 'object') for (const k of Object.keys(v)) walk(v[k]); })(t);
""", demo='demo-wasm')
bug('big-position', 'C20', 'a text with more than 65535 lines or columns, through the JavaScript package',
 'Positions are cut off at 65535 when tokens are serialized.',
 [('src/token.rs', """    pub line: usize,
    pub column: usize,
    pub literal: String,
}

impl Token {
    pub fn new(line: usize, column: usize, literal: String) -> Token {
        Token {
            line,
            column,""", """    pub line: usize,
    pub column: usize,
    pub literal: String,
}

impl Token {
    pub fn new(line: usize, column: usize, literal: String) -> Token {
        Token {
            line: line & 0xffff,
            column,""")],
 LIB + """const t = lib.tokenize('SELECT 1;' + '\\n'.repeat(70000) + 'SELECT 2');
assert.strictEqual(t[3].line, 70001);
""", demo='demo-wasm')
bug('cache-trimmed', 'C21', 'the same text again, with other white space around it, in the same instance',
 'tokenize remembers the last text and its tokens, and takes a text that differs in the white space around it for the same.',
 [('src/lib.rs', """    let tokens = match l.tokenize_code() {
        Ok(tokens) => tokens,
        Err(bq2cst_error) => {
            return Err(bq2cst_error
                .serialize(&s)
                .expect("Problem converting error struct to json."))
        }
    };
    Ok(tokens
        .serialize(&s)
        .expect("Problem converting tokens to json."))""", """    let tokens = match l.tokenize_code() {
        Ok(tokens) => tokens,
        Err(bq2cst_error) => {
            return Err(bq2cst_error
                .serialize(&s)
                .expect("Problem converting error struct to json."))
        }
    };
    let res = tokens
        .serialize(&s)
        .expect("Problem converting tokens to json.");
    LAST.with(|last| *last.borrow_mut() = Some((key, res.clone())));
    Ok(res)"""), ('src/lib.rs', """#[wasm_bindgen(skip_typescript)]
pub fn tokenize(code: String) -> Result<JsValue, JsValue> {
    utils::set_panic_hook();
""", """thread_local! {
    static LAST: std::cell::RefCell<Option<(String, JsValue)>> = std::cell::RefCell::new(None);
}

#[wasm_bindgen(skip_typescript)]
pub fn tokenize(code: String) -> Result<JsValue, JsValue> {
    utils::set_panic_hook();
    let key = code.trim().to_string();
    if let Some(res) = LAST.with(|last| match &*last.borrow() {
        Some((k, v)) if *k == key => Some(v.clone()),
        _ => None,
    }) {
        return Ok(res);
    }
""")],
 LIB + """lib.tokenize('SELECT 1'); const t = lib.tokenize('\\n  SELECT 1');
assert.strictEqual(t[0].line, 2); assert.strictEqual(t[0].column, 3);
""", demo='demo-wasm')
bug('error-leak', 'C21', 'many rejected texts in the same instance',
 'Every rejected parse leaves its token list behind, so the memory of the instance grows for ever.',
 [('src/lib.rs', """    let stmts = match p.parse_code() {
        Ok(stmts) => stmts,
        Err(bq2cst_error) => {
""", """    let stmts = match p.parse_code() {
        Ok(stmts) => stmts,
        Err(bq2cst_error) => {
            std::mem::forget(p);
""")],
 LIB + """const t = 'SELECT ' + 'a, '.repeat(500) + '1) FROM'; const f = () => { for (let i = 0; i < 400; i++) { try { lib.parse(t); } catch (e) { assert(e.message); } } };
const size = () => lib.__wasm.memory.buffer.byteLength;
f(); const a = size(); f(); f(); const b = size(); assert(b - a < 1000000, `${a} -> ${b}`);
""", demo='demo-wasm')
bug('nesting-counter', 'C21', 'a text rejected inside parentheses, then others in the same instance',
 'The nesting depth is counted in a static which an error leaves too high; after enough rejected texts everything is rejected.',
 [('src/parser.rs', """    pub fn parse_code(&mut self) -> BQ2CSTResult<Vec<Node>> {
""", """    pub fn parse_code(&mut self) -> BQ2CSTResult<Vec<Node>> {
        let running = RUNNING.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if running > 100 {
            return Err(BQ2CSTError::new(1, 1, "Too many parsers.".to_string()));
        }
"""), ('src/parser.rs', """        stmts.push(self.construct_node(NodeType::EOF)?);
        Ok(stmts)""", """        stmts.push(self.construct_node(NodeType::EOF)?);
        RUNNING.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
        Ok(stmts)"""), ('src/parser.rs', """impl Parser {
""", """static RUNNING: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

impl Parser {
""")],
 LIB + """for (let i = 0; i < 300; i++) { try { lib.parse('SELECT (1'); assert(false); } catch (e) { assert(e.message); } }
assert(lib.parse('SELECT 1').length > 0);
""", demo='demo-wasm')
TS = LIB + """const fs = require('fs'), path = require('path');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const dir = process.env.PKG;
// the trees, written down as values of the published types
for (const sql of %s) {
  const f = path.join(dir, 'value.ts');
  fs.writeFileSync(f, 'import { UnknownNode } from "./bq2cst";\\nexport const v: UnknownNode[] = ' + JSON.stringify(lib.parse(sql).slice(0, -1)) + ';\\n');
  const p = ts.createProgram([f], { noEmit: true, strict: true, skipLibCheck: true, types: [] });
  const ds = ts.getPreEmitDiagnostics(p).filter((d) => d.file && d.file.fileName.endsWith('value.ts'));
  assert.strictEqual(ds.length, 0, sql + ': ' + ds.map((d) => ts.flattenDiagnosticMessageText(d.messageText, ' ').slice(0, 300)));
}
"""
bug('types-then', 'C19', 'a CASE expression with ELSE',
 'The published types declare THEN of an arm as always there; the arm of ELSE has none.',
 [('src/types.rs', """    then?: NodeChild;
    result: NodeChild;""", """    then: NodeChild;
    result: NodeChild;""")], TS % '["SELECT CASE WHEN a THEN b ELSE c END"]', demo='demo-wasm')
bug('types-target', 'C19', 'MERGE with an INSERT action',
 'The published types declare the target of an INSERT as always there; inside MERGE it has none.',
 [('src/types.rs', """    into?: NodeChild;
    target_name?: NodeChild;
    columns?: NodeChild;""", """    into?: NodeChild;
    target_name: NodeChild;
    columns?: NodeChild;""")], TS % '["MERGE t USING s ON a = b WHEN NOT MATCHED THEN INSERT ROW"]', demo='demo-wasm')
bug('types-rename', 'C19', 'ALTER VECTOR INDEX',
 'A statement is published under a node type that the types do not declare.',
 [('src/cst.rs', """    AlterVectorIndexStatement,
""", """    #[serde(rename = "AlterIndexStatement")]
    AlterVectorIndexStatement,
""")], TS % '["ALTER VECTOR INDEX i ON t REBUILD"]', demo='demo-wasm')

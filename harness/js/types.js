// types.js FILE.d.ts OUT.json: the published types as a graph which worker.js checks values against
'use strict';
const fs = require('fs');
const ts = require(process.env.TYPESCRIPT || '/opt/veriftools/node/node_modules/typescript');
const file = process.argv[2];
const program = ts.createProgram([file], { strict: true, noLib: false, lib: ['lib.es2020.d.ts'], types: [] });
const errors = ts.getPreEmitDiagnostics(program).map((d) => ts.flattenDiagnosticMessageText(d.messageText, '\n'));
const checker = program.getTypeChecker();
const source = program.getSourceFile(file);
const exported = new Map(checker.getExportsOfModule(checker.getSymbolAtLocation(source)).map((s) => [s.name, s]));
const nodes = [];
const memo = new Map();
function id(type) {
  if (memo.has(type)) return memo.get(type);
  const n = nodes.length;
  memo.set(type, n);
  nodes.push(null);
  nodes[n] = convert(type);
  return n;
}
function removeUndefined(type) {
  if (!type.isUnion()) return type.flags & ts.TypeFlags.Undefined ? [] : [type];
  return type.types.filter((t) => !(t.flags & ts.TypeFlags.Undefined));
}
function union(types) {
  if (types.length === 1) return id(types[0]);
  const n = nodes.length;
  nodes.push({ k: 'union', of: types.map(id) });
  return n;
}
function convert(type) {
  const F = ts.TypeFlags;
  if (type.flags & (F.Any | F.Unknown)) return { k: 'any' };
  if (type.flags & F.Never) return { k: 'never' };
  if (type.flags & F.Undefined) return { k: 'undefined' };
  if (type.flags & F.Null) return { k: 'null' };
  if (type.isStringLiteral()) return { k: 'lit', v: type.value };
  if (type.flags & F.StringLike) return { k: 'string' };
  if (type.flags & F.NumberLike) return { k: 'number' };
  if (type.isUnion()) return { k: 'union', of: type.types.map(id) };
  if (checker.isArrayType(type)) return { k: 'array', el: id(checker.getTypeArguments(type)[0]) };
  if (type.isIntersection() && type.types.every((t) => checker.isArrayType(t))) return { k: 'all', of: type.types.map(id) };
  const props = {};
  for (const p of checker.getPropertiesOfType(type)) {
    const t = checker.getTypeOfSymbol(p);
    const ts_ = removeUndefined(t);
    const optional = !!(p.flags & ts.SymbolFlags.Optional);
    if (ts_.length === 0) props[p.name] = { absent: true };
    else props[p.name] = { optional: optional || (t.isUnion() && ts_.length < t.types.length), of: ts_.length === t.types?.length || !t.isUnion() ? [id(t)] : [union(ts_)] };
  }
  return { k: 'obj', props };
}
const get = (name) => checker.getDeclaredTypeOfSymbol(exported.get(name));
const out = { errors, nodes, roots: {}, declared: {} };
for (const f of ['parse', 'tokenize']) {
  const s = exported.get(f);
  if (!s) { errors.push('no function ' + f); continue; }
  const sigs = checker.getTypeOfSymbolAtLocation(s, source).getCallSignatures();
  out.roots[f] = id(sigs[0].getReturnType());
}
// every field that is declared for a node type anywhere in the union of all nodes
const u = get('UnknownNode');
for (const m of u.isUnion() ? u.types : [u]) {
  const nt = checker.getTypeOfSymbol(m.getProperty('node_type'));
  const ch = checker.getTypeOfSymbol(m.getProperty('children'));
  const names = nt.isUnion() ? nt.types.map((t) => t.value) : [nt.value];
  for (const n of names) out.declared[n] = checker.getPropertiesOfType(ch).map((p) => p.name);
}
fs.writeFileSync(process.argv[3], JSON.stringify(out));

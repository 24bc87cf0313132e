// worker.js PKG TYPES.json: answers requests (a JSON text per line) about the WebAssembly build
'use strict';
const fs = require('fs');
const path = require('path');
const util = require('util');
const dir = process.argv[2];
const glue = fs.readFileSync(path.join(dir, 'bq2cst.js'), 'utf8');
const compiled = new WebAssembly.Module(fs.readFileSync(path.join(dir, 'bq2cst_bg.wasm')));
console.error = () => {};
console.log = () => {};

// the package as `require` would give it, but every time a fresh instance
function fresh() {
  const W = { Module: function () { return compiled; }, Instance: WebAssembly.Instance, instantiate: undefined };
  const module = { exports: {} };
  new Function('module', 'exports', 'require', '__dirname', 'WebAssembly', glue)(module, module.exports, require, dir, W);
  return module.exports;
}
let current = fresh();

// {ok: value} | {err: value} | {trap: message}
function call(lib, fn, text) {
  try {
    return { ok: lib[fn](text) };
  } catch (e) {
    if (e instanceof Error) return { trap: String(e) };
    return { err: e };
  }
}
function plain(v, where) {
  if (v === null || typeof v === 'string' || typeof v === 'boolean') return null;
  if (typeof v === 'number') return Number.isSafeInteger(v) && v >= 0 ? null : `${where} is ${v}`;
  if (Array.isArray(v)) {
    if (Object.getPrototypeOf(v) !== Array.prototype || Object.keys(v).length !== v.length) return `${where} is not a plain array`;
    for (let i = 0; i < v.length; i++) {
      const p = plain(v[i], `${where}[${i}]`);
      if (p) return p;
    }
    return null;
  }
  if (typeof v !== 'object') return `${where} is a ${typeof v}`;
  if (Object.getPrototypeOf(v) !== Object.prototype || Object.getOwnPropertySymbols(v).length) return `${where} is not a plain object`;
  for (const k of Object.keys(v)) {
    const p = plain(v[k], `${where}.${k}`);
    if (p) return p;
  }
  return null;
}

let spec = null;
if (process.argv[3]) {
  spec = JSON.parse(fs.readFileSync(process.argv[3], 'utf8'));
  for (const n of spec.nodes) {
    if (n.k !== 'union') continue;
    n.by = {};
    n.rest = [];
    for (const m of n.of) {
      const o = spec.nodes[m];
      const nt = o.k === 'obj' && o.props.node_type && o.props.node_type.of && spec.nodes[o.props.node_type.of[0]];
      if (nt && nt.k === 'lit') (n.by[nt.v] = n.by[nt.v] || []).push(m);
      else n.rest.push(m);
    }
  }
}
const kinds = (n) => (n.by ? Object.keys(n.by).slice(0, 6).join(' | ') : n.k);
function conforms(v, t, where) {
  const n = spec.nodes[t];
  switch (n.k) {
    case 'any': return null;
    case 'never': return `${where} must not exist`;
    case 'undefined': return v === undefined ? null : `${where} must be absent`;
    case 'null': return v === null ? null : `${where} must be null`;
    case 'lit': return v === n.v ? null : `${where} is ${JSON.stringify(v)}, declared as ${JSON.stringify(n.v)}`;
    case 'string': return typeof v === 'string' ? null : `${where} is no string`;
    case 'number': return typeof v === 'number' ? null : `${where} is no number`;
    case 'array': {
      if (!Array.isArray(v)) return `${where} is no array`;
      for (let i = 0; i < v.length; i++) {
        const r = conforms(v[i], n.el, where);
        if (r) return r;
      }
      return null;
    }
    case 'all': {
      for (const m of n.of) {
        const r = conforms(v, m, where);
        if (r) return r;
      }
      return null;
    }
    case 'union': {
      let ms = n.rest;
      if (v && typeof v === 'object' && typeof v.node_type === 'string') {
        if (n.by[v.node_type]) ms = n.by[v.node_type].concat(n.rest);
        else if (!n.rest.length) return `${where} is a ${v.node_type}, which is not declared there (${kinds(n)} ...)`;
      }
      let first = null;
      for (const m of ms) {
        const r = conforms(v, m, where);
        if (!r) return null;
        first = first || r;
      }
      return first || `${where} is none of the declared types`;
    }
    case 'obj': {
      if (v === null || typeof v !== 'object' || Array.isArray(v)) return `${where} is no object`;
      const isNode = typeof v.node_type === 'string' && 'children' in v;
      const name = isNode ? v.node_type : where;
      for (const p of Object.keys(n.props)) {
        const d = n.props[p];
        const at = isNode || p === 'Node' || p === 'NodeVec' ? (isNode ? name : where) : `${where}.${p}`;
        if (!(p in v)) {
          if (!d.absent && !d.optional) return `${where} has no ${JSON.stringify(p)}, which is declared as always present`;
          continue;
        }
        if (d.absent) return `${where} has ${JSON.stringify(p)}, which is declared as always absent`;
        let first = null, good = false;
        for (const m of d.of) {
          const r = conforms(v[p], m, at);
          if (!r) { good = true; break; }
          first = first || r;
        }
        if (!good) return first;
      }
      return null;
    }
  }
}
// what the structural comparison does not see: keys that are declared nowhere
function excess(v) {
  const ks = Object.keys(v);
  if (ks.length !== 3 || !('token' in v && 'node_type' in v && 'children' in v)) return `a node with the keys ${ks}`;
  const d = spec.declared[v.node_type];
  if (!d) return `the node type ${v.node_type} is not declared`;
  if (v.token !== null) {
    const tk = Object.keys(v.token);
    if (tk.length !== 3) return `a token with the keys ${tk}`;
  }
  for (const c of Object.keys(v.children)) {
    if (!d.includes(c)) return `${v.node_type} has the undeclared field ${JSON.stringify(c)}`;
    const w = v.children[c];
    const wk = Object.keys(w);
    if (wk.length !== 1) return `${v.node_type}.${c} has the keys ${wk}`;
    if (wk[0] === 'Node') {
      const r = excess(w.Node);
      if (r) return r;
    } else if (wk[0] === 'NodeVec') {
      for (const x of w.NodeVec) {
        const r = excess(x);
        if (r) return r;
      }
    } else return `${v.node_type}.${c} has the key ${wk[0]}`;
  }
  return null;
}

const ops = {
  // the answer, and whether it is plain data
  answer({ fn, text }) {
    const r = call(current, fn, text);
    if ('trap' in r) { current = fresh(); return r; }
    const v = 'ok' in r ? r.ok : r.err;
    return { ...r, plain: plain(v, 'the answer') };
  },
  // does it answer at all?
  alive({ text }) {
    const r = call(current, 'parse', text);
    if ('trap' in r) { current = fresh(); return r; }
    return { ok: 'ok' in r };
  },
  types({ text }) {
    const r = call(current, 'parse', text);
    if ('trap' in r) { current = fresh(); return { kind: 'trap' }; }
    if ('err' in r) return { kind: 'rejected' };
    const t = call(current, 'tokenize', text);
    const fail = excess2(r.ok) || conforms(r.ok, spec.roots.parse, 'the result') || ('ok' in t ? conforms(t.ok, spec.roots.tokenize, 'the tokens') : 'tokenize fails where parse does not');
    return { kind: 'accepted', fail };
  },
  // a history of calls, each [function, text], in one instance; each alone in another
  history({ calls }) {
    const lib = fresh();
    const alone = new Map();
    for (let i = 0; i < calls.length; i++) {
      const [fn, text] = calls[i];
      const a = call(lib, fn, text);
      const key = fn + text;
      if (!alone.has(key)) alone.set(key, call(fresh(), fn, text));
      const b = alone.get(key);
      if ('trap' in b) return { kind: 'trap' };
      if (!util.isDeepStrictEqual(a, b)) return { kind: 'differs', fail: `call ${i + 1} (${fn}) answers ${short(a)} after the calls before it and ${short(b)} alone` };
    }
    return { kind: 'same' };
  },
  // the calls again and again: the memory of the instance may not grow for ever
  memory({ calls }) {
    const lib = fresh();
    const size = () => lib.__wasm.memory.buffer.byteLength;
    const round = () => { for (const [fn, text] of calls) call(lib, fn, text); };
    if (!lib.__wasm) return { kind: 'steady' };
    for (let i = 0; i < 30; i++) round();
    const a = size();
    for (let i = 0; i < 300; i++) round();
    const b = size();
    for (let i = 0; i < 300; i++) round();
    const c = size();
    const page = 65536;
    if (b - a > 2 * page && c - b > 2 * page) return { kind: 'grows', fail: `the memory grows with every call: ${a}, ${b}, ${c} bytes after 30, 330 and 630 rounds` };
    return { kind: 'steady' };
  },
};
const short = (x) => JSON.stringify(x).slice(0, 300);
function excess2(v) {
  if (!Array.isArray(v)) return 'parse does not return an array';
  for (const n of v) {
    const r = excess(n);
    if (r) return r;
  }
  return null;
}

let pending = '';
process.stdin.setEncoding('utf8');
process.stdin.on('data', (d) => {
  pending += d;
  let i;
  while ((i = pending.indexOf('\n')) >= 0) {
    const line = pending.slice(0, i);
    pending = pending.slice(i + 1);
    const q = JSON.parse(line);
    let a;
    try {
      a = ops[q.op](q);
    } catch (e) {
      a = { broken: String(e && e.stack) };
    }
    const out = Buffer.from(JSON.stringify(a) + '\n');
    for (let at = 0; at < out.length; ) at += fs.writeSync(1, out, at);
  }
});

'use strict';
// Schema model: generator, printer, and the reference rules for validity.
// AST: { decls: [{k:'enum',name,variants:[..]} | {k:'struct',name,fields:[{name,type,array,optional}]}], exports:[name], xpos }
const { Rng } = require('./prng');

const BUILTINS = ['uint8', 'uint16', 'uint32', 'int8', 'int16', 'int32', 'float', 'string'];
const RESERVED_PREFIX = ['uint8', 'uint16', 'uint32', 'int8', 'int16', 'int32', 'float', 'string', 'enum', 'struct'];
// names that are not usable as a constructor parameter / class / interface name in TypeScript, or that the
// generated class body itself uses; schemas with these on the exported struct are pinned known findings
const TSWORDS = new Set(('break case catch class const continue debugger default delete do else enum export extends false finally for function if import in ' +
  'instanceof new null return super switch this throw true try typeof var void while with as implements interface let package private protected public ' +
  'static yield any boolean constructor declare get module require number set string symbol type from of async await never unknown object bigint undefined ' +
  'eval arguments namespace abstract readonly unique infer is keyof global asserts accessor').split(' '));
const BAD_TOP_FIELD = new Set(['name', 'length', 'prototype', 'arguments', 'caller', 'write', 'constructor', '__proto__']);
const BAD_TYPE = new Set(['read', 'prototype', 'name', 'length', 'caller', 'arguments', 'Reader', 'Writer', 'Object', 'Array', 'ArrayBuffer', 'reader', 'writer', 'output', 'data', 'buffer', 'Number', 'String', 'Symbol', 'Function', 'Boolean', 'globalThis', 'exports', 'require', 'module']);

const WORDS = ['id', 'x', 'y', 'z', 'pos', 'hp', 'flags', 'items', 'data', 'value', 'kind', 'uid', 'Alpha', 'beta', 'Gamma', 'delta', 'mode', 'tick', 'owner', 'Team', 'slot', 'Node', 'left', 'right',
  'Entity', 'State', 'Player', 'msg', 'text', 'seq', 'ack', 'Zone', 'A', 'B', 'C', 'T', 'q', 'w', 'Vec', 'Color', 'level', 'reader', 'writer', 'output', 'buffer', 'len', 'index', 'item', 'temp', 'failed',
  'int', 'uint', 'str', 'en', 'stru', 'flo', 'u8', 'i32', 'read', 'finish', 'exported', 'number', 'self', 'opt', 'arr'];
const LIKE = ['Float', 'FLOAT', 'Float32', 'Uint8', 'UINT8', 'UInt16', 'Uint32', 'Int8', 'INT16', 'Int', 'STRING', 'sTring', 'Enum', 'ENUM', 'Struct', 'STRUCT', 'Export', 'bool', 'Uint', 'u_int8', '_float', '_string', '_struct'];
const NESTED_EXTRA = ['name', 'length', 'class', 'default', 'new', 'delete', 'type', 'constructor', 'function', 'var', 'let', 'this', 'null', 'toString', 'prototype', 'write', 'arguments', 'in', 'of'];

function legalIdent(s) {
  if (!/^[A-Za-z_][A-Za-z0-9_]*$/.test(s)) return false;
  return !RESERVED_PREFIX.some(p => s.startsWith(p));
}
function rawIdent(rng, pool) {
  let s = rng.pick(pool);
  const r = rng.f();
  if (r < 0.35) return s;
  if (r < 0.55) return s + rng.range(0, 99);
  if (r < 0.7) { const t = rng.pick(WORDS); return s + t[0].toUpperCase() + t.slice(1); }
  if (r < 0.85) return s + '_' + rng.pick(WORDS);
  if (r < 0.9) return '_' + s;
  if (r < 0.95) { for (let i = rng.p(0.05) ? rng.range(60, 300) : rng.range(1, 50); i > 0; i--) s += rng.pick('abcXYZ019_'.split('')); return s; }
  return s + '_';
}
// a name that a careless comparison would take for the other one
function similar(rng, s) {
  const c = [s.toUpperCase(), s.toLowerCase(), s[0] === s[0].toUpperCase() ? s[0].toLowerCase() + s.slice(1) : s[0].toUpperCase() + s.slice(1), s.slice(0, -1), s + rng.pick(['_', '0', 's', 'X']), '_' + s, s.replace(/_/g, ''), [...s].reverse().join(''), s + s];
  return rng.pick(c) || s;
}
function ident(rng, used, kind) {
  const pool = rng.p(0.03) ? LIKE : kind === 'field' || kind === 'variant' ? (rng.p(0.15) ? NESTED_EXTRA : WORDS) : WORDS;
  for (let i = 0; ; i++) {
    let s = used.size && i < 3 && rng.p(0.12) ? similar(rng, [...used][rng.int(used.size)]) : rawIdent(rng, pool);
    if (i > 20) s = s + rng.int(100000);
    if (!legalIdent(s) || used.has(s)) continue;
    if (kind === 'type' && (TSWORDS.has(s) || BAD_TYPE.has(s) || s.startsWith('export') || s.startsWith('output') || s.startsWith('this'))) continue;
    if (kind === 'topfield' && (TSWORDS.has(s) || BAD_TOP_FIELD.has(s))) continue;
    if (s === '__proto__') continue;
    used.add(s);
    return s;
  }
}

// a field whose name is what two steps of another path, or a path and a generated suffix, look like in one identifier
function lookAlike(rng, ast) {
  const by = new Map(ast.decls.map(d => [d.name, d])), c = [];
  for (const d of ast.decls) if (d.k === 'struct') for (const f of d.fields) {
    const t = by.get(f.type), n = f.name + (f.array && rng.p(0.7) ? '_item' : '');
    for (const x of ['len', 'index', 'item', 'temp', 'item_len', 'item_temp', 'item_index'].concat(t && t.k === 'struct' ? t.fields.flatMap(g => [g.name, g.name, g.name + '_len', g.name + '_item']) : [])) c.push([d, n + '_' + x, rng.p(0.5) && t ? f.type : rng.pick(BUILTINS)]);
  }
  for (let i = rng.range(1, 3); i > 0 && c.length; i--) {
    const [d, name, type] = rng.pick(c), t = by.get(type), r = rng.f();
    if (!legalIdent(name) || d.fields.some(f => f.name === name) || name.length > 300) continue;
    // no cycle: only types the struct uses already
    if (t && !d.fields.some(f => f.type === type)) continue;
    d.fields.splice(rng.int(d.fields.length + 1), 0, { name, type, array: r < 0.3, optional: r > 0.7 });
  }
}
function flatCount(ast, name, memo = new Map()) {
  if (memo.has(name)) return memo.get(name);
  const d = ast.decls.find(x => x.name === name);
  let n = 1;
  if (d && d.k === 'struct') { memo.set(name, 1); for (const f of d.fields) n += flatCount(ast, f.type, memo); }
  memo.set(name, n);
  return n;
}

// A valid schema. size: tiny|small|medium|large|deep|wide|broad|many|chain
function genSchema(rng, size) {
  for (;;) {
    const s = genOnce(rng, size || rng.weighted([[3, 'tiny'], [5, 'small'], [4, 'medium'], [1, 'large'], [2, 'deep'], [1, 'wide'], [0.25, 'broad'], [0.25, 'many'], [0.2, 'chain']]));
    if (rng.p(0.08)) lookAlike(rng, s);
    if (flatCount(s, s.exports[0]) <= (size ? 260 : 380)) return s;
  }
}
function enumSize(rng) { return rng.weighted([[4, rng.range(1, 7)], [7, rng.range(1, 32)], [2, 8], [2, 9], [2, 16], [2, 17], [2, 32], [1, 31]]); }
function genChain(rng) { // one long path of nested structs
  const n = rng.range(16, 80), decls = [];
  for (let i = 0; i < n; i++) {
    const r = rng.f(), f = [{ name: rng.pick(['a', 'b', 'nx', 'v']), type: i ? 'N' + (i - 1) : rng.pick(BUILTINS), array: r < 0.1, optional: r > 0.9 }];
    if (rng.p(0.3)) f.push({ name: 'k', type: rng.pick(BUILTINS), array: false, optional: rng.p(0.3) });
    decls.push({ k: 'struct', name: 'N' + i, fields: rng.shuffle(f) });
  }
  rng.shuffle(decls);
  return { decls, exports: ['N' + (n - 1)], xpos: [rng.range(0, n)] };
}
function genOnce(rng, size) {
  if (size === 'chain') return genChain(rng);
  const cfg = {
    tiny: [rng.int(2), rng.range(1, 2), 3], small: [rng.int(3), rng.range(1, 4), 5], medium: [rng.int(5), rng.range(3, 8), 7],
    large: [rng.int(8), rng.range(8, 20), 8], deep: [rng.int(3), rng.range(5, 14), 3], wide: [rng.int(4), rng.range(1, 3), 34],
  }[size];
  const [nE, nS, maxF] = cfg || (size === 'broad' ? [rng.int(6), rng.range(1, 2), rng.pick([40, 66, 70, 130, 260, 300])] : [rng.int(30), rng.range(20, 70), 4]);
  const tnames = new Set();
  const decls = [];
  const avail = [];
  for (let i = 0; i < nE; i++) {
    const name = ident(rng, tnames, 'type'), vs = new Set(), variants = [];
    for (let k = enumSize(rng); k > 0; k--) variants.push(ident(rng, vs, 'variant'));
    decls.push({ k: 'enum', name, variants });
    avail.push(name);
  }
  const flat = new Map(avail.map(n => [n, 1]));
  const pUser = rng.pick([0.3, 0.5, 0.8]);
  const pArr = rng.pick([0.1, 0.25, 0.4]), pOpt = rng.pick([0.1, 0.25, 0.4]);
  for (let i = 0; i < nS; i++) {
    const name = ident(rng, tnames, 'type');
    const last = i === nS - 1;
    const used = new Set(), fields = [];
    let nF = rng.p(0.04) ? 0 : size === 'broad' && last ? rng.range(maxF >> 1, maxF) : rng.range(1, size === 'broad' ? 5 : maxF);
    let tot = 1;
    for (let k = 0; k < nF; k++) {
      let type;
      if (size === 'deep' && k === 0 && i > 0 && rng.p(0.9)) type = decls[decls.length - 1].name;
      else if (avail.length && rng.p(pUser)) type = rng.p(0.5) ? avail[avail.length - 1 - rng.int(Math.min(3, avail.length))] : rng.pick(avail);
      else type = rng.pick(BUILTINS);
      const w = flat.get(type) || 1;
      if (tot + w > (size === 'broad' ? 330 : 200)) type = rng.pick(BUILTINS);
      tot += flat.get(type) || 1;
      const r = rng.f();
      fields.push({ name: ident(rng, used, last || rng.p(0.7) ? 'topfield' : 'field'), type, array: r < pArr, optional: r >= pArr && r < pArr + pOpt });
    }
    rng.shuffle(fields);
    flat.set(name, tot);
    decls.push({ k: 'struct', name, fields });
    avail.push(name);
  }
  const exp = decls[decls.length - 1].name;
  rng.shuffle(decls);
  return { decls, exports: [exp], xpos: [rng.range(0, decls.length)] };
}

// ---- reference rules ----
function refDefects(ast) {
  const D = [];
  const seen = new Map();
  for (const d of ast.decls) { if (seen.has(d.name)) D.push({ kind: 'dupDecl', name: d.name }); else seen.set(d.name, d); }
  if (ast.exports.length === 0) D.push({ kind: 'noExport' });
  if (ast.exports.length > 1) D.push({ kind: 'multiExport' });
  for (const d of ast.decls) {
    if (d.k === 'enum') {
      if (d.variants.length === 0) D.push({ kind: 'emptyEnum', name: d.name });
      if (d.variants.length > 32) D.push({ kind: 'bigEnum', name: d.name, n: d.variants.length });
      const vs = new Set();
      for (const v of d.variants) { if (vs.has(v)) D.push({ kind: 'dupVariant', name: d.name, item: v }); vs.add(v); }
    } else {
      const fs = new Set();
      for (const f of d.fields) {
        if (fs.has(f.name)) D.push({ kind: 'dupField', name: d.name, item: f.name });
        fs.add(f.name);
        if (f.array && f.optional) D.push({ kind: 'optArray', name: d.name, item: f.name });
        if (!BUILTINS.includes(f.type) && !seen.has(f.type)) D.push({ kind: 'unknownType', name: f.type });
      }
    }
  }
  // cycles, over all declarations of a name
  const edges = new Map();
  for (const d of ast.decls) { if (!edges.has(d.name)) edges.set(d.name, new Set()); if (d.k === 'struct') for (const f of d.fields) if (seen.has(f.type)) edges.get(d.name).add(f.type); }
  for (const n of edges.keys()) {
    const st = [...edges.get(n)], vis = new Set();
    let on = false;
    while (st.length) { const m = st.pop(); if (m === n) { on = true; break; } if (vis.has(m)) continue; vis.add(m); for (const k of edges.get(m) || []) st.push(k); }
    if (on) D.push({ kind: 'cycle', name: n });
  }
  for (const e of ast.exports) {
    const ds = ast.decls.filter(d => d.name === e);
    if (!ds.length && !BUILTINS.includes(e)) D.push({ kind: 'exportUnknown', name: e });
    else if (!ds.length || ds.some(d => d.k !== 'struct')) D.push({ kind: 'exportNotStruct', name: e });
  }
  return D;
}
// Is the diagnostic true of the schema? returns null if true/unjudgeable, else a reason.
function judgeDiagnostic(msg, ast) {
  const D = refDefects(ast);
  const has = (kind, q = {}) => D.some(d => d.kind === kind && Object.keys(q).every(k => d[k] === q[k]));
  let m;
  const fail = w => w;
  if (/more than one export/.test(msg)) return has('multiExport') ? null : fail('schema does not have more than one export');
  if (/has no export/.test(msg)) return has('noExport') ? null : fail('schema has an export');
  if ((m = /duplicate declaration: (\S+)/.exec(msg))) return has('dupDecl', { name: m[1] }) ? null : fail(`'${m[1]}' is not declared twice`);
  if ((m = /Enum '(\w*)' must have at least one variant/.exec(msg))) return has('emptyEnum', { name: m[1] }) ? null : fail(`enum '${m[1]}' is not empty`);
  if ((m = /Enum '(\w*)' has too many variants \((\d+)\/32\)/.exec(msg))) return has('bigEnum', { name: m[1], n: +m[2] }) ? null : fail(`enum '${m[1]}' does not have ${m[2]} variants`);
  if ((m = /Duplicate variant '(\w*)' on enum '(\w*)'/.exec(msg))) return has('dupVariant', { name: m[2], item: m[1] }) ? null : fail(`variant '${m[1]}' is not repeated on enum '${m[2]}'`);
  if ((m = /Duplicate field '(\w*)' on struct '(\w*)'/.exec(msg))) return has('dupField', { name: m[2], item: m[1] }) ? null : fail(`field '${m[1]}' is not repeated on struct '${m[2]}'`);
  if ((m = /Field '(\w*)' in struct '(\w*)' cannot be optional and array/.exec(msg))) return has('optArray', { name: m[2], item: m[1] }) ? null : fail(`field '${m[1]}' of '${m[2]}' is not an optional array`);
  if ((m = /Declaration for type '(\w*)' does not exist/.exec(msg))) return has('unknownType', { name: m[1] }) ? null : fail(`type '${m[1]}' is declared (or never used)`);
  if (/cycle/i.test(msg) && (m = /type '(\w*)'/.exec(msg))) return has('cycle', { name: m[1] }) ? null : fail(`type '${m[1]}' is not on a cycle`);
  if ((m = /Export '(\w*)' could not be resolved/.exec(msg))) return has('exportUnknown', { name: m[1] }) ? null : fail(`export '${m[1]}' is declared`);
  if ((m = /export '(\w*)', which is not a struct/.exec(msg))) return has('exportNotStruct', { name: m[1] }) ? null : fail(`export '${m[1]}' is a struct`);
  return { unjudged: true }; // other wording
}

// ---- break a valid schema in a chosen way (mutates a copy) ----
const DEFECTS = ['dupDecl', 'dupField', 'dupVariant', 'emptyEnum', 'bigEnum', 'optArray', 'unknownType', 'cycle', 'selfCycle', 'noExport', 'multiExport', 'exportUnknown', 'exportEnum', 'exportBuiltin'];
function clone(x) { return JSON.parse(JSON.stringify(x)); }
// The same schema with more in it: one struct much wider, many further declarations, or a long chain hung below a struct.
function spread(rng, ast) {
  const s = clone(ast), n = rng.pick([15, 17, 31, 33, 40, 63, 65, 70, 100, 127, 129, 140]);
  const structs = s.decls.filter(d => d.k === 'struct'), has = new Set(s.decls.map(d => d.name));
  const plain = (name, type) => ({ name, type: type || rng.pick(BUILTINS), array: rng.p(0.1), optional: false });
  const how = rng.pick(['wide', 'many', 'chain']);
  if (how === 'wide') {
    const d = rng.pick(structs), used = new Set(d.fields.map(f => f.name));
    for (let i = 0; i < n; i++) if (!used.has('w' + i)) d.fields.splice(rng.int(d.fields.length + 1), 0, plain('w' + i));
  } else {
    const mine = [];
    for (let i = 0; i < n; i++) {
      const name = 'Xt' + i;
      if (has.has(name)) break;
      const below = how === 'chain' && i ? mine[i - 1].name : null;
      mine.push(!below && rng.p(0.2) && i ? { k: 'enum', name, variants: ['A', 'B'] } : { k: 'struct', name, fields: below ? [plain('nx', below)] : [plain('v')] });
    }
    if (!mine.length) return null;
    if (how === 'chain') { const d = rng.pick(structs); let i = 0; while (d.fields.some(f => f.name === 'ch' + i)) i++; d.fields.push(plain('ch' + i, mine[mine.length - 1].name)); }
    for (const d of mine) s.decls.splice(rng.int(s.decls.length + 1), 0, d);
  }
  return flatCount(s, s.exports[0]) <= 900 ? s : null;
}
function breakSchema(rng, ast, kind) {
  const s = clone(ast);
  const structs = s.decls.filter(d => d.k === 'struct'), enums = s.decls.filter(d => d.k === 'enum');
  const fresh = p => { let i = 0; while (s.decls.some(d => d.name === p + i)) i++; return p + i; };
  const insert = d => s.decls.splice(rng.int(s.decls.length + 1), 0, d);
  const addField = (d, f) => d.fields.splice(rng.int(d.fields.length + 1), 0, f);
  const freshField = d => { let i = 0; while (d.fields.some(f => f.name === 'zz' + i)) i++; return 'zz' + i; };
  // structs whose every declaration is fine stay fine: only what is asked for gets broken
  switch (kind) {
    case 'dupDecl': {
      const d = rng.pick(s.decls), nd = rng.p(0.3) ? clone(d) : rng.p(0.5) ? { k: 'enum', name: d.name, variants: ['A', 'B'] } : { k: 'struct', name: d.name, fields: [{ name: 'v', type: rng.pick(BUILTINS), array: false, optional: false }] };
      if (rng.p(0.2)) { nd.name = s.decls[0].name; s.decls.push(nd); } else insert(nd);
      break;
    }
    case 'dupField': {
      const c = structs.filter(d => d.fields.length);
      if (!c.length) return null;
      const far = rng.p(0.25);
      const d = far ? c.reduce((a, b) => b.fields.length > a.fields.length ? b : a) : rng.pick(c), f = far ? d.fields[0] : rng.pick(d.fields);
      const nf = rng.p(0.4) ? clone(f) : { name: f.name, type: rng.p(0.6) ? rng.pick(BUILTINS) : f.type, array: rng.p(0.3), optional: false };
      if (far) d.fields.push(nf); else addField(d, nf); break;
    }
    case 'dupVariant': {
      const c = enums.filter(d => d.variants.length && d.variants.length < 32);
      let d = c.length ? rng.pick(c) : null;
      if (!d) { d = { k: 'enum', name: fresh('Ex'), variants: ['A', 'B', 'C'] }; insert(d); }
      if (rng.p(0.25)) d.variants.push(d.variants[0]); else d.variants.splice(rng.int(d.variants.length + 1), 0, rng.pick(d.variants));
      break;
    }
    case 'emptyEnum': if (enums.length && rng.p(0.5)) rng.pick(enums).variants = []; else insert({ k: 'enum', name: fresh('Ex'), variants: [] }); break;
    case 'bigEnum': {
      const n = rng.pick([33, 33, 34, 40, 64, 65, 100, 256, 257]);
      const v = []; for (let i = 0; i < n; i++) v.push('V' + i);
      if (enums.length && rng.p(0.5)) rng.pick(enums).variants = v; else insert({ k: 'enum', name: fresh('Ex'), variants: v });
      break;
    }
    case 'optArray': {
      const c = structs.filter(d => d.fields.length);
      if (c.length && rng.p(0.6)) { const f = rng.pick(rng.pick(c).fields); f.array = f.optional = true; }
      else { const d = rng.pick(structs); addField(d, { name: freshField(d), type: rng.pick(BUILTINS), array: true, optional: true }); }
      break;
    }
    case 'unknownType': {
      const d = rng.pick(structs);
      const bad = rng.pick(['Missing', 'uint64', 'int64', 'uint', 'int', 'bool', 'double', 'u8', 'Strings', 'String', 'Uint8', 'str', d.name + 'X', d.name.toLowerCase() + '_']);
      if (s.decls.some(x => x.name === bad) || BUILTINS.includes(bad)) return null;
      if (d.fields.length && rng.p(0.5)) rng.pick(d.fields).type = bad; else addField(d, { name: freshField(d), type: bad, array: rng.p(0.3), optional: false });
      break;
    }
    case 'selfCycle': { const d = rng.pick(structs); addField(d, { name: freshField(d), type: d.name, array: rng.p(0.4), optional: false }); if (rng.p(0.3)) { const f = d.fields.find(f => f.type === d.name); if (!f.array) f.optional = true; } break; }
    case 'cycle': {
      // a ring of fresh structs (length 2..6) possibly hung below an existing struct, or a back edge in the existing graph
      if (rng.p(0.5) && structs.length > 1) {
        const by = new Map(s.decls.map(d => [d.name, d]));
        const a = rng.pick(structs);
        const reach = []; const st = [a.name], vis = new Set();
        while (st.length) { const n = st.pop(); if (vis.has(n)) continue; vis.add(n); const d = by.get(n); if (d && d.k === 'struct') { if (d !== a) reach.push(d); for (const f of d.fields) st.push(f.type); } }
        if (!reach.length) return null;
        const b = rng.pick(reach);
        addField(b, { name: freshField(b), type: a.name, array: rng.p(0.3), optional: false });
      } else {
        const n = rng.weighted([[8, rng.range(2, 6)], [1, rng.range(7, 40)]]), names = [];
        for (let i = 0; i < n; i++) names.push(fresh('Ring' + i + '_'));
        const ring = names.map((nm, i) => ({ k: 'struct', name: nm, fields: rng.shuffle([{ name: 'nx', type: names[(i + 1) % n], array: rng.p(0.2), optional: false }].concat(rng.p(0.5) ? [{ name: 'pad', type: rng.pick(BUILTINS), array: false, optional: false }] : [])) }));
        for (const d of ring) insert(d);
        if (rng.p(0.6)) { const d = rng.pick(structs); addField(d, { name: freshField(d), type: rng.pick(names), array: false, optional: false }); }
      }
      break;
    }
    case 'noExport': s.exports = []; s.xpos = []; break;
    case 'multiExport': if (!s.exports.length) return null; s.exports.push(rng.p(0.5) ? s.exports[0] : rng.pick(s.decls).name); s.xpos.push(rng.range(0, s.decls.length)); break;
    case 'exportUnknown': s.exports = [rng.pick(['Missing', 'Nope', s.exports[0] + '_', s.exports[0] + '2'])]; if (s.decls.some(d => d.name === s.exports[0])) return null; break;
    case 'exportEnum': { let d = enums.length ? rng.pick(enums) : null; if (!d) { d = { k: 'enum', name: fresh('Ex'), variants: ['A'] }; insert(d); } s.exports = [d.name]; break; }
    case 'exportBuiltin': s.exports = [rng.pick(BUILTINS)]; break;
    default: throw new Error(kind);
  }
  return s;
}

// ---- printer: one of the many spellings the grammar allows ----
function printSchema(ast, fmtSeed) {
  const rng = new Rng('fmt' + fmtSeed);
  const style = rng.int(4); // 0: compact 1: readme style 2: random 3: random with comments
  const sp = () => style < 2 ? ' ' : rng.pick(['', ' ', '  ', '\t', ' \t ']);
  const ws = () => style === 0 ? ' ' : style === 1 ? '\n    ' : rng.pick(['', ' ', '\n', '\n  ', '\t', '\r\n', ' \n\n ']);
  const ws1 = () => { const w = ws(); return w === '' ? ' ' : w; };
  const cmt = () => '#' + rng.pick(['', ' c', ' A: struct { x: y }', ' export Z', ' ünïcode ✓', ' # x', ' }', '\t,']) + '\n';
  let out = style >= 2 ? rng.pick(['', '\n', '\n\n', '\r\n']) : '';
  const body = (items, sep, allowComment) => {
    let b = '{' + ws();
    items.forEach((it, i) => {
      if (allowComment && style === 3 && rng.p(0.15)) b += cmt() + ws();
      const lastOne = i === items.length - 1;
      // the separator comma is optional; without one, white space must keep the words apart
      if (lastOne) b += it + (rng.p(style === 1 ? 0.3 : 0.2) ? ws() + ',' : '') + ws();
      else if (style >= 2 && rng.p(0.15)) b += it + ws1();
      else b += it + (style >= 2 ? ws() : '') + ',' + ws1();
    });
    if (allowComment && style === 3 && rng.p(0.1)) b += cmt();
    return b + ws() + '}';
  };
  const pieces = ast.decls.map(d => {
    const head = d.name + (style < 2 ? '' : sp()) + ':' + sp();
    if (d.k === 'enum') return head + 'enum' + sp() + body(d.variants, ',', false);
    return head + 'struct' + sp() + body(d.fields.map(f => f.name + (style < 2 ? '' : sp()) + (f.optional ? '?' : '') + ':' + sp() + f.type + (f.array ? '[]' : '')), ',', true);
  });
  const pos = ast.exports.map((e, i) => [Math.min(ast.xpos && ast.xpos[i] !== undefined ? ast.xpos[i] : pieces.length, pieces.length), e]).sort((a, b) => a[0] - b[0]);
  let pi = 0;
  for (let i = 0; i <= pieces.length; i++) {
    while (pi < pos.length && pos[pi][0] === i) {
      const esp = sp();
      out += 'export' + (esp === '' ? ' ' : esp) + pos[pi][1] + (style === 3 && rng.p(0.2) ? ' ' + cmt() : '\n');
      if (style >= 2 && rng.p(0.3)) out += rng.pick(['\n', '\n\n', '\r\n']);
      pi++;
    }
    if (i < pieces.length) {
      if (style === 3 && rng.p(0.25)) out += cmt();
      if (style >= 2 && rng.p(0.2)) out += rng.pick(['  ', '\t']);
      out += pieces[i] + (style < 2 ? '\n' : rng.pick(['\n', '\n\n', ' ', '\r\n', ' \n']));
    }
  }
  if (style === 3 && rng.p(0.3)) out += '# end' + rng.pick(['', '\n']);
  return out;
}

function shrinkAst(ast) {
  const out = [];
  ast.decls.forEach((d, i) => {
    if (ast.exports.includes(d.name)) return;
    const c = clone(ast); c.decls.splice(i, 1); c.xpos = c.xpos.map(() => c.decls.length); out.push(c);
    // drop the declaration together with every field that uses it
    const e = clone(c); for (const x of e.decls) if (x.k === 'struct') x.fields = x.fields.filter(f => f.type !== d.name); out.push(e);
  });
  ast.decls.forEach((d, i) => {
    const n = d.k === 'struct' ? d.fields.length : d.variants.length;
    const key = d.k === 'struct' ? 'fields' : 'variants';
    if (n > 3) { for (const half of [[0, n >> 1], [n >> 1, n]]) { const c = clone(ast); c.decls[i][key] = c.decls[i][key].slice(...half); out.push(c); } }
    for (let j = 0; j < n; j++) { const c = clone(ast); c.decls[i][key].splice(j, 1); out.push(c); }
    if (d.k === 'struct') d.fields.forEach((f, j) => {
      if (f.array || f.optional) { const c = clone(ast); c.decls[i].fields[j].array = c.decls[i].fields[j].optional = false; out.push(c); }
      if (f.type !== 'uint8') { const c = clone(ast); c.decls[i].fields[j].type = 'uint8'; out.push(c); }
    });
  });
  return out;
}
function reachable(ast, name) {
  const by = new Map(ast.decls.map(d => [d.name, d])), vis = new Set(), st = [name];
  while (st.length) { const n = st.pop(); if (vis.has(n) || !by.has(n)) continue; vis.add(n); const d = by.get(n); if (d.k === 'struct') for (const f of d.fields) st.push(f.type); }
  return vis;
}

module.exports = { BUILTINS, TSWORDS, DEFECTS, genSchema, breakSchema, spread, refDefects, judgeDiagnostic, printSchema, shrinkAst, clone, reachable, flatCount, legalIdent, ident, BAD_TOP_FIELD };

'use strict';
// Every build of a schema exposes the declared TypeScript API.
const S = require('../schema'), W = require('../wire'), X = require('../world'), E = require('../endpoint');
const { Rng } = require('../prng');
const { sha, body } = require('../ctx');
const map = (ast, f) => { let t = S.BUILTINS.includes(f.type) ? (f.type === 'string' ? 'string' : 'number') : 'user:' + f.type; if (f.array) t += '[]'; if (f.optional) t += '|undefined'; return t; };
const same = (got, want) => got === want || (want.endsWith('|undefined') && (got === want.replace('|undefined', '|null|undefined')));
// compares what a client sees with what the schema declares; null or a reason
function judge(ast, r) {
  const T = ast.exports[0], by = new Map(ast.decls.map(d => [d.name, d]));
  if (r.errors.length) return { cls: 'diagnostics', msg: `module does not type-check: ${r.errors[0]}` };
  const names = Object.keys(r.api);
  if (names.length !== 1 || names[0] !== T) return { cls: 'exports', msg: `module exports ${names.join(', ') || 'nothing'} instead of ${T}` };
  const a = r.api[T], fields = by.get(T).fields;
  if (!a.isClass) return { cls: 'class', msg: `${T} is not a class` };
  if (a.ctor.length !== 1) return { cls: 'ctor', msg: `${a.ctor.length} constructors` };
  const ps = a.ctor[0].params;
  if (ps.length !== fields.length) return { cls: 'ctor', msg: `constructor has ${ps.length} parameters for ${fields.length} fields` };
  for (let i = 0; i < fields.length; i++) {
    if (ps[i][0] !== fields[i].name) return { cls: 'ctor-order', msg: `constructor parameter ${i} is ${ps[i][0]}, declared field ${i} is ${fields[i].name}` };
    if (!same(ps[i][1], map(ast, fields[i]))) return { cls: 'ctor-type', msg: `constructor parameter ${ps[i][0]} has type ${ps[i][1]}, declared ${map(ast, fields[i])}` };
  }
  const data = Object.keys(a.props).filter(k => a.props[k] !== 'method');
  for (const f of fields) { if (!a.props[f.name]) return { cls: 'property', msg: `class has no property ${f.name}` }; if (!same(a.props[f.name], map(ast, f))) return { cls: 'property', msg: `property ${f.name} has type ${a.props[f.name]}, declared ${map(ast, f)}` }; }
  const extra = data.find(k => !fields.some(f => f.name === k));
  if (extra) return { cls: 'property', msg: `class has an undeclared property ${extra}` };
  if (a.read.length !== 1 || a.read[0].params.length !== 1 || !/^user:ArrayBuffer/.test(a.read[0].params[0][1]) || a.read[0].ret !== `user:${T}|null`) return { cls: 'read', msg: `read() is ${JSON.stringify(a.read)}` };
  if (a.write.length !== 1 || a.write[0].ret !== 'user:ArrayBuffer') return { cls: 'write', msg: `write() is ${JSON.stringify(a.write)}` };
  const want = [...S.reachable(ast, T)].filter(n => n !== T).sort(), got = Object.keys(a.types).filter(n => n !== 'prototype').sort();
  if (String(want) !== String(got)) return { cls: 'types', msg: `declares types [${got}] instead of the reachable [${want}]` };
  for (const n of want) {
    const d = by.get(n), t = a.types[n];
    if (d.k === 'enum') {
      if (!t.variants) return { cls: 'enum', msg: `${n} is not an enum` };
      if (String(t.variants.map(v => v[0])) !== String(d.variants)) return { cls: 'enum', msg: `enum ${n} has variants ${t.variants.map(v => v[0])} instead of ${d.variants}` };
      for (let i = 0; i < d.variants.length; i++) if (t.variants[i][1] !== 2 ** i) return { cls: 'enum', msg: `${n}.${d.variants[i]} is ${t.variants[i][1]} instead of ${2 ** i}` };
    } else {
      if (!t.fields) return { cls: 'interface', msg: `${n} is not an interface` };
      if (String(Object.keys(t.fields).sort()) !== String(d.fields.map(f => f.name).sort())) return { cls: 'interface', msg: `interface ${n} has fields ${Object.keys(t.fields)} instead of ${d.fields.map(f => f.name)}` };
      for (const f of d.fields) if (!same(t.fields[f.name], map(ast, f))) return { cls: 'interface', msg: `${n}.${f.name} has type ${t.fields[f.name]}, declared ${map(ast, f)}` };
    }
  }
  return null;
}
// run time: what is constructed and what is decoded has the declared properties and nothing else
function shape(ast, name, v, where) {
  const by = new Map(ast.decls.map(d => [d.name, d])), d = by.get(name);
  if (S.BUILTINS.includes(name)) return typeof v === (name === 'string' ? 'string' : 'number') ? null : `${where} is ${typeof v}`;
  if (d.k === 'enum') return d.variants.some((_, i) => 2 ** i === v) ? null : `${where} is ${v}, no variant of ${name}`;
  if (typeof v !== 'object' || v === null) return `${where} is ${typeof v}`;
  const keys = Object.keys(v), extra = keys.find(k => !d.fields.some(f => f.name === k));
  if (extra !== undefined) return `${where} has an undeclared property ${extra}`;
  for (const f of d.fields) {
    if (!keys.includes(f.name) && !f.optional) return `${where}.${f.name} is missing`;
    const x = v[f.name], p = where + '.' + f.name;
    if (f.optional) { if (x === undefined) continue; if (x === null) return `${p} is null`; }
    if (f.array) { if (!Array.isArray(x)) return `${p} is not an array`; for (let i = 0; i < x.length; i++) { if (!(i in x)) return `${p}[${i}] is a hole`; const w = shape(ast, f.type, x[i], `${p}[${i}]`); if (w) return w; } continue; }
    const w = shape(ast, f.type, x, p); if (w) return w;
  }
  return null;
}
module.exports = {
  id: 'C14', judge, quick: { runs: 1400, secs: 150 }, thorough: { runs: 16000, secs: 780 }, chunk: 4,
  components: { real: ['packetc binary built from /repo', 'TypeScript 5.9 compiler and type checker in strict mode', 'generated module code, executed'], simulated: ['hash seed, clock, directory order and invocation form of each build'], stub: ['"packet" runtime library (its type declarations and Reader/Writer)'] },
  assumptions: ['The "packet" runtime offers Reader and Writer with the methods the generated code calls, typed over number and string.', 'Names that collide with TypeScript keywords or the members of the generated class are listed as known findings and not generated otherwise.'],
  rule: 'A run is a group of 6 random schemas, each built 1-3 times under different hash seeds and invocation forms; every distinct module is type-checked in strict mode and its public API compared member by member with the schema, and constructed and decoded messages are compared with the declared shape. Non-trivial if at least one module was judged.',
  gen(rng) { return { items: Array.from({ length: 6 }, () => ({ ast: S.genSchema(rng), fmt: rng.int(1000000), builds: Array.from({ length: rng.range(1, 3) }, () => Object.assign(X.genBuild(rng), { lib: rng.p(0.5) })), v: rng.u32() })) }; },
  run(sc, ctx) {
    const files = {}, of = {};
    for (const it of sc.items) {
      const text = S.printSchema(it.ast, it.fmt);
      for (const b of it.builds) {
        const r = X.buildOne(ctx, text, b);
        if (!r.ok) continue; // C05
        const k = 'm' + sha(body(r.text));
        files[k] = r.text; of[k] = it;
      }
    }
    const res = E.checkTypes(files);
    const js = E.emit(files);
    for (const k of Object.keys(files)) {
      const it = of[k], v = judge(it.ast, res[k]);
      ctx.count('modules_judged');
      if (v) return { viol: v };
      const host = new X.Host({ js: js[k].js }, { grow: 64 }, it.ast), rng = new Rng('v' + it.v), T = it.ast.exports[0];
      for (let i = 0; i < 3; i++) {
        const val = W.genValue(rng, it.ast, T);
        let got;
        try {
          const o = host.make(val), w = shape(it.ast, T, o, 'constructed'); // what the constructor was given
          if (w) return { viol: { cls: 'constructed', msg: w } };
          got = X.guarded(() => host.decode(W.refEncode(it.ast, T, val)), 20000);
        } catch (e) { return { viol: { cls: 'throws', msg: String(e.message).slice(0, 160) } }; }
        if (!got) return { viol: { cls: 'decoded', msg: 'a well-formed packet is refused' } };
        const w = shape(it.ast, T, got, 'decoded');
        if (w) return { viol: { cls: 'decoded', msg: w } };
        if (sc.wantInstance && typeof got.write !== 'function') return { viol: { cls: 'instance', msg: 'the value returned by read() is declared as the class but has no write()' } };
        ctx.count('messages_shaped');
      }
    }
    return { nontrivial: Object.keys(files).length > 0, sample: { schema: S.printSchema(sc.items[0].ast, sc.items[0].fmt).slice(0, 400), modules: Object.keys(files).length } };
  },
  *shrink(sc) {
    const c = () => S.clone(sc);
    for (let i = 0; i < sc.items.length; i++) if (sc.items.length > 1) { const x = c(); x.items = [x.items[i]]; yield x; }
    if (sc.items.length === 1) {
      const it = sc.items[0];
      for (let i = 0; i < it.builds.length; i++) if (it.builds.length > 1) { const x = c(); x.items[0].builds.splice(i, 1); yield x; }
      for (const a of S.shrinkAst(it.ast)) if (S.refDefects(a).length === 0) { const x = c(); x.items[0].ast = a; yield x; }
      if (it.fmt) { const x = c(); x.items[0].fmt = 0; yield x; }
      { const x = c(); Object.assign(x.items[0].builds[0], { mode: 'single', sib: [], storm: null, tz: '', dirseed: 0, unk: 0, path: 0 }); if (JSON.stringify(x) !== JSON.stringify(sc)) yield x; }
    }
  },
};

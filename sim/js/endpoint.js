'use strict';
// Turns generated TypeScript into running endpoints: real tsc emit, then a module instance bound to a stub runtime.
const vm = require('vm');
const fs = require('fs');
const path = require('path');
const { createRequire } = require('module');
const TSBASE = process.env.VERIF_TS_BASE || '/opt/veriftools/node/node_modules';
const { Budget } = require('./wire');
const ts = createRequire(path.join(TSBASE, 'x.js'))('typescript');

// files: {name: text} -> {name: {js, errors}}
function emit(files) {
  const names = Object.keys(files).map(n => '/m/' + n + '.ts');
  const src = new Map(Object.keys(files).map(n => ['/m/' + n + '.ts', files[n]]));
  const opts = { noLib: true, noResolve: true, noCheck: true, target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.CommonJS, removeComments: false, types: [] };
  const out = {};
  const host = {
    getSourceFile: (f, l) => src.has(f) ? ts.createSourceFile(f, src.get(f), l, true) : undefined,
    getDefaultLibFileName: () => 'lib.d.ts', writeFile: (f, t) => { out[f] = t; }, getCurrentDirectory: () => '/m', getDirectories: () => [],
    fileExists: f => src.has(f), readFile: f => src.get(f), getCanonicalFileName: f => f, useCaseSensitiveFileNames: () => true, getNewLine: () => '\n',
  };
  const prog = ts.createProgram(names, opts, host);
  prog.emit();
  const res = {};
  for (const n of Object.keys(files)) {
    const f = '/m/' + n + '.ts';
    const errs = prog.getSyntacticDiagnostics(prog.getSourceFile(f)).map(d => ts.flattenDiagnosticMessageText(d.messageText, ' '));
    res[n] = { js: out['/m/' + n + '.js'], errors: errs };
  }
  return res;
}
const SCRIPTS = new Map();
// an endpoint that allocates for a count it did not check must not take the simulator down with it
const checkLen = a => { if (a.length === 1 && typeof a[0] === 'number' && a[0] > 2000000) throw new Budget(`array of ${a[0]} elements`); };
const GuardedArray = new Proxy(Array, { construct(t, a, n) { checkLen(a); return Reflect.construct(t, a, n === GuardedArray ? t : n); }, apply(t, _, a) { checkLen(a); return Array(...a); } });
function instantiate(js, runtime) {
  let s = SCRIPTS.get(js);
  if (!s) { s = new vm.Script(`(function(exports, require, module, Array){(function(){${js}\n}).call(exports)})`, { filename: 'generated.js' }); if (SCRIPTS.size > 300) SCRIPTS.clear(); SCRIPTS.set(js, s); }
  const mod = { exports: {} };
  const fn = s.runInThisContext();
  fn(mod.exports, n => { if (n === 'packet') return runtime; throw new Error('generated module requires ' + JSON.stringify(n)); }, mod, GuardedArray);
  return mod.exports;
}

// ---- full type checking against the declared API ----
const LIBDIR = path.join(TSBASE, 'typescript', 'lib');
const libCache = new Map();
const PACKET_DTS = `declare module "packet" {
  export class Reader { constructor(data: ArrayBuffer); failed: boolean;
    read_uint8(): number; read_uint16(): number; read_uint32(): number; read_int8(): number; read_int16(): number; read_int32(): number; read_float(): number; read_string(len: number): string; }
  export class Writer { constructor(buffer?: ArrayBuffer);
    write_uint8(v: number): void; write_uint16(v: number): void; write_uint32(v: number): void; write_int8(v: number): void; write_int16(v: number): void; write_int32(v: number): void; write_float(v: number): void; write_string(v: string): void; finish(): ArrayBuffer; }
}`;
function checkTypes(files) {
  const src = new Map(Object.keys(files).map(n => ['/m/' + n + '.ts', files[n]]));
  src.set('/m/packet.d.ts', PACKET_DTS);
  const opts = { strict: true, target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.CommonJS, moduleResolution: ts.ModuleResolutionKind.Node10, lib: ['lib.es2020.d.ts'], types: [], noEmit: true, skipLibCheck: true, ignoreDeprecations: '5.0' };
  const getSourceFile = (f, l) => {
    if (src.has(f)) return ts.createSourceFile(f, src.get(f), l, true);
    const b = path.basename(f);
    if (/^lib\..*d\.ts$/.test(b)) {
      if (!libCache.has(b)) { const p = path.join(LIBDIR, b); libCache.set(b, fs.existsSync(p) ? ts.createSourceFile(p, fs.readFileSync(p, 'utf8'), l, true) : undefined); }
      return libCache.get(b);
    }
    return undefined;
  };
  const host = {
    getSourceFile, getDefaultLibFileName: o => path.join(LIBDIR, ts.getDefaultLibFileName(o)), getDefaultLibLocation: () => LIBDIR, writeFile() {}, getCurrentDirectory: () => '/m', getDirectories: () => [],
    fileExists: f => src.has(f) || (path.dirname(f) === LIBDIR && fs.existsSync(f)), readFile: f => src.get(f), getCanonicalFileName: f => f, useCaseSensitiveFileNames: () => true, getNewLine: () => '\n',
  };
  const prog = ts.createProgram([...src.keys()], opts, host);
  const checker = prog.getTypeChecker();
  const res = {};
  for (const n of Object.keys(files)) {
    const sf = prog.getSourceFile('/m/' + n + '.ts');
    const ds = [...prog.getSyntacticDiagnostics(sf), ...prog.getSemanticDiagnostics(sf)];
    const sym = checker.getSymbolAtLocation(sf);
    const exps = sym ? checker.getExportsOfModule(sym).map(s => ({ name: s.name, members: (s.flags & ts.SymbolFlags.Namespace) ? checker.getExportsOfModule(s).map(m => m.name) : [] })) : [];
    res[n] = { api: describe(checker, exps0(checker, sym)), errors: ds.map(d => { const p = d.file && d.start !== undefined ? d.file.getLineAndCharacterOfPosition(d.start) : { line: 0, character: 0 }; return `${p.line + 1}:${p.character + 1} TS${d.code} ${ts.flattenDiagnosticMessageText(d.messageText, ' ')}`; }), exports: exps };
  }
  return res;
}
function exps0(checker, sym) { return sym ? checker.getExportsOfModule(sym) : []; }
// What a client of the module sees: {name: {ctor:[[name,type]], props:{name:type}, statics, methods, types:{name: {fields}|{variants}}}}
function describe(checker, syms) {
  const nodeOf = s => s.valueDeclaration || (s.declarations && s.declarations[0]);
  const typeOf = t => {
    if (t.flags & ts.TypeFlags.Undefined) return 'undefined';
    if (t.flags & ts.TypeFlags.Null) return 'null';
    if (t.flags & ts.TypeFlags.Any) return 'any';
    if (checker.isArrayType(t)) return typeOf(checker.getTypeArguments(t)[0]) + '[]';
    if (t.flags & ts.TypeFlags.EnumLike) { const s = t.symbol.flags & ts.SymbolFlags.EnumMember ? t.symbol.parent : t.symbol; return 'user:' + s.name; }
    if (t.isUnion()) {
      const nn = checker.getNonNullableType(t);
      if (nn !== t) return typeOf(nn) + t.types.filter(x => x.flags & (ts.TypeFlags.Undefined | ts.TypeFlags.Null)).map(x => '|' + typeOf(x)).sort().join('');
      return t.types.map(typeOf).sort().join('|');
    }
    if (t.flags & ts.TypeFlags.Number) return 'number';
    if (t.flags & ts.TypeFlags.String) return 'string';
    if (t.symbol && t.symbol.flags & (ts.SymbolFlags.Interface | ts.SymbolFlags.Class | ts.SymbolFlags.TypeAlias)) return 'user:' + t.symbol.name;
    if (t.aliasSymbol) return 'user:' + t.aliasSymbol.name;
    return checker.typeToString(t);
  };
  const props = t => { const o = {}; for (const p of checker.getPropertiesOfType(t)) { const pt = checker.getTypeOfSymbolAtLocation(p, nodeOf(p)); o[p.name] = pt.getCallSignatures().length ? 'method' : typeOf(pt); } return o; };
  const sigs = s => s.map(x => ({ params: x.getParameters().map(p => [p.name, typeOf(checker.getTypeOfSymbolAtLocation(p, nodeOf(p)))]), ret: typeOf(x.getReturnType()) }));
  const out = {};
  for (const s of syms) {
    const d = out[s.name] = { isClass: !!(s.flags & ts.SymbolFlags.Class), types: {} };
    if (d.isClass) {
      const st = checker.getTypeOfSymbolAtLocation(s, nodeOf(s)), inst = checker.getDeclaredTypeOfSymbol(s);
      d.ctor = sigs(st.getConstructSignatures()); d.props = props(inst);
      const read = st.getProperty('read'), write = inst.getProperty('write');
      d.read = read ? sigs(checker.getTypeOfSymbolAtLocation(read, nodeOf(read)).getCallSignatures()) : [];
      d.write = write ? sigs(checker.getTypeOfSymbolAtLocation(write, nodeOf(write)).getCallSignatures()) : [];
    }
    if (s.exports) s.exports.forEach(m => {
      if (m.flags & ts.SymbolFlags.Enum) { const v = []; for (const dl of m.declarations) if (ts.isEnumDeclaration(dl)) for (const e of dl.members) v.push([e.name.text, checker.getConstantValue(e)]); d.types[m.name] = { variants: v }; } else if (m.flags & (ts.SymbolFlags.Interface | ts.SymbolFlags.TypeAlias)) {
        const t = checker.getDeclaredTypeOfSymbol(m); const opt = {};
        for (const p of checker.getPropertiesOfType(t)) opt[p.name] = !!(p.flags & ts.SymbolFlags.Optional);
        d.types[m.name] = { fields: props(t), optional: opt };
      } else if (m.flags & ts.SymbolFlags.Class) d.types[m.name] = { fields: props(checker.getDeclaredTypeOfSymbol(m)), optional: {} };
    });
  }
  return out;
}
module.exports = { emit, instantiate, checkTypes, ts };

'use strict';
// The reference side of the wire: stub runtime ("packet" Reader/Writer), value generator, reference codec.
const { Rng } = require('./prng');

// ---- stub of the external runtime library ----
// The generated code imports { Reader, Writer } from "packet"; that library is not part of the repository.
// Its behaviour is varied per world (policy) within what the generated code may rely on.
class Budget extends Error {}
function makeRuntime(policy, stat) {
  // policy: {sticky: once failed every later read yields 0, grow: writer growth, cap: initial capacity}
  const tick = n => { stat.ops += n; if (stat.ops > stat.limit) throw new Budget('operation budget exceeded'); };
  class Reader {
    constructor(data) {
      if (!(data instanceof ArrayBuffer) && Object.prototype.toString.call(data) !== '[object ArrayBuffer]') stat.type.push('Reader got ' + typeof data);
      this.view = new DataView(data); this.off = 0; this.failed = false;
    }
    need(n) {
      tick(1);
      if ((policy.sticky && this.failed) || this.off + n > this.view.byteLength) { this.failed = true; return false; }
      return true;
    }
    get(n, f) { if (!this.need(n)) return 0; const v = f.call(this.view, this.off, true); this.off += n; return v; }
    read_uint8() { return this.get(1, DataView.prototype.getUint8); }
    read_uint16() { return this.get(2, DataView.prototype.getUint16); }
    read_uint32() { return this.get(4, DataView.prototype.getUint32); }
    read_int8() { return this.get(1, DataView.prototype.getInt8); }
    read_int16() { return this.get(2, DataView.prototype.getInt16); }
    read_int32() { return this.get(4, DataView.prototype.getInt32); }
    read_float() { return this.get(4, DataView.prototype.getFloat32); }
    read_string(n) {
      if (typeof n !== 'number') stat.type.push('read_string length is ' + typeof n);
      if (!(n >= 0) || !this.need(n)) { this.failed = true; return ''; }
      tick(n >> 4);
      let s = '';
      for (let i = 0; i < n; i++) s += String.fromCharCode(this.view.getUint8(this.off + i));
      this.off += n;
      return s;
    }
  }
  class Writer {
    constructor(buffer) {
      if (buffer !== undefined && Object.prototype.toString.call(buffer) !== '[object ArrayBuffer]') stat.type.push('Writer got ' + typeof buffer);
      this.buf = buffer || new ArrayBuffer(policy.cap); this.view = new DataView(this.buf); this.off = 0;
    }
    room(n) {
      tick(1);
      if (this.off + n > this.buf.byteLength) {
        const nb = new ArrayBuffer(Math.max(this.off + n, Math.ceil(this.buf.byteLength * policy.grow)));
        new Uint8Array(nb).set(new Uint8Array(this.buf, 0, this.off));
        this.buf = nb; this.view = new DataView(nb);
      }
    }
    put(n, f, v, what) { if (typeof v !== 'number') stat.type.push(`write_${what} got ${v === null ? 'null' : typeof v}`); this.room(n); f.call(this.view, this.off, v, true); this.off += n; }
    write_uint8(v) { this.put(1, DataView.prototype.setUint8, v, 'uint8'); }
    write_uint16(v) { this.put(2, DataView.prototype.setUint16, v, 'uint16'); }
    write_uint32(v) { this.put(4, DataView.prototype.setUint32, v, 'uint32'); }
    write_int8(v) { this.put(1, DataView.prototype.setInt8, v, 'int8'); }
    write_int16(v) { this.put(2, DataView.prototype.setInt16, v, 'int16'); }
    write_int32(v) { this.put(4, DataView.prototype.setInt32, v, 'int32'); }
    write_float(v) { this.put(4, DataView.prototype.setFloat32, v, 'float'); }
    write_string(s) {
      if (typeof s !== 'string') { stat.type.push('write_string got ' + typeof s); s = ''; }
      this.room(s.length); tick(s.length >> 4);
      for (let i = 0; i < s.length; i++) this.view.setUint8(this.off + i, s.charCodeAt(i) & 255);
      this.off += s.length;
    }
    finish() { return this.buf.slice(0, this.off); }
  }
  return { Reader, Writer };
}

// ---- values ----
const INTS = { uint8: [0, 255], uint16: [0, 65535], uint32: [0, 4294967295], int8: [-128, 127], int16: [-32768, 32767], int32: [-2147483648, 2147483647] };
function genInt(rng, t) {
  const [lo, hi] = INTS[t];
  return rng.weighted([[2, lo], [2, hi], [2, 0], [1, 1], [1, lo < 0 ? -1 : 2], [1, lo + 1], [1, hi - 1], [5, lo + Math.floor(rng.f() * (hi - lo + 1))]]);
}
function genFloat(rng) {
  return rng.weighted([[2, 0], [1, -0], [1, 1], [1, -1.5], [1, NaN], [1, Infinity], [1, -Infinity], [1, Math.fround(3.4e38)], [1, Math.fround(1e-40)], [3, Math.fround((rng.f() - 0.5) * 1e6)], [2, Math.fround(rng.f())]]);
}
function genString(rng, st) {
  const n = rng.weighted([[3, 0], [3, 1], [5, rng.range(2, 20)], [0.3, 255], [0.3, 256], [0.2, 300], [st.big ? 0 : 0.06, rng.pick([1000, 1024, 1025, 4096, 4097, 8193, 32768])], [st.big ? 0 : 0.05, 65536]]);
  if (n > 400) st.big = true;
  st.left -= n >> 3;
  let s = '';
  if (n > 400) return 'k'.repeat(n);
  for (let i = 0; i < n; i++) s += String.fromCharCode(rng.range(0, 127));
  return s;
}
function genValue(rng, ast, name) {
  const by = new Map(ast.decls.map(d => [d.name, d]));
  const st = { left: rng.weighted([[6, 60], [3, 250], [1, 1200]]) };
  const one = t => {
    st.left--;
    if (INTS[t]) return genInt(rng, t);
    if (t === 'float') return genFloat(rng);
    if (t === 'string') return genString(rng, st);
    const d = by.get(t);
    if (d.k === 'enum') { const n = d.variants.length; return rng.weighted([[1, 1], [1, 2 ** (n - 1)], [3, 2 ** rng.int(n)]]); }
    const o = {};
    for (const f of d.fields) {
      if (f.array) {
        let n = rng.weighted([[3, 0], [3, 1], [2, 2], [2, rng.range(3, 8)], [0.5, rng.range(9, 60)], [0.2, 256], [0.1, 300], [f.type === 'uint8' && !st.big ? 0.03 : 0, 66000]]);
        if (n > 60000) { st.big = true; o[f.name] = Array.from({ length: n }, (_, i) => (i * 7) & 255); continue; }
        if (!st.big && !(by.has(f.type) && by.get(f.type).k === 'struct') && rng.p(0.01)) { st.big = true; st.left = 0; o[f.name] = Array.from({ length: rng.pick([511, 1000, 1025, 2049, 4097]) }, () => one(f.type)); continue; }
        if (st.left <= 0) n = 0; else if (n > st.left) n = Math.max(1, st.left >> 1);
        const a = [];
        for (let i = 0; i < n; i++) a.push(one(f.type));
        o[f.name] = a;
      } else if (f.optional && (st.left <= 0 || rng.p(0.4))) o[f.name] = undefined;
      else o[f.name] = one(f.type);
    }
    return o;
  };
  return one(name);
}

// ---- reference codec: the declared layout ----
function enumWidth(d) { const n = d.variants.length; return n <= 8 ? 1 : n <= 16 ? 2 : 4; }
function refEncode(ast, name, value) {
  const by = new Map(ast.decls.map(d => [d.name, d]));
  let buf = Buffer.alloc(256), off = 0;
  const room = n => { if (off + n > buf.length) { const b = Buffer.alloc(Math.max(buf.length * 2, off + n)); buf.copy(b, 0, 0, off); buf = b; } };
  const num = (n, m, v) => { room(n); buf[m](v, off); off += n; };
  const put = (t, v) => {
    switch (t) {
      case 'uint8': return num(1, 'writeUInt8', v);
      case 'uint16': return num(2, 'writeUInt16LE', v);
      case 'uint32': return num(4, 'writeUInt32LE', v);
      case 'int8': return num(1, 'writeInt8', v);
      case 'int16': return num(2, 'writeInt16LE', v);
      case 'int32': return num(4, 'writeInt32LE', v);
      case 'float': return num(4, 'writeFloatLE', v);
      case 'string': num(4, 'writeUInt32LE', v.length); room(v.length); buf.write(v, off, 'latin1'); off += v.length; return;
    }
    const d = by.get(t);
    if (d.k === 'enum') { const w = enumWidth(d); return num(w, w === 1 ? 'writeUInt8' : w === 2 ? 'writeUInt16LE' : 'writeUInt32LE', v); }
    for (const f of d.fields) {
      const x = v[f.name];
      if (f.array) { num(4, 'writeUInt32LE', x.length); for (const e of x) put(f.type, e); }
      else if (f.optional) { if (x === undefined || x === null) num(1, 'writeUInt8', 0); else { num(1, 'writeUInt8', 1); put(f.type, x); } }
      else put(f.type, x);
    }
  };
  put(name, value);
  return Buffer.from(buf.subarray(0, off));
}
// Offsets of the parts of an encoded message, for aimed corruption.
function refMarks(ast, name, value) {
  const by = new Map(ast.decls.map(d => [d.name, d]));
  const marks = [];
  let off = 0;
  const put = (t, v) => {
    const w = { uint8: 1, int8: 1, uint16: 2, int16: 2, uint32: 4, int32: 4, float: 4 }[t];
    if (w) { off += w; return; }
    if (t === 'string') { marks.push({ k: 'strlen', off, w: 4 }); off += 4 + v.length; return; }
    const d = by.get(t);
    if (d.k === 'enum') { const ew = enumWidth(d); marks.push({ k: 'enum', off, w: ew, n: d.variants.length }); off += ew; return; }
    for (const f of d.fields) {
      const x = v[f.name];
      if (f.array) { marks.push({ k: 'count', off, w: 4 }); off += 4; for (const e of x) put(f.type, e); }
      else if (f.optional) { marks.push({ k: 'flag', off, w: 1 }); off += 1; if (x !== undefined && x !== null) put(f.type, x); }
      else put(f.type, x);
    }
  };
  put(name, value);
  marks.push({ k: 'end', off, w: 0 });
  return marks;
}
// Judge arbitrary bytes. verdict: 'accept' (must decode to value), 'reject' (must be null),
// 'either' (null, or value), 'huge' (declares more elements than is decided here: not judged)
const HUGE = 20000, WORKCAP = 120000;
function refDecode(ast, name, bytes) {
  const by = new Map(ast.decls.map(d => [d.name, d]));
  let off = 0, bad = false, soft = false, work = 0, why = '';
  class Huge extends Error {}
  const num = (n, m) => { if (++work > WORKCAP) throw new Huge(); if (off + n > bytes.length) { bad = true; why = why || 'truncated'; return 0; } const v = bytes[m](off); off += n; return v; };
  const get = t => {
    switch (t) {
      case 'uint8': return num(1, 'readUInt8');
      case 'uint16': return num(2, 'readUInt16LE');
      case 'uint32': return num(4, 'readUInt32LE');
      case 'int8': return num(1, 'readInt8');
      case 'int16': return num(2, 'readInt16LE');
      case 'int32': return num(4, 'readInt32LE');
      case 'float': return num(4, 'readFloatLE');
      case 'string': {
        const n = num(4, 'readUInt32LE');
        if (off + n > bytes.length) { bad = true; why = why || 'string past end'; return ''; }
        const s = bytes.toString('latin1', off, off + n); off += n; return s;
      }
    }
    const d = by.get(t);
    if (d.k === 'enum') {
      const w = enumWidth(d), v = num(w, w === 1 ? 'readUInt8' : w === 2 ? 'readUInt16LE' : 'readUInt32LE');
      const top = 2 ** (d.variants.length - 1);
      if (v < 1 || v > top) { bad = true; why = why || `enum value ${v} outside 1..${top}`; }
      else if (!Number.isInteger(Math.log2(v))) soft = true;
      return v;
    }
    const o = {};
    for (const f of d.fields) {
      if (f.array) {
        const n = num(4, 'readUInt32LE');
        if (n > HUGE) throw new Huge();
        const a = []; for (let i = 0; i < n; i++) { if (++work > WORKCAP) throw new Huge(); a.push(get(f.type)); }
        o[f.name] = a;
      } else if (f.optional) { const p = num(1, 'readUInt8'); if (p > 1) soft = true; o[f.name] = p > 0 ? get(f.type) : undefined; }
      else o[f.name] = get(f.type);
    }
    return o;
  };
  let value;
  try { value = get(name); } catch (e) { if (e instanceof Huge) return { verdict: 'huge' }; throw e; }
  if (bad) return { verdict: 'reject', why };
  if (off < bytes.length) soft = true;
  return { verdict: soft ? 'either' : 'accept', value };
}

// Compare a decoded object with the reference value. null = same.
function diff(ast, name, want, got, path = 'msg') {
  const by = new Map(ast.decls.map(d => [d.name, d]));
  const one = (t, w, g, p) => {
    if (INTS[t]) return g === w ? null : `${p}: want ${w} got ${show(g)}`;
    if (t === 'float') return Object.is(g, w) || (g === w && w === 0 && Object.is(g, w)) ? null : `${p}: want ${Object.is(w, -0) ? '-0' : w} got ${show(g)}`;
    if (t === 'string') return g === w ? null : `${p}: want ${JSON.stringify(w).slice(0, 60)} got ${show(g)}`;
    const d = by.get(t);
    if (d.k === 'enum') return g === w ? null : `${p}: want variant value ${w} got ${show(g)}`;
    if (g === null || typeof g !== 'object') return `${p}: want an object got ${show(g)}`;
    for (const f of d.fields) {
      const wv = w[f.name], gv = g[f.name], q = p + '.' + f.name;
      if (f.array) {
        if (!Array.isArray(gv)) return `${q}: want an array got ${show(gv)}`;
        if (gv.length !== wv.length) return `${q}: want ${wv.length} elements got ${gv.length}`;
        for (let i = 0; i < wv.length; i++) { const r = one(f.type, wv[i], gv[i], `${q}[${i}]`); if (r) return r; }
      } else if (f.optional && (wv === undefined || wv === null)) { if (gv !== undefined && gv !== null) return `${q}: want absent got ${show(gv)}`; }
      else { const r = one(f.type, wv, gv, q); if (r) return r; }
    }
    const names = new Set(d.fields.map(f => f.name));
    for (const k of Object.keys(g)) if (!names.has(k) && g[k] !== undefined) return `${p}: unexpected member '${k}'`;
    return null;
  };
  return one(name, want, got, path);
}
function show(v) { if (v === undefined) return 'undefined'; if (Object.is(v, -0)) return '-0'; if (typeof v === 'number') return String(v); try { return JSON.stringify(v).slice(0, 60); } catch (e) { return String(v); } }

module.exports = { makeRuntime, genValue, refEncode, refDecode, refMarks, diff, enumWidth, Budget };

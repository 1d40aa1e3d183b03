'use strict';
// Builds of one schema under different build environments, and the simulated network of endpoints made from them.
const vm = require('vm');
const { Rng } = require('./prng');
const S = require('./schema');
const W = require('./wire');
const E = require('./endpoint');
const { body, sha } = require('./ctx');
const { genHost } = require('./host');

const TZS = ['', 'UTC', 'Europe/Prague', 'America/New_York', 'XXX+11:30', 'Asia/Kolkata', 'ABC-14'];
const SIBLINGS = ['A: struct { v: uint8 }\nexport A\n', 'B: enum { X, Y }\nA: struct { b: B, q: string[] }\nexport A\n', 'T: struct { x: float, y?: int32 }\nexport T\n'];

const STEMS = ['a', 'Zed', 'x.y', 'proto v2', '\u00fcn\u00ef', '0', 'ts', 'index', 'n'.repeat(200), '.hidden'];

// ---- generation ----
function genBuild(rng) {
  const mode = rng.weighted([[5, 'single'], [3, 'dir'], [2, 'deep']]);
  return {
    hash: rng.seed(), clk: [rng.range(0, 4102444800), rng.int(1000000000)], tz: rng.pick(TZS), dirseed: rng.p(0.5) ? rng.seed() : 0, unk: rng.p(0.2) ? 1 : 0,
    ...genHost(rng), mode, path: rng.int(4), stem: rng.p(0.6) ? 'main' : rng.pick(STEMS), stale: rng.p(0.15),
    sib: mode === 'single' ? [] : Array.from({ length: rng.p(0.03) ? rng.range(10, 40) : rng.int(4) }, () => rng.int(SIBLINGS.length + 1)),
    storm: rng.p(0.2) ? { seed: rng.seed(), short: rng.pick([0, 300]), eintr: rng.pick([0, 200]), chunk: rng.pick([64, 512, 4096]) } : null,
  };
}
function valid(ast) {
  if (S.refDefects(ast).length) return false;
  for (const d of ast.decls) {
    if (!S.legalIdent(d.name) || S.TSWORDS.has(d.name)) return false;
    for (const n of d.k === 'enum' ? d.variants : d.fields.map(f => f.name)) if (!S.legalIdent(n)) return false;
  }
  const x = ast.decls.find(d => d.name === ast.exports[0]);
  return x.fields.every(f => !S.TSWORDS.has(f.name) && !S.BAD_TOP_FIELD.has(f.name)) && S.flatCount(ast, x.name) <= 400;
}

// ---- building ----
function buildOne(ctx, text, b, other) {
  const l = b.lib ? ctx.call(text, b) : null; // built by a program that embeds the compiler
  if (l) return { ok: l.ok, text: l.text, exit: l, err: l.err };
  const tree = {}, p = {};
  const sibText = k => k < SIBLINGS.length ? SIBLINGS[k] : other || SIBLINGS[0];
  const stem = b.stem || 'main';
  let args, out;
  if (b.mode === 'single') {
    tree[`src/${stem}.pkt`] = text; out = `gen/${stem}.ts`;
    args = [[`src/${stem}.pkt`, 'gen'], [`./src/${stem}.pkt`, './gen/'], [`$R/src/${stem}.pkt`, '$R/gen'], [`src/../src/${stem}.pkt`, 'gen']][b.path];
  } else {
    const at = b.mode === 'deep' ? 'src/a/b/' : 'src/';
    tree[`${at}${stem}.pkt`] = text; out = `gen/${b.mode === 'deep' ? 'a/b/' : ''}${stem}.ts`;
    b.sib.forEach((k, i) => { tree[at + 'kaz'[i % 3] + i + '.pkt'] = sibText(k); });
    args = [['src', 'gen'], ['./src', 'gen/'], ['$R/src', '$R/gen'], ['src/', './gen']][b.path];
  }
  if (b.stale) tree[out] = '// Generated by packetc v0.1.0 at Thu, 01 Jan 1970 00:00:00 +0000\nold contents\n'.repeat(500);
  const w = ctx.cli.newRoot(tree);
  try {
    args = args.map(a => a.replace('$R', w.root));
    const r = ctx.exec(w, { procs: [{ args: ['ts', ...args], hash: b.hash, clk: b.clk, tz: b.tz, dirseed: b.dirseed, unk: b.unk, pid: b.pid, vars: b.vars }], storms: b.storm ? [b.storm] : [] });
    const snap = ctx.cli.snapshot(w.root);
    const f = snap[out];
    ctx.trace.push(f ? sha(f) : 'none');
    const ok = r.exits[0].how === 'exit' && r.exits[0].code === 0 && !!f;
    return { ok, text: f ? f.toString('utf8') : null, exit: r.exits[0], err: r.err[0].toString() };
  } finally { ctx.cli.drop(w); }
}
const EMITTED = new Map();
function emitCached(texts) { // identical bodies are emitted once
  const need = {};
  for (const t of texts) { const k = sha(body(t)); if (!EMITTED.has(k)) need['g' + k] = t; }
  if (Object.keys(need).length) {
    if (EMITTED.size > 200) EMITTED.clear();
    for (const t of texts) { const k = sha(body(t)); if (!EMITTED.has(k)) need['g' + k] = t; }
    const r = E.emit(need);
    for (const n in r) EMITTED.set(n.slice(1), r[n]);
  }
  return texts.map(t => EMITTED.get(sha(body(t))));
}
// builds everything; returns {err} or {texts, mods}
function buildAll(ctx, sc) {
  const text = S.printSchema(sc.ast, sc.fmt);
  const other = sc.other ? S.printSchema(sc.other, 1) : undefined;
  const texts = [];
  for (const b of sc.builds) {
    const r = buildOne(ctx, text, b, other);
    if (!r.ok) return { rejected: r };
    texts.push(r.text);
  }
  return { text, texts, mods: emitCached(texts) };
}

// ---- endpoints ----
class Host {
  constructor(mod, policy, ast) {
    this.stat = { ops: 0, limit: 600000, type: [] };
    this.exp = ast.exports[0];
    this.rt = W.makeRuntime(policy, this.stat);
    this.m = E.instantiate(mod.js, this.rt);
    this.C = this.m[this.exp];
    this.fields = ast.decls.find(d => d.name === this.exp).fields;
    this.buf = new ArrayBuffer(64);
    if (typeof this.C !== 'function') throw new Error(`module has no class '${this.exp}'`);
  }
  make(v) { return new this.C(...this.fields.map(f => v[f.name])); }
  encode(v, reuse) { this.stat.ops = 0; const o = this.make(v); const r = reuse ? o.write(this.buf) : o.write(); return { bytes: Buffer.from(new Uint8Array(r)), obj: o }; }
  reencode(o) { this.stat.ops = 0; return Buffer.from(new Uint8Array(this.C.prototype.write.call(o))); }
  decode(bytes) { this.stat.ops = 0; const ab = new ArrayBuffer(bytes.length); new Uint8Array(ab).set(bytes); return this.C.read(ab); }
}

// ---- network scenario ----
// w: weights of link faults
function genNet(rng, ast, nb, w) {
  const hosts = rng.range(2, 4), n = rng.range(4, w.maxMsgs || 14);
  const msgs = [];
  for (let i = 0; i < n; i++) {
    const from = rng.int(hosts), to = (from + 1 + rng.int(hosts - 1)) % hosts;
    const m = { t: rng.int(1000), from, to, v: rng.u32(), reuse: rng.p(0.3), absent: rng.p(0.3) ? 1 : 0, lat: rng.range(1, 60), f: [] };
    if (rng.p(w.pfault)) for (let k = rng.weighted([[6, 1], [3, 2], [1, 3]]); k > 0; k--) m.f.push(genLinkFault(rng, w, n));
    msgs.push(m);
  }
  msgs.sort((a, b) => a.t - b.t);
  const ops = [];
  for (let k = rng.int(4); k > 0; k--) ops.push({ t: rng.int(1050), host: rng.int(hosts), build: rng.p(0.7) ? rng.int(nb) : -1 });
  return { hosts: Array.from({ length: hosts }, () => rng.int(nb)), policy: { sticky: rng.p(0.5), grow: rng.pick([1, 1.5, 2]), cap: rng.pick([0, 1, 16, 1024]) }, msgs, ops };
}
function genLinkFault(rng, w, n) {
  const k = rng.weighted(w.kinds);
  switch (k) {
    case 'drop': return { k };
    case 'dup': return { k, d: rng.range(0, 200) };
    case 'delay': return { k, d: rng.range(1, 600) };
    case 'flip': return { k, pos: rng.f(), bit: rng.int(8), nb: rng.weighted([[6, 1], [2, 2], [1, 8]]), s: rng.u32() };
    case 'cut': return { k, keep: rng.f(), end: rng.p(0.35) ? rng.range(1, 4) : 0, mark: rng.p(0.4) ? rng.u32() : 0 };
    case 'mark': return { k, m: rng.u32(), val: rng.int(16), s: rng.u32() };
    case 'splice': return { k, with: rng.int(n), at: rng.f() };
    case 'append': return { k, s: rng.u32(), len: rng.range(1, 9) };
    case 'random': return { k, s: rng.u32(), len: rng.pick([0, 1, 2, 3, 4, 5, 8, 16, 40, 120]) };
    default: throw new Error(k);
  }
}
// apply the damaging faults of a packet; returns new bytes
function damage(pkt, faults, all, ctx) {
  let b = pkt.bytes;
  for (const f of faults) {
    switch (f.k) {
      case 'flip': {
        if (!b.length) break;
        b = Buffer.from(b); const r = new Rng(f.s); let p = Math.floor(f.pos * b.length);
        for (let i = 0; i < f.nb; i++) { b[p] ^= 1 << (i ? r.int(8) : f.bit); p = r.int(b.length); }
        break;
      }
      case 'cut': {
        if (!b.length) break;
        let keep = Math.floor(f.keep * b.length);
        if (f.mark && pkt.marks.length) { const m = pkt.marks[f.mark % pkt.marks.length]; keep = Math.min(b.length, m.off + (f.mark >>> 16) % (m.w + 1)); }
        else if (f.end) keep = Math.max(0, b.length - f.end);
        b = Buffer.from(b.subarray(0, keep)); break;
      }
      case 'mark': {
        const ms = pkt.marks.filter(m => m.w > 0 && m.off + m.w <= b.length);
        if (!ms.length) break;
        b = Buffer.from(b); const m = ms[f.m % ms.length], r = new Rng(f.s); let v;
        const top = m.k === 'enum' ? 2 ** (m.n - 1) : 0, max = 2 ** (8 * m.w) - 1, old = b.readUIntLE(m.off, m.w);
        if (m.k === 'enum') v = [0, top, top * 2, top + 1, max, top * 2 - 1, 3, top - 1, 2 ** (8 * m.w - 1), 1, top * 4, top * 2 + 1, r.int(max + 1), 2 ** r.int(8 * m.w), top >> 1, 0][f.val];
        else if (m.k === 'flag') v = [0, 1, 2, 255, 128, old ^ 1, 0, 1, 3, 254, old ^ 1, old ^ 1, 0, 1, 16, 127][f.val];
        else if (m.k === 'strlen') v = [0, 1, old + 1, old - 1, 4294967295, 2147483648, 65536, b.length, b.length - m.off - 4, b.length - m.off - 3, 2147483647, r.int(64), 256, old + 256, old ^ 1, 4294967292][f.val];
        else v = [0, 1, old + 1, old - 1, 300, 20000, 1000, b.length, b.length - m.off - 4, 2, 3, r.int(64), 256, old + 256, old ^ 1, 19999][f.val];
        if (v < 0 || v > max) v = max & 255;
        b.writeUIntLE(v, m.off, m.w); break;
      }
      case 'splice': { const o = all[f.with]; if (!o || !o.bytes) break; const at = Math.floor(f.at * b.length); b = Buffer.concat([b.subarray(0, at), o.bytes.subarray(Math.min(at, o.bytes.length))]); break; }
      case 'append': { const r = new Rng(f.s); b = Buffer.concat([b, Buffer.from(Array.from({ length: f.len }, () => r.int(256)))]); break; }
      case 'raw': b = Buffer.from(f.hex, 'hex'); break;
      case 'random': { const r = new Rng(f.s); b = Buffer.from(Array.from({ length: f.len }, () => r.p(0.3) ? r.int(3) : r.int(256))); break; }
      default: break;
    }
  }
  return b;
}

const GUARD = new vm.Script('globalThis.__verif_job()');
function guarded(fn, ms) { globalThis.__verif_job = fn; try { return GUARD.runInThisContext({ timeout: ms }); } finally { globalThis.__verif_job = undefined; } }

// Runs the network. mon: {sent(h,pkt), delivered(h,pkt,bytes,intact,result), end(state)} each returning null or {cls,msg}
function runNet(ctx, sc, mods, mon) {
  const ast = sc.ast, exp = ast.exports[0], net = sc.net;
  const mk = b => new Host(mods[b % mods.length], net.policy, ast);
  let viol = null;
  const say = v => { if (v && !viol) viol = v; };
  try {
    guarded(() => {
      const peers = mods.map((m, i) => mk(i)); // one observer endpoint per build, never on the network
      const H = net.hosts.map(b => ({ b: b % mods.length, ep: mk(b), kept: [], refused: 0, inc: 0 }));
      const q = []; let seq = 0;
      const at = (t, fn) => { q.push([t, seq++, fn]); };
      const pk = [];
      let now = 0;
      net.ops.forEach(o => at(o.t, () => {
        const h = H[o.host % H.length];
        if (o.build >= 0) h.b = o.build % mods.length;
        h.ep = mk(h.b); h.kept = []; h.inc++;
        ctx.fault(o.build >= 0 ? 'host:redeploy' : 'host:restart'); ctx.note(`${now} host ${o.host} ${o.build >= 0 ? 'redeploy' : 'restart'}`);
      }));
      net.msgs.forEach((m, i) => at(m.t, () => {
        const from = m.from % H.length, to = m.to % H.length, h = H[from];
        const value = W.genValue(new Rng(m.v), ast, exp);
        const given = m.absent ? nullify(value) : value;
        const p = { i, from, to, value, given, build: h.b, reuse: m.reuse };
        ctx.count('messages_sent');
        try { const e = h.ep.encode(given, m.reuse); p.bytes = e.bytes; p.obj = e.obj; } catch (e) { p.error = e; p.bytes = null; }
        pk[i] = p;
        say(mon.sent ? mon.sent({ h, peers, H }, p) : null);
        ctx.trace.push(`${now} send ${i} ${p.bytes ? sha(p.bytes) : p.error}`); ctx.fold.push(`s${from}>${to}`);
        if (!p.bytes || viol) return;
        p.marks = W.refMarks(ast, exp, value);
        let copies = [0], extra = 0, lost = false;
        for (const f of m.f) { if (f.k === 'drop') lost = true; else if (f.k === 'dup') copies.push(f.d); else if (f.k === 'delay') extra += f.d; ctx.fault('link:' + f.k); ctx.fold.push(f.k); }
        if (lost) return;
        const bytes = damage(p, m.f, pk, ctx), intact = bytes.equals(p.bytes);
        for (const c of copies) at(now + m.lat + extra + c, () => {
          const r = H[to];
          ctx.count('packets_delivered'); if (!intact) ctx.count('damaged_delivered');
          const res = {};
          // a count that declares far more elements than the packet holds is a known finding (unbounded work); it is pinned
          // there and not executed here, except when the scenario asks for it
          if (!intact && !sc.runHuge && W.refDecode(ast, exp, bytes).verdict === 'huge') { ctx.count('oversized_count_not_executed'); return; }
          try { res.obj = r.ep.decode(bytes); } catch (e) { res.error = e; }
          if (res.obj === null) r.refused++;
          ctx.trace.push(`${now} recv ${i} ${res.error ? 'throw ' + res.error.message : res.obj === null ? 'null' : 'ok'}`); ctx.fold.push(`r${i}@${to}`);
          say(mon.delivered ? mon.delivered({ h: r, peers, H }, p, bytes, intact, res) : null);
        });
      }));
      while (q.length && !viol) {
        let bi = 0;
        for (let k = 1; k < q.length; k++) if (q[k][0] < q[bi][0] || (q[k][0] === q[bi][0] && q[k][1] < q[bi][1])) bi = k;
        const [t, , fn] = q.splice(bi, 1)[0];
        now = t; fn();
      }
      ctx.simNs += now * 1e6;
      if (mon.end && !viol) say(mon.end({ H, peers }));
    }, 30000);
  } catch (e) {
    if (e && e.code === 'ERR_SCRIPT_EXECUTION_TIMEOUT') return { hang: true, viol: { cls: 'hang', msg: 'encoding or decoding did not return within 30 s' } };
    return { crash: e, viol: { cls: 'module', msg: 'generated module unusable: ' + (e && e.message) } };
  }
  return { viol };
}
// absent optionals written as null instead of undefined: both mean absent
function nullify(v) {
  if (v === undefined) return null;
  if (Array.isArray(v)) return v.map(nullify);
  if (v && typeof v === 'object') { const o = {}; for (const k of Object.keys(v)) o[k] = nullify(v[k]); return o; }
  return v;
}

// ---- shrinking a network scenario ----
function* shrinkWorld(sc) {
  const c = () => S.clone(sc);
  for (let i = 0; i < sc.net.msgs.length; i++) { if (sc.net.msgs.length > 1) { const x = c(); x.net.msgs.splice(i, 1); yield x; } }
  if (sc.net.ops.length) { const x = c(); x.net.ops = []; yield x; }
  for (let i = 0; i < sc.net.ops.length; i++) { const x = c(); x.net.ops.splice(i, 1); yield x; }
  for (let i = 0; i < sc.net.msgs.length; i++) for (let k = 0; k < sc.net.msgs[i].f.length; k++) { const x = c(); x.net.msgs[i].f.splice(k, 1); yield x; }
  for (let i = 0; i < sc.builds.length; i++) if (sc.builds.length > 1) { const x = c(); x.builds.splice(i, 1); yield x; }
  for (const a of S.shrinkAst(sc.ast)) { if (valid(a)) { const x = c(); x.ast = a; yield x; } }
  for (let i = 0; i < sc.builds.length; i++) {
    const b = sc.builds[i];
    if (b.mode !== 'single' || b.storm || b.tz || b.dirseed || b.path || b.stale || b.pid || b.vars || b.lib || b.stem !== 'main') { const x = c(); Object.assign(x.builds[i], { mode: 'single', sib: [], storm: null, tz: '', dirseed: 0, unk: 0, path: 0, stem: 'main', stale: false, pid: 0, vars: undefined, lib: false }); yield x; }
  }
  if (sc.fmt !== 0) { const x = c(); x.fmt = 0; yield x; }
  for (let i = 0; i < sc.net.msgs.length; i++) { const m = sc.net.msgs[i]; if (m.reuse || m.absent) { const x = c(); x.net.msgs[i].reuse = false; x.net.msgs[i].absent = 0; yield x; } }
}
function sample(sc) { return { schema: S.printSchema(sc.ast, sc.fmt).slice(0, 600), builds: sc.builds.length, hosts: sc.net && sc.net.hosts.length, messages: sc.net && sc.net.msgs.length, link_faults: sc.net && sc.net.msgs.flatMap(m => m.f.map(f => f.k)), ops: sc.net && sc.net.ops }; }

module.exports = { genBuild, buildOne, buildAll, genNet, runNet, valid, Host, shrinkWorld, sample, emitCached, guarded, nullify, SIBLINGS, TZS };

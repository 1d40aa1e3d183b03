'use strict';
// What a property check needs to execute one scenario: the simulator, counters, caches.
const fs = require('fs');
const path = require('path');
const crypto = require('crypto');
const { Cli } = require('./cli');
const { Lib } = require('./lib');

function sha(s) { return crypto.createHash('sha1').update(s).digest('hex').slice(0, 13); }
class Ctx {
  constructor(env, scratch) {
    this.env = env; this.cli = new Cli(env, scratch); this.lib = new Lib(env, scratch); this.counts = {}; this.faults = {}; this.refs = new Map(); this.simNs = 0;
    this.trace = []; // what happened in the current scenario; its hash identifies the execution
    this.fold = [];  // abstracted trace: which operations and faults in which order, without data
  }
  count(k, n = 1) { this.counts[k] = (this.counts[k] || 0) + n; }
  fault(k, n = 1) { this.faults[k] = (this.faults[k] || 0) + n; }
  reset() { this.trace = []; this.fold = []; this.libUsed = false; }
  // one call of the embedded library in a thread of its own, answered like a run of the binary
  call(text, r) {
    if (!this.env.libhost) return null;
    const x = this.lib.exec([{ threads: [{ hash: r.hash, clk: r.clk, calls: [text] }] }]);
    this.libUsed = true; this.count('library_calls'); this.fold.push('call');
    if (x.dead) { this.trace.push('dead ' + x.code); return { how: 'dead', code: x.code, err: x.dead, ok: false }; }
    const { st, text: t } = x[0].results[0][0];
    this.trace.push(`call ${r.hash} ${sha(text)} ${st} ${sha(t)}`);
    return { how: 'exit', code: [0, 1, 101, 1][st], ok: st === 0, text: st === 0 ? t : null, err: st === 0 ? '' : st === 2 ? 'panicked at ' + t : 'Error: ' + (st === 3 ? 'not text' : t) };
  }
  sig() { return { full: sha(this.trace.join('\n')), fold: sha(this.fold.join('\n')) }; }
  note(s) { this.trace.push(s); this.fold.push(s); }
  // run processes on an existing world and account for everything
  exec(w, opt) {
    const r = this.cli.exec(w, opt);
    this.account(r, opt, w.root);
    return r;
  }
  run(tree, opt) {
    const w = this.cli.newRoot(tree);
    try { const r = this.exec(w, opt); r.snap = this.cli.snapshot(w.root); this.traceSnap(r.snap); return r; } finally { this.cli.drop(w); }
  }
  traceSnap(snap) { for (const k of Object.keys(snap).sort()) this.trace.push(k + ' ' + (snap[k] === null ? 'dir' : sha(snap[k]))); }
  account(r, opt, root) {
    this.count('processes', opt.procs.length); this.count('sim_steps', r.steps);
    for (const e of r.events) {
      if (e.act !== 'go') {
        const k = e.act === 'fail' ? `${e.op}:errno${e.err}` : `${e.op}:${e.act}`;
        this.fault(k);
      }
      this.fold.push(e.p + e.op + (e.act === 'go' ? '' : e.act + e.err));
    }
    for (const a of r.acts) this.fault('editor:' + a.kind);
    for (const a of r.acts) this.fold.push('A' + a.kind);
    this.trace.push(r.raw, ...r.out.map(String).concat(r.err.map(String)).map(t => t.split(root).join('$R')));
    opt.procs.forEach((p, i) => { this.simNs += r.events.filter(e => e.p === i).length * (p.step === undefined ? 1000000 : p.step); });
    for (const j of opt.jumps || []) { this.fault('clock:jump'); this.simNs += Math.abs(j.d) * 1e9; }
  }
  // fault-free single-file compilation of a text by the binary under test (cached; not part of the trace)
  ref(text) {
    const key = Buffer.isBuffer(text) ? text.toString('latin1') : text;
    let v = this.refs.get(key);
    if (!v) {
      const r = this.cli.run({ 'in/s.pkt': text, out: null }, { procs: [{ args: ['ts', 'in/s.pkt', 'out'], hash: '77001' }] });
      const f = r.snap['out/s.ts'];
      v = { ok: r.exits[0].how === 'exit' && r.exits[0].code === 0, exit: r.exits[0], text: f ? f.toString('latin1') : null, err: r.err[0].toString() };
      if (v.text !== null) { v.body = body(v.text); v.canon = canon(v.text); }
      if (this.refs.size > 2000) this.refs.clear();
      this.refs.set(key, v);
    }
    return v;
  }
}
function body(t) { const i = t.indexOf('\n'); return i < 0 ? '' : t.slice(i + 1); }
function head(t) { const i = t.indexOf('\n'); return i < 0 ? t : t.slice(0, i); }
// order-insensitive digest of everything after the stamp line: completeness, not ordering
function canon(t) { return sha(body(t).split('\n').sort().join('\n')) + ':' + body(t).length; }
module.exports = { Ctx, sha, body, head, canon };

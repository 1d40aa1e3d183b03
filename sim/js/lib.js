'use strict';
// A program that embeds the compiler library (sim/libhost), spoken to synchronously over two named pipes.
const fs = require('fs');
const path = require('path');
const { spawn, spawnSync } = require('child_process');

class Lib {
  constructor(env, dir) { this.env = env; this.dir = dir; this.up = false; this.n = 0; }
  start() {
    const d = path.join(this.dir, 'lib' + this.n++);
    fs.mkdirSync(d, { recursive: true });
    this.status = path.join(d, 'status');
    const a = path.join(d, 'a'), b = path.join(d, 'b');
    if (spawnSync('mkfifo', [a, b]).status !== 0) throw new Error('mkfifo failed');
    // the limit on memory turns a runaway allocation into a failure of this process only
    const c = spawn('/bin/sh', ['-c', 'ulimit -v 4000000; ulimit -c 0; LD_PRELOAD=$1 $0 < $2 > $3 2> $4.err; echo $? > $4.t; mv $4.t $4', this.env.libhost, this.env.thr, a, b, this.status], { stdio: 'ignore' });
    c.unref();
    this.w = fs.openSync(a, 'w'); this.r = fs.openSync(b, 'r'); this.up = true;
  }
  stop() { if (this.up) { this.up = false; fs.closeSync(this.w); fs.closeSync(this.r); } }
  read(n) {
    const b = Buffer.alloc(n);
    for (let k = 0; k < n;) { const r = fs.readSync(this.r, b, k, n - k); if (r === 0) return null; k += r; }
    return b;
  }
  // groups: [{seed, mean, budget, threads: [{hash, clk, calls: [text]}]}]
  // returns {dead} or [{results: [[{st, text}]], trace, switches, yields, waits}]
  exec(groups) {
    if (!this.up) this.start();
    const parts = [], u = v => { const b = Buffer.alloc(8); b.writeBigUInt64LE(BigInt.asUintN(64, BigInt(v))); parts.push(b); };
    u(groups.length);
    for (const g of groups) {
      u(g.seed || 0); u(g.mean || 0); u(g.budget === undefined ? 4000 : g.budget); u(g.threads.length);
      for (const t of g.threads) { u(t.hash || 0); u(t.clk ? t.clk[0] : 1000000000); u(t.clk ? t.clk[1] : 0); u(t.calls.length); for (const c of t.calls) { const b = Buffer.from(c); u(b.length); parts.push(b); } }
    }
    const req = Buffer.concat(parts);
    let res = null;
    try {
      for (let k = 0; k < req.length;) k += fs.writeSync(this.w, req, k);
      const h = this.read(8);
      res = h && this.read(Number(h.readBigUInt64LE()));
    } catch (e) { if (e.code !== 'EPIPE') throw e; }
    if (!res) { // the program died: how?
      this.stop();
      for (let i = 0; i < 2000 && !fs.existsSync(this.status); i++) Atomics.wait(new Int32Array(new SharedArrayBuffer(4)), 0, 0, 5);
      const code = fs.existsSync(this.status) ? Number(fs.readFileSync(this.status, 'utf8')) : -1;
      const err = fs.existsSync(this.status + '.err') ? fs.readFileSync(this.status + '.err', 'latin1').trim().slice(0, 200) : '';
      return { dead: code === 77 ? 'deadlock: every thread waits for another one' : code === 142 ? 'no answer within 25 s' : `exit ${code}${err ? ': ' + err : ''}`, code };
    }
    let o = 0;
    const r64 = () => { const v = res.readBigUInt64LE(o); o += 8; return v; };
    return groups.map(g => {
      const results = g.threads.map(t => t.calls.map(() => { const st = res[o++], n = Number(r64()); const text = res.toString('utf8', o, o + n); o += n; return { st, text }; }));
      return { results, trace: r64().toString(16), switches: Number(r64()), yields: Number(r64()), waits: Number(r64()) };
    });
  }
}
module.exports = { Lib };

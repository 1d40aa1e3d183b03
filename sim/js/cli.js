'use strict';
// Runs packetc processes inside the simulator (simrun + LD_PRELOAD shim) on a scratch tree.
const fs = require('fs');
const path = require('path');
const { spawnSync } = require('child_process');

// names which are not valid UTF-8: byte b of such a name is the character U+F700 + b
const RAW = /[\uF780-\uF7FF]/;
const bytes = s => RAW.test(s) ? Buffer.concat(Array.from(s).map(c => RAW.test(c) ? Buffer.from([c.charCodeAt(0) - 0xF700]) : Buffer.from(c))) : Buffer.from(s);
const fp = s => RAW.test(s) ? bytes(s) : s;
const name = b => { const s = b.toString('utf8'); return Buffer.from(s).equals(b) ? s : Array.from(b).map(c => String.fromCharCode(c < 128 ? c : 0xF700 + c)).join(''); };
const names = b => b.toString('latin1').split('/').map(c => name(Buffer.from(c, 'latin1'))).join('/');
const enc = s => s === '' ? '-' : Array.from(bytes(String(s))).map(c => (c > 32 && c < 127 && c !== 37) ? (String.fromCharCode(c)) : '%' + c.toString(16).padStart(2, '0').toUpperCase()).join('').replace(/^-/, '%2D');
const dec = s => { if (s === '-') return ''; const b = []; for (let i = 0; i < s.length; i++) { if (s[i] === '%') { b.push(parseInt(s.substr(i + 1, 2), 16)); i += 2; } else b.push(s.charCodeAt(i)); } return names(Buffer.from(b)); };

class Cli {
  constructor(env, workdir) { this.env = env; this.work = workdir; this.n = 0; this.runs = 0; this.steps = 0; this.wallSim = 0; fs.mkdirSync(workdir, { recursive: true }); }
  // tree: {relpath: Buffer|string|null(dir)|{linkTo}|{sameAs}}
  newRoot(tree) {
    const base = path.join(this.work, 'w' + String(this.n++ % 1000000).padStart(6, '0'))  /* same length every time: path lengths are visible in writes to stdout */, root = path.join(base, 'root');
    fs.mkdirSync(root, { recursive: true }); fs.mkdirSync(path.join(base, 'io'));
    this.put(root, tree);
    return { base, root, files: Object.keys(tree).length };
  }
  put(root, tree) {
    for (const p of Object.keys(tree).sort()) {
      const f = path.join(root, p);
      if (tree[p] === null) fs.mkdirSync(fp(f), { recursive: true });
      else if (tree[p].sameAs) continue;
      else { fs.mkdirSync(fp(path.dirname(f)), { recursive: true }); if (tree[p].linkTo) fs.symlinkSync(tree[p].linkTo, fp(f)); else fs.writeFileSync(fp(f), tree[p]); }
    }
    for (const p of Object.keys(tree)) if (tree[p] && tree[p].sameAs) { fs.mkdirSync(fp(path.dirname(path.join(root, p))), { recursive: true }); fs.linkSync(fp(path.join(root, tree[p].sameAs)), fp(path.join(root, p))); }
  }
  drop(w) { fs.rmSync(w.base, { recursive: true, force: true }); }
  snapshot(root) {
    const out = {};
    const walk = (d, rel) => {
      for (const e of fs.readdirSync(fp(d), { withFileTypes: true, encoding: 'buffer' })) {
        const n = name(e.name), r = rel ? rel + '/' + n : n, q = path.join(d, n), f = fp(q);
        if (e.isDirectory()) { out[r] = null; walk(q, r); } else if (e.isSymbolicLink()) out[r] = Buffer.from('link to ' + fs.readlinkSync(f)); else out[r] = fs.readFileSync(f);
      }
    };
    walk(root, '');
    return out;
  }
  // opt: {procs:[{args, hash, clk:[s,ns], step, dirseed, tz, cwd}], faults:[{p,cls,nth,act,err,n}], storms:[{p,seed,short,eintr,chunk}], jumps:[{p,nth,d}], acts:[{step,kind,a,b}], sched:[..], schedseed, maxsteps}
  exec(w, opt) {
    const L = [`root ${enc(w.root)}`, `bin ${enc(this.env.bin)}`, `shim ${enc(this.env.shim)}`, `outdir ${enc(path.join(w.base, 'io'))}`, `maxsteps ${opt.maxsteps || 300000 + 1500 * w.files /* enough for one write per line of every output */}`];
    if (opt.sched && opt.sched.length) L.push('sched ' + opt.sched.join(' '));
    if (opt.schedseed) L.push('schedseed ' + opt.schedseed);
    for (const p of opt.procs) {
      const c = p.clk || [1000000000, 0];
      L.push(`proc ${p.hash || 1} ${c[0]} ${c[1]} ${p.step === undefined ? 1000000 : p.step} ${p.dirseed || 0} ${p.unk || 0} ${enc(p.tz || '')} ${enc(p.cwd ? path.join(w.root, p.cwd) : w.root)} ${p.args.length} ${p.args.map(enc).join(' ')}`);
    }
    opt.procs.forEach((p, i) => { if (p.pid || p.vars) L.push(`env ${i} ${p.pid || 0} ${(p.vars || []).length} ${(p.vars || []).map(enc).join(' ')}`); });
    for (const f of opt.faults || []) L.push(`fault ${f.p || 0} ${f.cls} ${f.nth} ${f.act} ${f.err || 0} ${f.n || 0} ${f.rep || 0}`);
    for (const f of opt.storms || []) L.push(`storm ${f.p || 0} ${f.seed} ${f.short || 0} ${f.eintr || 0} ${f.chunk || 0} ${f.row || 3}`);
    for (const j of opt.jumps || []) L.push(`jump ${j.p || 0} ${j.nth} ${j.d}`);
    for (const a of opt.acts || []) L.push(`act ${a.step} ${a.kind} ${enc(a.a)} ${enc(a.b || '')}`);
    const plan = path.join(w.base, 'plan');
    fs.writeFileSync(plan, L.join('\n') + '\n');
    const t0 = process.hrtime.bigint();
    const r = spawnSync(this.env.simrun, [plan], { encoding: 'latin1', maxBuffer: 1 << 28, timeout: 250000, killSignal: 'SIGKILL' });
    this.wallSim += Number(process.hrtime.bigint() - t0);
    if (r.status !== 0 || r.error) throw new Error(`simrun failed: status=${r.status} sig=${r.signal} ${r.error || ''} ${r.stderr}`);
    this.runs++;
    const res = { events: [], acts: [], exits: [], steps: 0, raw: r.stdout, out: [], err: [] };
    for (const line of r.stdout.split('\n')) {
      if (!line) continue;
      const t = line.split(' ');
      if (t[0] === 'E') res.events.push({ step: +t[1], p: +t[2], op: t[3], path: dec(t[4]), path2: dec(t[5]), nth: +t[6], n: +t[7], flags: +t[8], act: t[9], err: +t[10], ret: t[11] === 'dead' ? 'dead' : +t[11], errno: +t[12] });
      else if (t[0] === 'A') res.acts.push({ step: +t[1], kind: t[2], a: dec(t[3]), b: dec(t[4]), errno: +t[5] });
      else if (t[0] === 'X') res.exits[+t[1]] = { how: t[2], code: +t[3] };
      else if (t[0] === 'S') res.steps = +t[1];
      else throw new Error('bad log line: ' + line);
    }
    this.steps += res.steps;
    opt.procs.forEach((p, i) => { res.out[i] = fs.readFileSync(path.join(w.base, 'io', `p${i}.out`)); res.err[i] = fs.readFileSync(path.join(w.base, 'io', `p${i}.err`)); });
    return res;
  }
  // convenience: build tree, run, snapshot, drop
  run(tree, opt) {
    const w = this.newRoot(tree);
    try { const r = this.exec(w, opt); r.snap = this.snapshot(w.root); return r; } finally { this.drop(w); }
  }
}
// op-class counters of a run, per process: how often each (class) fault point was reached
function profile(res, p = 0) {
  const c = { any: 0 };
  for (const e of res.events) if (e.p === p) { c[e.op] = (c[e.op] || 0) + 1; c.any++; }
  return c;
}
module.exports = { Cli, profile, enc, dec, RAW, fp };

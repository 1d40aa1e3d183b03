'use strict';
// Each output comes from one version of its schema.
const fs = require('fs'), path = require('path');
const G = require('../fsgen');
const { canon } = require('../ctx');
module.exports = {
  id: 'C16', quick: { runs: 12000, secs: 150 }, thorough: { runs: 90000, secs: 780 }, components: G.COMPONENTS,
  assumptions: G.ASSUME.concat(['Editors replace files atomically by renaming a complete new version over the old one.']), chunk: 20,
  rule: 'A run executes one build while a simulated editor atomically replaces, adds or removes schema files between its file operations (1-6 actions placed over the whole run, clustered around reads in half of the runs), with short reads; each output of a successful run must be the compilation of one version that existed. Non-trivial if an action happened between the first and the last operation of the compiler.',
  gen(rng) {
    const c = G.genCase(rng, { pFile: 0.4, n: rng.weighted([[5, 1], [4, 2], [2, rng.range(3, 5)]]) });
    c.env = G.genProc(rng); c.stale = G.genStale(rng, 0.3);
    const scope = c.tree.files;
    const pBadVer = rng.p(0.15) ? 0.3 : 0, pRem = rng.p(0.15) ? 0.3 : 0;
    c.acts = Array.from({ length: rng.range(1, 6) }, () => {
      const f = rng.p(0.7) && c.inv.mode === 'file' ? c.inv.src : rng.pick(scope).p, r = rng.f();
      const at = rng.p(0.5) ? { op: rng.pick(['open', 'read', 'stat', 'readdir', 'read']), k: rng.f(), d: rng.pick([0, 0, 1]) } : { op: 'any', k: rng.f(), d: 0 };
      if (r < pRem) return { kind: 'remove', p: f, at };
      if (r < 0.85) return { kind: 'replace', p: f, t: G.genText(rng, pBadVer), at };
      const d = path.posix.dirname(f);
      return { kind: 'add', p: (d === '.' ? '' : d + '/') + 'new' + rng.int(3) + '.pkt', t: G.genText(rng, pBadVer), at };
    });
    // versions have times of their own, not always in order
    if (rng.p(0.7)) c.acts.forEach(a => { a.mt = rng.pick([1500000000, 1700000000]) + rng.int(1000000); });
    c.storm = rng.p(0.5) ? { seed: rng.seed(), short: 700, eintr: 50, chunk: rng.pick([8, 32, 200]) } : null;
    return c;
  },
  run(sc, ctx) {
    const storms = sc.storm ? [sc.storm] : [];
    let ev;
    { const w = G.mkWorld(ctx, sc.tree, sc.inv, sc.stale); try { ev = ctx.cli.exec(w, { procs: [G.procOf(sc.inv, w, sc.env)], storms }).events; } finally { ctx.cli.drop(w); } }
    const w = G.mkWorld(ctx, sc.tree, sc.inv, sc.stale);
    try {
      const acts = [];
      const versions = {}; // output path -> texts seen at that input during the run
      const outOf = p => Object.keys(G.outputs({ files: [{ p, t: ['v', 0] }] }, sc.inv))[0];
      for (const f of sc.tree.files) { const o = outOf(f.p); if (o) versions[o] = [f.t]; }
      let removed = false, badVer = false;
      sc.acts.forEach((a, i) => {
        const pts = ev.filter(e => a.at.op === 'any' ? true : e.op === a.at.op);
        const base = pts.length ? pts[Math.min(pts.length - 1, Math.floor(a.at.k * pts.length))].step : 0;
        const step = base + a.at.d;
        if (a.kind === 'remove') { acts.push({ step, kind: 'unlink', a: 'in/' + a.p }); removed = true; return; }
        const st = `w/stage${i}`;
        fs.writeFileSync(path.join(w.root, st), G.text(a.t));
        if (a.mt) fs.utimesSync(path.join(w.root, st), a.mt, a.mt);
        acts.push({ step, kind: 'rename', a: st, b: 'in/' + a.p });
        const o = outOf(a.p);
        if (o) { (versions[o] = versions[o] || []).push(a.t); if (!G.isValid(a.t)) badVer = true; }
      });
      acts.sort((x, y) => x.step - y.step);
      for (const f of sc.tree.files) if (outOf(f.p) && !G.isValid(f.t)) badVer = true;
      const stale = ctx.cli.snapshot(w.root);
      const r = ctx.exec(w, { procs: [G.procOf(sc.inv, w, sc.env)], acts, storms });
      const snap = ctx.cli.snapshot(w.root); ctx.traceSnap(snap);
      const e = r.exits[0], done = r.acts.filter(a => !a.errno).length;
      if (e.how !== 'exit') return { viol: { cls: 'died', msg: `ended by ${e.how} ${e.code}` } };
      if (e.code !== 0) {
        if (!removed && !badVer) return { viol: { cls: 'failed', msg: `every version is valid and none was removed, but exit ${e.code}: ${r.err[0].toString().trim().slice(0, 160)}` } };
        return { nontrivial: done > 0 };
      }
      const added = new Set(sc.acts.filter(a => a.kind === 'add').map(a => outOf(a.p)));
      for (const o in versions) {
        const f = snap[o];
        const wrote = r.events.some(x => (x.op === 'openw' && x.path === o) || (x.op === 'rename' && x.path2 === o));
        if (!f || !wrote) {
          if (added.has(o) || removed) continue; // seen or not, both are fine
          return { viol: { cls: 'missing', msg: `exit 0 but ${o} was not written` } };
        }
        const t = f.toString('latin1');
        const refs = versions[o].filter(G.isValid).map(v => G.want(ctx, v));
        const bad = refs.find(x => x.fail);
        if (bad) return { viol: { cls: 'reference', msg: bad.fail } };
        if (!refs.some(x => x.canon === canon(t))) return { viol: { cls: 'mixed', msg: `${o} is not the compilation of any of the ${versions[o].length} versions of its schema` } };
      }
      void stale;
      const last = r.events.length ? r.events[r.events.length - 1].step : 0;
      return { nontrivial: r.acts.some(a => a.step > 0 && a.step <= last), sample: Object.assign(G.sampleOf(sc), { acts: acts.map(a => [a.step, a.kind, a.b || a.a]) }) };
    } finally { ctx.cli.drop(w); }
  },
  *shrink(sc) {
    yield* G.shrinkCase(sc);
    const c = () => JSON.parse(JSON.stringify(sc));
    if (sc.storm) { const x = c(); x.storm = null; yield x; }
    for (const [i, a] of sc.acts.entries()) if (a.t && a.t[1] > 3) { const x = c(); x.acts[i].t = [a.t[0], 1 + i]; yield x; }
  },
};

'use strict';
// Re-running after any interruption repairs the output.
const fs = require('fs'), path = require('path');
const G = require('../fsgen');
const { Rng } = require('../prng');
// another name of the same file keeps what it shows
const put = (w, x) => { const f = path.join(w.root, 'in', x.p); if (!fs.lstatSync(f).isSymbolicLink()) fs.rmSync(f); fs.writeFileSync(f, G.text(x.t)); };
module.exports = {
  id: 'C11', quick: { runs: 4500, secs: 150 }, thorough: { runs: 80000, secs: 780 }, components: G.COMPONENTS,
  assumptions: G.ASSUME.concat(['Lost data: after a crash each file the crashed run wrote without a later fsync keeps, loses its tail, has its tail zeroed, reverts to the old content or vanishes, independently; directory creations survive.']), chunk: 20,
  rule: 'A run is a history of 1-3 builds of one tree that crash (before, inside or after an operation) or fail on a hard error, each followed by partial loss of un-synced output data and possibly edits of the schemas, on top of stale outputs of 9 kinds with old or future file times; then one undisturbed build must exit 0 and leave every output complete. Sweep runs crash at every operation in turn. Non-trivial if a crash or fault fired or a stale output existed.',
  gen(rng) {
    const c = G.genCase(rng, {});
    c.env = G.genProc(rng); c.stale = G.genStale(rng, 0.6);
    const n = rng.weighted([[1, 0], [6, 1], [3, 2], [1, 3]]);
    c.rounds = Array.from({ length: n }, () => ({
      env: G.genProc(rng), fault: rng.p(0.75) ? G.genCrash(rng) : G.genFault(rng, ['open', 'read', 'openw', 'write', 'write', 'mkdir', 'stdout']), lose: rng.p(0.7) ? rng.seed() : 0,
      storm: rng.p(0.3) ? { seed: rng.seed(), short: 500, eintr: 50, chunk: rng.pick([50, 200]) } : null,
      edit: rng.p(0.3) ? { i: rng.int(32), t: rng.p(0.15) ? ['b', rng.int(G.NPOOL)] : G.genText(rng) } : null,
    }));
    if (rng.p(0.05) && c.tree.files.length < 20) c.sweep = rng.seed();
    return c;
  },
  run(sc, ctx) {
    const lose = (w, before, r, seed) => {
      if (!seed) return;
      const rng = new Rng('lose' + seed), dirty = new Set();
      for (const e of r.events) {
        if (e.op === 'write' && e.ret !== -1) dirty.add(e.path);
        if (e.op === 'openw' && e.ret === 0 && (e.flags & 0o1000)) dirty.add(e.path);
        if (e.op === 'fsync' && e.ret === 0) dirty.delete(e.path);
        if (e.op === 'rename' && e.ret === 0) { if (dirty.delete(e.path)) dirty.add(e.path2); }
      }
      for (const p of [...dirty].sort()) {
        const f = path.join(w.root, p);
        if (!fs.existsSync(f)) continue;
        const b = fs.readFileSync(f), k = rng.pick(['keep', 'cut', 'cut0', 'zero', 'old', 'gone']);
        ctx.fault('lost:' + k); ctx.note('lost ' + p + ' ' + k);
        if (k === 'cut') fs.writeFileSync(f, b.subarray(0, rng.int(b.length + 1)));
        else if (k === 'cut0') fs.writeFileSync(f, '');
        else if (k === 'zero') { const c = Buffer.from(b); c.fill(0, rng.int(b.length + 1)); fs.writeFileSync(f, c); }
        else if (k === 'old') { if (before[p]) fs.writeFileSync(f, before[p]); else fs.unlinkSync(f); }
        else if (k === 'gone') fs.unlinkSync(f);
      }
    };
    const history = rounds => {
      const tree = JSON.parse(JSON.stringify(sc.tree)), stale0 = !!sc.stale;
      const w = G.mkWorld(ctx, tree, sc.inv, sc.stale);
      let events = 0;
      try {
        for (const rd of rounds) {
          let counts;
          if (rd.fault.nth === undefined) { // where the points are: an undisturbed run over a copy
            const w2 = G.mkWorld(ctx, tree, sc.inv, null);
            try { counts = G.countOps(ctx.cli.exec(w2, { procs: [G.procOf(sc.inv, w2, rd.env)] })); } finally { ctx.cli.drop(w2); }
          }
          const before = ctx.cli.snapshot(w.root), f = G.resolveFault(rd.fault, counts);
          const r = ctx.exec(w, { procs: [G.procOf(sc.inv, w, rd.env)], faults: f ? [f] : [], storms: rd.storm ? [rd.storm] : [] });
          const hit = r.events.some(e => e.act === 'fail' || e.act.startsWith('crash')); events += hit ? 1 : 0;
          if (r.exits[0].how === 'sig' && r.exits[0].code !== 9) return { viol: { cls: 'died', msg: `interrupted run ended by signal ${r.exits[0].code}` } };
          if (r.events.some(e => e.act.startsWith('crash'))) { ctx.count('crashed_runs'); lose(w, before, r, rd.lose); }
          if (rd.edit) { const x = tree.files[rd.edit.i % tree.files.length]; x.t = rd.edit.t; put(w, x); ctx.note('edit ' + x.p); }
        }
        // the last state must be buildable
        for (const x of tree.files) if (!G.isValid(x.t)) { x.t = ['v', 3]; put(w, x); }
        const r = ctx.exec(w, { procs: [G.procOf(sc.inv, w, sc.env)] });
        const snap = ctx.cli.snapshot(w.root); ctx.traceSnap(snap);
        if (!G.exitOk(r.exits[0])) return { viol: { cls: 'stuck', msg: `undisturbed run after ${rounds.length} interrupted ones ended ${r.exits[0].how} ${r.exits[0].code}: ${r.err[0].toString().trim().slice(0, 160)}` } };
        const why = G.incomplete(ctx, snap, G.outputs(tree, sc.inv));
        if (why) return { viol: { cls: 'unrepaired', msg: `after ${rounds.length} interrupted runs${stale0 ? ' over stale output' : ''} an undisturbed run exits 0 but ${why}` } };
        return { events };
      } finally { ctx.cli.drop(w); }
    };
    if (sc.sweep) {
      const w2 = G.mkWorld(ctx, sc.tree, sc.inv, null);
      let n;
      try { n = G.countOps(ctx.exec(w2, { procs: [G.procOf(sc.inv, w2, sc.env)] })).any; } finally { ctx.cli.drop(w2); }
      for (let k = 0; k < n && k < 60; k++) {
        ctx.count('sweep_points');
        const h = history([{ env: sc.env, fault: { cls: 'any', nth: k, act: k % 3 === 0 ? 'crashmid' : 'crashafter', err: 0, n: (k * 37) % 400 }, lose: sc.sweep + k }]);
        if (h.viol) return h;
      }
      return { sample: G.sampleOf(sc) };
    }
    const h = history(sc.rounds);
    if (h.viol) return h;
    return { nontrivial: h.events > 0 || !!sc.stale, sample: Object.assign(G.sampleOf(sc), { rounds: sc.rounds.map(r => r.fault) }) };
  },
  *shrink(sc) {
    const c = () => JSON.parse(JSON.stringify(sc));
    yield* G.shrinkCase(sc);
    for (let i = 0; i < sc.rounds.length; i++) for (const k of ['lose', 'storm', 'edit']) if (sc.rounds[i][k]) { const x = c(); x.rounds[i][k] = k === 'lose' ? 0 : null; yield x; }
    if (sc.stale && new Set(sc.stale.kinds).size > 1) for (const k of new Set(sc.stale.kinds)) { const x = c(); x.stale.kinds = [k]; yield x; }
    if (sc.stale && sc.stale.foreign) { const x = c(); x.stale.foreign = false; yield x; }
  },
};

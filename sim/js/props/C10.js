'use strict';
// Transient I/O conditions are invisible.
const G = require('../fsgen');
const { body } = require('../ctx');
module.exports = {
  id: 'C10', quick: { runs: 4500, secs: 150 }, thorough: { runs: 80000, secs: 780 }, components: G.COMPONENTS, assumptions: G.ASSUME, chunk: 20,
  rule: 'A run executes one random tree (valid or with an invalid member) once undisturbed and 1-3 times under a storm of short reads, short writes, interrupted calls, other enumeration orders, unknown entry types and clock jumps, and compares verdict, file set and contents (time in the first line aside) and the number of steps. Non-trivial if a transient condition was injected.',
  gen(rng) {
    const c = G.genCase(rng, { pBad: rng.p(0.2) ? 0.3 : 0 });
    c.env = G.genProc(rng); c.stale = G.genStale(rng, 0.3);
    c.env.clk[0] = Math.max(c.env.clk[0], 86400 * 1300); // jumps never reach before 1970
    const huge = c.tree.files.length > 20 || c.tree.files.some(f => f.t[1] >= G.BIG), big = c.tree.files.length > 4;
    c.tries = Array.from({ length: rng.range(1, 3) }, () => ({
      storm: rng.p(0.15) ? { seed: rng.seed(), short: rng.pick([0, 300]), eintr: 960, chunk: huge ? 9000 : 500, row: rng.pick([12, 60, 60]) } : { seed: rng.seed(), short: rng.pick([0, 100, 500, 950, 1000]), eintr: rng.pick([0, 50, 300, 700]), chunk: rng.pick(huge ? [500, 4096, 9000, 70000] : big ? [16, 64, 500, 4096] : [1, 3, 3, 16, 64, 500, 4096]) },
      dirseed: rng.p(0.7) ? rng.seed() : c.env.dirseed, unk: rng.p(0.3) ? 1 : 0,
      jumps: rng.p(0.4) ? Array.from({ length: rng.range(1, 3) }, () => ({ nth: rng.int(40), d: rng.pick([-86400 * 400, -3600, -1, 1, 3600, 86400 * 365 * 20]) })) : [],
    }));
    return c;
  },
  run(sc, ctx) {
    const once = (env, opt) => {
      const w = G.mkWorld(ctx, sc.tree, sc.inv, sc.stale);
      try { const r = ctx.exec(w, Object.assign({ procs: [G.procOf(sc.inv, w, env)], maxsteps: 400000 }, opt)); r.snap = ctx.cli.snapshot(w.root); ctx.traceSnap(r.snap); return r; } finally { ctx.cli.drop(w); }
    };
    const base = once(sc.env, {});
    const outs = G.outputs(sc.tree, sc.inv);
    const bytes = r => r.events.reduce((n, e) => n + ((e.op === 'read' || e.op === 'write' || e.op === 'stdout') && e.ret > 0 ? e.ret : 0), 0);
    let injected = 0;
    for (const [i, t] of sc.tries.entries()) {
      const r = once(Object.assign({}, sc.env, { dirseed: t.dirseed, unk: t.unk }), { storms: [Object.assign({}, t.storm, { chunk: Math.max(t.storm.chunk, Math.ceil(bytes(base) / 20000)) }, base.steps > 5000 ? { eintr: Math.min(t.storm.eintr, 500), row: 3 } : {})], jumps: t.jumps });
      const n = r.events.filter(e => e.act !== 'go').length; injected += n + (t.dirseed !== sc.env.dirseed) + t.jumps.length;
      const a = base.exits[0], b = r.exits[0];
      if (b.how === 'maxsteps' || b.how === 'hang') return { viol: { cls: 'stuck', msg: `run did not end within ${r.steps} steps` } };
      if (a.how !== b.how || (a.code === 0) !== (b.code === 0)) return { viol: { cls: 'verdict', msg: `try ${i}: ended ${b.how} ${b.code} instead of ${a.how} ${a.code} (${n} transient conditions): ${r.err[0].toString().trim().slice(0, 160)}` } };
      const limit = 40 + 6 * base.steps + 6 * (bytes(base) + 1) + 5 * n;
      if (r.steps > limit) return { viol: { cls: 'steps', msg: `${r.steps} steps for ${bytes(base)} bytes (undisturbed: ${base.steps})` } };
      for (const p of new Set([...Object.keys(base.snap), ...Object.keys(r.snap)])) {
        const x = base.snap[p], y = r.snap[p];
        if (x === undefined || y === undefined || (x === null) !== (y === null)) return { viol: { cls: 'files', msg: `try ${i}: ${p} ${y === undefined ? 'is missing' : 'appeared'} under transient conditions` } };
        if (x === null || x.equals(y)) continue;
        if (outs[p] !== undefined && body(x.toString('latin1')) === body(y.toString('latin1')) && /^\/\/ /.test(y.toString('latin1'))) continue;
        return { viol: { cls: 'content', msg: `try ${i}: ${p} differs under transient conditions (${x.length} / ${y.length} bytes)` } };
      }
    }
    return { nontrivial: injected > 0, sample: Object.assign(G.sampleOf(sc), { tries: sc.tries }) };
  },
  *shrink(sc) {
    yield* G.shrinkCase(sc);
    const c = () => JSON.parse(JSON.stringify(sc));
    for (let i = 0; i < sc.tries.length; i++) {
      if (sc.tries.length > 1) { const x = c(); x.tries.splice(i, 1); yield x; }
      const t = sc.tries[i];
      if (t.jumps.length) { const x = c(); x.tries[i].jumps = []; yield x; }
      if (t.storm.short) { const x = c(); x.tries[i].storm.short = 0; yield x; }
      if (t.storm.eintr) { const x = c(); x.tries[i].storm.eintr = 0; yield x; }
      if (t.dirseed !== sc.env.dirseed) { const x = c(); x.tries[i].dirseed = sc.env.dirseed; yield x; }
      if (t.unk) { const x = c(); x.tries[i].unk = 0; yield x; }
      if (t.storm.chunk < 4096) { const x = c(); x.tries[i].storm.chunk *= 4; yield x; }
    }
  },
};

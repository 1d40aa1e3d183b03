'use strict';
// Concurrent compiler runs do not disturb each other.
const G = require('../fsgen');
module.exports = {
  id: 'C15', quick: { runs: 12000, secs: 150 }, thorough: { runs: 80000, secs: 780 }, components: G.COMPONENTS,
  assumptions: G.ASSUME.concat(['Clocks of the concurrent processes lie between 1970 and 9999, so that every stamp line has the same length.']), chunk: 20,
  rule: 'A run starts 2-4 compiler processes on the same tree (same directory, a sub-directory, single files, disjoint outputs; every shared output always comes from the same schema) and interleaves all their file operations by a random or biased schedule, with short transfers and interruptions; in a quarter of the runs one more process works on an invalid schema of its own with the same output directory; all others must exit 0 and every output must be complete. Non-trivial if operations of two processes were interleaved (at least two switches).',
  gen(rng) {
    let tree, invs;
    for (;;) {
      tree = G.genTree(rng, { n: rng.weighted([[3, 1], [4, 2], [2, 3], [1, rng.range(4, 6)]]) });
      const out = rng.pick(G.OUTS), a = G.genInv(rng, tree, { out, pFile: 0.15 });
      invs = [a];
      for (let k = rng.weighted([[6, 1], [2, 2], [1, 3]]); k > 0; k--) {
        const r = rng.f();
        if (r < 0.5) invs.push(Object.assign({}, a, { inForm: rng.int(6), outForm: rng.int(5), cwd: rng.pick(['', 'w']) }));
        else if (r < 0.7) invs.push(G.genInv(rng, tree, { out, pFile: 0.5 }));
        else if (r < 0.85) invs.push(Object.assign({}, a, { out: out === '.' ? 'other' : out + '/nested', inForm: 0, outForm: 0, cwd: '' }));
        else invs.push(Object.assign({}, a, { out: 'elsewhere/x', inForm: 0, outForm: 0, cwd: '' }));
      }
      // a shared output must come from the same schema text; no output may be a directory of another
      const all = {}; let ok = invs.every(v => G.feasible(tree, v));
      for (const v of invs) { const o = G.outputs(tree, v); for (const p in o) { if (all[p] && JSON.stringify(all[p]) !== JSON.stringify(o[p])) ok = false; all[p] = o[p]; } }
      const ps = Object.keys(all);
      if (ps.some(p => ps.some(q => q.startsWith(p + '/')))) ok = false;
      if (ok && ps.length) break;
    }
    // processes of one host have the same clock (to the tick it may have) and different process ids
    const envs = invs.map(() => G.genProc(rng)), same = rng.f();
    envs.forEach((e, i) => { e.pid = (e.pid || 4000) + i * 7; if (same < 0.6) e.clk = [envs[0].clk[0], same < 0.15 ? envs[0].clk[1] : e.clk[1]]; });
    // in between, a run that is refused because of its own input
    const refused = rng.p(0.25) ? { bad: G.genText(rng, 1), good: rng.p(0.5) ? [G.genText(rng)] : [], file: rng.p(0.3), out: rng.pick(invs).out, env: G.genProc(rng) } : null;
    if (refused) { refused.env.pid = (refused.env.pid || 4000) + 91; if (same < 0.6) refused.env.clk = [envs[0].clk[0], refused.env.clk[1]]; }
    return {
      tree, inv: invs[0], invs, envs, refused, stale: G.genStale(rng, 0.3),
      sched: sched(rng), schedseed: rng.seed(),
      storms: rng.p(0.5) ? invs.map((_, p) => ({ p, seed: rng.seed(), short: rng.pick([0, 300, 900]), eintr: rng.pick([0, 100]), chunk: rng.pick([20, 200, 1000]) })) : [],
    };
  },
  run(sc, ctx) {
    const w = G.mkWorld(ctx, sc.tree, sc.inv, sc.stale);
    try {
      const procs = sc.invs.map((v, i) => G.procOf(v, w, sc.envs[i])), x = sc.refused;
      if (x) {
        const t = { 'bad/b.pkt': G.text(x.bad) }; x.good.forEach((g, i) => { t[`bad/a${i}.pkt`] = G.text(g); });
        ctx.cli.put(w.root, t);
        procs.push(Object.assign({}, x.env, { args: ['ts', x.file ? 'bad/b.pkt' : 'bad', x.out], cwd: '' }));
      }
      const r = ctx.exec(w, { procs, sched: sc.sched, schedseed: sc.schedseed, storms: sc.storms, maxsteps: 600000 });
      const snap = ctx.cli.snapshot(w.root); ctx.traceSnap(snap);
      for (let i = 0; i < sc.invs.length; i++) {
        const e = r.exits[i];
        if (!G.exitOk(e)) return { viol: { cls: 'failed', msg: `process ${i} (${sc.invs[i].mode} ${sc.invs[i].src || 'in'} -> ${sc.invs[i].out}) ended ${e.how} ${e.code}: ${r.err[i].toString().trim().slice(0, 160)}` } };
      }
      for (const v of sc.invs) { const why = G.incomplete(ctx, snap, G.outputs(sc.tree, v)); if (why) return { viol: { cls: 'torn', msg: `${sc.invs.length} concurrent runs exited 0 but ${why}` } }; }
      let sw = 0; for (let i = 1; i < r.events.length; i++) if (r.events[i].p !== r.events[i - 1].p) sw++;
      ctx.count('context_switches', sw); if (x) ctx.count('with_a_refused_run', 1);
      return { nontrivial: sw >= 2, sample: { invs: sc.invs, files: sc.tree.files.map(f => f.p), switches: sw } };
    } finally { ctx.cli.drop(w); }
  },
  *shrink(sc) {
    const c = () => JSON.parse(JSON.stringify(sc));
    for (let i = 1; i < sc.invs.length; i++) if (sc.invs.length > 2) { const x = c(); x.invs.splice(i, 1); x.envs.splice(i, 1); x.storms = x.storms.filter(s => s.p !== i).map(s => Object.assign(s, { p: s.p > i ? s.p - 1 : s.p })); yield x; }
    for (const x of G.shrinkCase(Object.assign(c(), { inv: sc.invs[0] }))) { const same = JSON.stringify(x.inv) === JSON.stringify(sc.invs[0]); if (same && x.invs.every(v => v.mode === 'dir' || x.tree.files.some(f => f.p === v.src))) yield x; }
    if (sc.refused) { const x = c(); x.refused = null; yield x; }
    if (sc.refused && sc.refused.good.length) { const x = c(); x.refused.good = []; yield x; }
    if (sc.storms.length) { const x = c(); x.storms = []; yield x; }
    for (let i = 0; i < sc.invs.length; i++) { const x = c(); x.invs[i] = G.simple(x.invs[i]); if (JSON.stringify(x) !== JSON.stringify(sc)) { if (i === 0) x.inv = x.invs[0]; yield x; } }
    if (sc.schedseed !== '0') { const x = c(); x.schedseed = '0'; yield x; }
    // runs of equal choices are easier to read
    for (let n = sc.sched.length; n >= 1; n = n >> 1) for (let i = 0; i + n <= sc.sched.length; i += n) { const y = sc.sched.slice(); for (let k = i; k < i + n; k++) y[k] = 0; if (String(y) !== String(sc.sched)) { const x = c(); x.sched = y; yield x; } if (n < 4) break; }
    if (sc.sched.length) { const x = c(); x.sched = sc.sched.slice(0, sc.sched.length >> 1); yield x; }
  },
};
// scheduling choices: uniform, long bursts, or lock step
function sched(rng) {
  const n = 400, k = rng.int(4), out = [];
  if (k === 0) return [];
  if (k === 1) { while (out.length < n) { const c = rng.int(12), b = rng.range(1, 20); for (let i = 0; i < b; i++) out.push(c); } return out; }
  if (k === 2) { for (let i = 0; i < n; i++) out.push(i % 12); return out; }
  while (out.length < n) { const c = rng.int(12), b = rng.range(1, 4); for (let i = 0; i < b; i++) out.push(c); }
  return out;
}

'use strict';
// One bad schema in a batch leaves the output tree untouched.
const G = require('../fsgen');
const under = (p, d) => d === '.' || p === d || p.startsWith(d + '/');
module.exports = {
  id: 'C09', quick: { runs: 9000, secs: 150 }, thorough: { runs: 110000, secs: 780 }, components: G.COMPONENTS, assumptions: G.ASSUME, chunk: 20,
  rule: 'A run is one random tree with an invalid schema somewhere (about half of the runs), or with hard errors on input operations (stat, list, open, read) placed at points the fault-free run reaches, once or lasting (sweep runs: every point in turn), under a random enumeration order and stale outputs; the whole tree is compared before and after. Non-trivial if the run was refused (invalid member or fired input fault).',
  gen(rng) {
    const bad = rng.p(0.55);
    let c;
    for (let i = 0; ; i++) { c = G.genCase(rng, { raw: 1, pFile: 0.12, n: rng.p(0.5) ? rng.range(2, 9) : 0 }); if (Object.keys(G.outputs(c.tree, c.inv)).length || i > 20) break; }
    if (bad) { const scope = c.tree.files.filter(f => c.inv.mode === 'file' ? f.p === c.inv.src : !c.inv.src || f.p.startsWith(c.inv.src + '/')); if (scope.length) for (const f of rng.sample(scope, rng.weighted([[5, 1], [1, 2]]))) f.t = rng.p(0.05) ? ['n'] : ['b', rng.p(0.06) ? G.BIG + rng.int(12) : rng.int(G.NPOOL)]; }
    c.env = G.genProc(rng);
    c.stale = G.genStale(rng, 0.6);
    c.faults = bad && rng.p(0.7) ? [] : Array.from({ length: rng.weighted([[8, 1], [2, 2]]) }, () => G.genFault(rng, ['open', 'read', 'stat', 'opendir', 'readdir']));
    if (!bad && rng.p(0.06) && c.tree.files.length < 20) { c.sweep = rng.int(16); c.faults = []; }
    c.storm = rng.p(0.2) ? { seed: rng.seed(), short: 400, eintr: 100, chunk: rng.pick([1, 50, 1000]) } : null;
    return c;
  },
  run(sc, ctx) {
    const outs = G.outputs(sc.tree, sc.inv);
    const scope = sc.tree.files.filter(f => sc.inv.mode === 'file' ? f.p === sc.inv.src : !sc.inv.src || f.p.startsWith(sc.inv.src + '/'));
    const invalid = scope.filter(f => !G.isValid(f.t));
    const once = (faults, storms) => {
      const w = G.mkWorld(ctx, sc.tree, sc.inv, sc.stale);
      try { const before = ctx.cli.snapshot(w.root); const r = ctx.exec(w, { procs: [G.procOf(sc.inv, w, sc.env)], faults, storms }); r.before = before; r.snap = ctx.cli.snapshot(w.root); ctx.traceSnap(r.snap); return r; } finally { ctx.cli.drop(w); }
    };
    const judge = r => {
      const e = r.exits[0];
      if (G.exitOk(e) && !invalid.length) return { refused: false };
      // an input fault counts if it hit an input operation and no other hard error can be what stopped the
      // run (a failed size hint is tolerated; a later output error is not C09's)
      let inputFault = null, other = false, mutated = false;
      const input = ev => under(ev.path, 'in') && !outs[ev.path] && (!mutated || ev.op === 'opendir' || ev.op === 'readdir' || scope.some(f => 'in/' + f.p === ev.path));
      for (const ev of r.events) {
        if (G.MUT.has(ev.op)) mutated = true;
        if (ev.act !== 'fail' || ev.err === 4) continue;
        if (input(ev)) inputFault = inputFault || ev; else other = true;
      }
      if (other) inputFault = null;
      // a name that cannot be read: the run may be refused, but then as a whole
      const name = !G.exitOk(e) && G.hasRaw(sc.tree) && !G.hardFired(r).length;
      if (!invalid.length && !inputFault && !name) return { refused: false };
      const d = G.snapDiff(r.before, r.snap);
      if (d.length) return { viol: { cls: invalid.length ? 'invalid-wrote' : 'unreadable-wrote', msg: `${invalid.length ? invalid[0].p + ' is invalid' : name ? 'a name is refused' : 'input could not be read (' + G.describe(inputFault) + ')'} yet ${d[0].p} is ${d[0].k} (${d.length} changes, exit ${e.code})` } };
      return { refused: true };
    };
    let counts = null;
    if (sc.faults.length || sc.sweep !== undefined) counts = G.countOps(once([], []));
    if (sc.sweep !== undefined) {
      let hit = 0;
      for (const cls of ['stat', 'opendir', 'readdir', 'open', 'read']) for (let n = 0; n < (counts[cls] || 0) && n < 60; n++) {
        const j = judge(once([{ p: 0, cls, nth: n, act: 'fail', err: G.ERRS[cls][(sc.sweep + n) % G.ERRS[cls].length], rep: [0, -2, -1][(n + (sc.sweep >> 2)) % 3] }], []));
        ctx.count('sweep_points');
        if (j.viol) return j; hit += j.refused ? 1 : 0;
      }
      return { nontrivial: hit > 0, sample: G.sampleOf(sc) };
    }
    const j = judge(once(sc.faults.map(f => G.resolveFault(f, counts)).filter(Boolean), sc.storm ? [sc.storm] : []));
    if (j.viol) return j;
    if (j.refused) ctx.count(invalid.length ? 'refused_invalid' : 'refused_unreadable');
    return { nontrivial: j.refused, sample: G.sampleOf(sc) };
  },
  *shrink(sc) {
    yield* G.shrinkCase(sc);
    if (sc.storm) { const x = JSON.parse(JSON.stringify(sc)); x.storm = null; yield x; }
  },
};

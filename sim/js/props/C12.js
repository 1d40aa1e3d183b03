'use strict';
// Only the mirrored output files are ever touched.
const fs = require('fs'), path = require('path');
const G = require('../fsgen'), { fp } = require('../cli');
const MOD = new Set(['write', 'rename', 'unlink', 'trunc', 'chmod']);
module.exports = {
  id: 'C12', quick: { runs: 12000, secs: 150 }, thorough: { runs: 110000, secs: 780 }, components: G.COMPONENTS, assumptions: G.ASSUME, chunk: 20,
  rule: 'A run is one random tree (dotted, spaced, hidden and non-ASCII names, directories named like schemas, ignored files), one of many input/output path forms, stale and foreign files, executed undisturbed or with a crash or hard error at a random point; the full tree is compared before and after and every modifying call is checked against the set of allowed output paths. Non-trivial: every run.',
  gen(rng) {
    const c = G.genCase(rng, { raw: 1, pBad: rng.p(0.15) ? 0.3 : 0, pFile: 0.35 });
    // single files may have any extension or none
    if (c.inv.mode === 'file' && rng.p(0.4)) {
      const f = c.tree.files.find(x => x.p === c.inv.src), d = path.posix.dirname(f.p), n = (d === '.' ? '' : d + '/') + rng.pick(['schema.txt', 'noext', 'a.b.c', 'data.pkt.v2', 'x.y.z.w', 'n.1', 'two..dots', 'trail.ts']);
      if (!c.tree.files.concat(c.tree.extra).some(x => x.p === n || x.p.startsWith(n + '/')) && !c.tree.empty.some(e => e === n || e.startsWith(n + '/'))) { const o = f.p; f.p = n; c.inv.src = n; if (!G.feasible(c.tree, c.inv)) { f.p = o; c.inv.src = o; } }
    }
    c.env = G.genProc(rng); c.stale = G.genStale(rng, 0.5);
    c.faults = rng.p(0.5) ? [] : [rng.p(0.5) ? G.genCrash(rng) : G.genFault(rng)];
    c.storm = rng.p(0.2) ? { seed: rng.seed(), short: 400, eintr: 100, chunk: rng.pick([1, 50, 1000]) } : null;
    c.decoys = rng.p(0.3);
    return c;
  },
  run(sc, ctx) {
    const outs = G.outputs(sc.tree, sc.inv);
    const world = () => {
      const w = G.mkWorld(ctx, sc.tree, sc.inv, sc.stale);
      if (sc.decoys && !G.hasRaw(sc.tree)) { // names a careless mapping would hit
        for (const o of Object.keys(outs)) for (const d of [o.replace(/\.ts$/, ''), o.replace(/\.ts$/, '.d.ts'), o + '.tmp', o + '~', o.replace(/\.[^./]*\.ts$/, '.ts'), path.posix.join(path.posix.dirname(o), 'index.ts')]) {
          const f = path.join(w.root, d);
          if (!outs[d] && d !== '' && !fs.existsSync(f) && !Object.keys(outs).some(x => x.startsWith(d + '/'))) { fs.mkdirSync(path.dirname(f), { recursive: true }); fs.writeFileSync(f, 'decoy ' + d); }
        }
      }
      return w;
    };
    let counts = null;
    if (sc.faults.length) { const w = world(); try { counts = G.countOps(ctx.exec(w, { procs: [G.procOf(sc.inv, w, sc.env)] })); } finally { ctx.cli.drop(w); } }
    const w = world();
    try {
      const before = ctx.cli.snapshot(w.root), meta = () => Object.keys(before).filter(p => before[p] !== null && outs[p] === undefined).map(p => { try { const s = fs.lstatSync(fp(path.join(w.root, p)), { bigint: true }); return `${p} ${s.mode} ${s.uid} ${s.gid} ${s.mtimeNs} ${s.ino}`; } catch (e) { return p + ' gone'; } });
      const meta0 = meta();
      const r = ctx.exec(w, { procs: [G.procOf(sc.inv, w, sc.env)], faults: sc.faults.map(f => G.resolveFault(f, counts)).filter(Boolean), storms: sc.storm ? [sc.storm] : [] });
      const after = ctx.cli.snapshot(w.root); ctx.traceSnap(after);
      const esc = r.events.find(e => e.op === 'escape');
      if (esc) return { viol: { cls: 'escape', msg: `tried to modify ${esc.path.split(w.root).join('$R')}` } };
      // owner, mode, time and identity of everything that is not an output; changes that are undone later
      const meta1 = meta(), m = meta0.findIndex((x, i) => x !== meta1[i]);
      if (m >= 0) return { viol: { cls: 'touched', msg: `${meta0[m].split(' ').slice(0, -5).join(' ')} is not an output but its mode, owner, time or identity changed` } };
      for (const ev of r.events) if (MOD.has(ev.op) && ev.act !== 'fail' && !(ev.ret < 0)) for (const p of [ev.path, ev.path2]) if (p && before[p] && outs[p] === undefined) return { viol: { cls: 'touched', msg: `${p} is not an output but ${G.describe(ev)} was called on it` } };
      const ok = G.exitOk(r.exits[0]);
      const anc = new Set();
      for (const o of Object.keys(outs)) { let d = path.posix.dirname(o); while (d !== '.' && d !== '/') { anc.add(d); d = path.posix.dirname(d); } }
      for (const d of G.snapDiff(before, after)) {
        if (outs[d.p] !== undefined) { if (d.k === 'new' || d.k === 'changed') continue; if (d.k === 'gone' && !ok) { ctx.count('output_removed_by_failed_run'); continue; } return { viol: { cls: 'output-' + d.k, msg: `output ${d.p} is ${d.k} after the run (exit ${r.exits[0].code})` } }; }
        if (d.k === 'newdir' && anc.has(d.p)) continue;
        if (d.k === 'new' && !ok) { ctx.count('leftover_on_failure'); continue; } // a temporary file of a failed run
        return { viol: { cls: 'touched', msg: `${d.p} is ${d.k} although it is not an output (outputs: ${Object.keys(outs).slice(0, 3).join(', ')}; exit ${r.exits[0].how} ${r.exits[0].code})` } };
      }
      if (ok) {
        for (const o of Object.keys(outs)) if (!after[o]) return { viol: { cls: 'name', msg: `exit 0 but ${o} was not written` } };
        const why = G.incomplete(ctx, after, outs);
        if (why) return { viol: { cls: 'mapping', msg: 'exit 0 but ' + why } };
      }
      return { sample: G.sampleOf(sc) };
    } finally { ctx.cli.drop(w); }
  },
  *shrink(sc) {
    const c = () => JSON.parse(JSON.stringify(sc));
    yield* G.shrinkCase(sc);
    if (sc.storm) { const x = c(); x.storm = null; yield x; }
    if (sc.decoys) { const x = c(); x.decoys = false; yield x; }
  },
};

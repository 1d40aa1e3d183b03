'use strict';
// A schema compiles the same in a batch as alone.
const G = require('../fsgen');
const S = require('../schema');
const { body } = require('../ctx');
// related schemas: the same names declared differently, so that anything carried over shows
function variants(rng, n) {
  const base = S.genSchema(rng, rng.pick(['tiny', 'small', 'medium', 'deep'])), out = [];
  for (let i = 0; i < n; i++) {
    const a = S.clone(base);
    for (const d of a.decls) {
      if (d.k === 'struct') { for (const f of d.fields) { if (rng.p(0.4) && S.BUILTINS.includes(f.type)) f.type = rng.pick(S.BUILTINS); if (rng.p(0.2)) { f.array = rng.p(0.5); f.optional = !f.array && rng.p(0.5); } } if (rng.p(0.3)) rng.shuffle(d.fields); if (rng.p(0.2) && d.fields.length > 1) d.fields.pop(); }
      else { if (rng.p(0.4)) rng.shuffle(d.variants); if (rng.p(0.4) && d.variants.length > 1) d.variants.pop(); if (rng.p(0.2) && d.variants.length < 30) d.variants.push('Extra' + i, 'More' + i); }
    }
    if (rng.p(0.2)) { const structs = a.decls.filter(d => d.k === 'struct'); a.exports = [rng.pick(structs).name]; }
    out.push(S.refDefects(a).length ? base : a);
  }
  return out;
}
// a text of the same length that differs in one word only, most often the last possible one
const SWAP = [['uint8', 'int16', 'int32', 'float'], ['uint16', 'uint32', 'string']];
function twin(rng, text) {
  const at = [...text.matchAll(/\b(uint8|int16|int32|float|uint16|uint32|string)\b/g)];
  if (!at.length) return text;
  const m = rng.p(0.6) ? at[at.length - 1] : rng.pick(at), w = rng.pick(SWAP.find(s => s.includes(m[0])).filter(x => x !== m[0]));
  return text.slice(0, m.index) + w + text.slice(m.index + m[0].length);
}
module.exports = {
  variants, twin,
  id: 'C13', quick: { runs: 4500, secs: 150 }, thorough: { runs: 50000, secs: 780 }, components: G.COMPONENTS, assumptions: G.ASSUME, chunk: 15,
  rule: 'A run is a batch of 2-12 (3% of the runs: up to 60) schemas (pool schemas and groups that declare the same names differently or differ in one word, sometimes one invalid), compiled as a directory under 1-3 hash seeds and enumeration orders, and each alone; texts are compared byte for byte after the first line, verdicts exactly. Non-trivial if at least two schemas were in the batch.',
  gen(rng) {
    const c = G.genCase(rng, { pFile: 0, n: rng.p(0.03) ? rng.range(20, 60) : rng.range(2, 12) });
    c.inv.src = '';
    if (!G.feasible(c.tree, c.inv)) c.inv.out = 'out/z';
    if (rng.p(0.7)) { const vs = variants(rng, c.tree.files.length); c.tree.files.forEach((f, i) => { if (rng.p(0.8)) f.t = ['x', S.printSchema(vs[i], rng.int(100))]; }); }
    if (rng.p(0.15)) { const [a, ...r] = rng.shuffle(c.tree.files.slice()), t = G.text(a.t); a.t = ['x', t]; for (const f of r.slice(0, rng.range(1, 4))) f.t = ['x', rng.weighted([[6, twin(rng, t)], [1, t], [1, t + '# end\n']])]; }
    c.bad = rng.p(0.2) ? { i: rng.int(c.tree.files.length), t: ['b', rng.int(G.NPOOL)] } : null;
    c.envs = Array.from({ length: rng.range(1, 3) }, () => G.genProc(rng));
    return c;
  },
  run(sc, ctx) {
    const tree = JSON.parse(JSON.stringify(sc.tree));
    if (sc.bad && sc.bad.i < tree.files.length) tree.files[sc.bad.i].t = sc.bad.t;
    const outs = G.outputs(tree, sc.inv);
    // alone: single-file runs of the same binary
    const alone = {};
    let allOk = true;
    for (const o in outs) { alone[o] = ctx.ref(G.text(outs[o])); if (!alone[o].ok) allOk = false; }
    for (const env of sc.envs) {
      const w = G.mkWorld(ctx, tree, sc.inv, null);
      let r, snap;
      try { r = ctx.exec(w, { procs: [G.procOf(sc.inv, w, env)] }); snap = ctx.cli.snapshot(w.root); ctx.traceSnap(snap); } finally { ctx.cli.drop(w); }
      const ok = G.exitOk(r.exits[0]);
      if (ok !== allOk) return { viol: { cls: 'verdict', msg: allOk ? `every schema compiles alone but the batch ended ${r.exits[0].how} ${r.exits[0].code}: ${r.err[0].toString().trim().slice(0, 160)}` : 'a schema is refused alone but the batch succeeded' } };
      if (!ok) { // the reason given must be one that a member gets alone
        ctx.count('failing_batches'); continue;
      }
      for (const o in outs) {
        const t = snap[o] && snap[o].toString('latin1');
        if (!t) return { viol: { cls: 'missing', msg: `${o} missing after a successful batch` } };
        if (body(t) !== alone[o].body) { const a = alone[o].body.split('\n'), b = body(t).split('\n'); let k = 0; while (a[k] === b[k]) k++; return { viol: { cls: 'text', msg: `${o} differs from the single compilation at line ${k + 2}: ${JSON.stringify(b[k])} instead of ${JSON.stringify(a[k])}` } }; }
      }
    }
    return { nontrivial: Object.keys(outs).length > 1, sample: { files: sc.tree.files.map(f => f.p), bad: sc.bad, envs: sc.envs } };
  },
  *shrink(sc) {
    const c = () => JSON.parse(JSON.stringify(sc));
    yield* G.shrinkCase(sc);
    for (let i = 0; i < sc.envs.length; i++) if (sc.envs.length > 1) { const x = c(); x.envs.splice(i, 1); yield x; }
    if (sc.bad) { const x = c(); x.bad = null; yield x; }
  },
};

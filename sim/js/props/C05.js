'use strict';
// A schema is accepted exactly when it is valid, on every run.
const S = require('../schema'), P = require('../schemaprop');
module.exports = {
  id: 'C05', quick: { runs: 40000, secs: 120 }, thorough: { runs: 500000, secs: 780 }, components: P.COMPONENTS, chunk: 20,
  rule: 'A run is one random schema, about 40% valid and the rest broken in 1-3 of 14 ways, compiled 3-7 times under different hash seeds and declaration orders; the verdict of each is compared with an independent statement of the rules. Non-trivial: every run (one verdict per compilation).',
  gen: rng => P.genCase(rng, 0.4),
  run(sc, ctx) {
    if (sc.chain) { const d = Array.from({ length: sc.chain }, (_, i) => ({ k: 'struct', name: 'S' + i, fields: [{ name: 'a', type: i ? 'S' + (i - 1) : 'uint8', array: false, optional: false }] })); sc = Object.assign({}, sc, { ast: { decls: d, exports: ['S' + (sc.chain - 1)], xpos: [0] } }); }
    const D = sc.chain ? [] : S.refDefects(sc.ast), want = D.length === 0;
    ctx.count(want ? 'valid_schemas' : 'invalid_schemas');
    for (const k of sc.kinds || []) ctx.count('broken_' + k);
    for (const r of sc.runs) {
      const text = S.printSchema(P.permute(sc.ast, r.perm), sc.fmt);
      const c = P.compile(ctx, text, r, sc.via);
      if (sc.chain && !c.ok) return { viol: { cls: 'deep-chain', msg: `valid schema with ${sc.chain} nested structs is not accepted: ended ${c.exit.how} ${c.exit.code} ${c.err.trim().slice(0, 100)}` } };
      if (c.exit.how !== 'exit') return { viol: { cls: 'crash', msg: `compiler ended by ${c.exit.how} ${c.exit.code} ${c.err.trim().slice(0, 100)}` } };
      if (want && !c.ok) return { viol: { cls: 'rejects-valid', msg: `valid schema rejected (hash ${r.hash}, order ${r.perm}): ${c.err.trim().slice(0, 200)}` } };
      if (want && !c.wrote) return { viol: { cls: 'no-output', msg: 'valid schema accepted without output' } };
      if (!want && c.ok) return { viol: { cls: 'accepts-invalid', msg: `schema with ${JSON.stringify(D[0])} accepted (hash ${r.hash}, order ${r.perm})` } };
    }
    return { sample: { schema: S.printSchema(sc.ast, sc.fmt).slice(0, 500), defects: D.slice(0, 4), compilations: sc.runs.length } };
  },
  shrink: P.shrink,
};

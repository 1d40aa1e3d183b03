'use strict';
// A rejection blames something that is really wrong.
const S = require('../schema'), P = require('../schemaprop');
module.exports = {
  id: 'C06', quick: { runs: 40000, secs: 120 }, thorough: { runs: 500000, secs: 780 }, components: P.COMPONENTS, chunk: 20,
  rule: 'A run is one random schema broken in 1-3 of 14 ways, compiled 3-7 times under different hash seeds and declaration orders; every diagnostic is checked against the schema (named item really has the named problem). Non-trivial if at least one diagnostic was judged.',
  gen: rng => P.genCase(rng, 0.03),
  run(sc, ctx) {
    let judged = 0;
    for (const r of sc.runs) {
      const text = S.printSchema(P.permute(sc.ast, r.perm), sc.fmt);
      const c = P.compile(ctx, text, r, sc.via);
      if (c.exit.how !== 'exit' || c.ok) continue; // C05, C18
      const j = S.judgeDiagnostic(c.err, sc.ast);
      ctx.count(j && j.unjudged ? 'unjudged' : 'judged');
      if (j && j.unjudged) continue;
      judged++;
      if (j) return { viol: { cls: 'untrue', msg: `"${c.err.trim().slice(0, 160)}" but ${j} (hash ${r.hash}, order ${r.perm})` } };
    }
    return { nontrivial: judged > 0, sample: { schema: S.printSchema(sc.ast, sc.fmt).slice(0, 500), kinds: sc.kinds, judged } };
  },
  shrink: P.shrink,
};

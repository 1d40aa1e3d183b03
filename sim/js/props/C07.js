'use strict';
// Compiling the same schema again gives the same file.
const S = require('../schema'), X = require('../world'), P = require('../schemaprop');
const { body, head } = require('../ctx');
const TIME = /[A-Z][a-z]{2}, \d{1,2} [A-Z][a-z]{2} \d{4,} \d{2}:\d{2}:\d{2} [+-]\d{4}/;
module.exports = {
  id: 'C07', quick: { runs: 16000, secs: 120 }, thorough: { runs: 150000, secs: 780 }, components: P.COMPONENTS, chunk: 15,
  rule: 'A run is one random valid schema compiled by 3-8 builds that differ in hash seed, clock, time zone, path form, sibling files and directory order; outputs are compared byte for byte after masking the time in the first line. Non-trivial if the schema declares at least two types besides the export (something can be reordered).',
  gen(rng) {
    const ast = S.genSchema(rng, rng.weighted([[1, 'tiny'], [4, 'small'], [5, 'medium'], [2, 'large'], [2, 'deep'], [1, 'wide'], [.3, 'broad'], [.5, 'many'], [.4, 'chain']]));
    return { ast, fmt: rng.int(1000000), via: rng.p(0.3) ? 'cli' : 'lib', other: rng.p(0.4) ? S.genSchema(rng, 'small') : null, builds: Array.from({ length: rng.range(3, 8) }, () => X.genBuild(rng)) };
  },
  run(sc, ctx) {
    const text = S.printSchema(sc.ast, sc.fmt), other = sc.other ? S.printSchema(sc.other, 1) : undefined;
    let first = null, fi = 0;
    for (let i = 0; i < sc.builds.length; i++) {
      const r = (sc.via === 'lib' && ctx.call(text, sc.builds[i])) || X.buildOne(ctx, text, sc.builds[i], other);
      if (!r.ok) continue; // C05
      const t = head(r.text).replace(TIME, 'TIME') + '\n' + body(r.text);
      if (first === null) { first = t; fi = i; } else if (t !== first) {
        const a = first.split('\n'), b = t.split('\n'); let k = 0; while (a[k] === b[k]) k++;
        return { viol: { cls: k === 0 ? 'head' : 'body', msg: `builds ${fi} and ${i} differ at line ${k + 1}: ${JSON.stringify(a[k])} / ${JSON.stringify(b[k])}` } };
      }
    }
    return { nontrivial: first !== null && S.reachable(sc.ast, sc.ast.exports[0]).size > 2, sample: { schema: text.slice(0, 500), builds: sc.builds.map(b => [b.mode, b.hash, b.clk[0], b.tz]) } };
  },
  *shrink(sc) {
    const c = () => S.clone(sc);
    for (let i = 0; i < sc.builds.length; i++) if (sc.builds.length > 2) { const x = c(); x.builds.splice(i, 1); yield x; }
    for (const a of S.shrinkAst(sc.ast)) { if (S.refDefects(a).length === 0) { const x = c(); x.ast = a; yield x; } }
    for (let i = 0; i < sc.builds.length; i++) { const x = c(); Object.assign(x.builds[i], { mode: 'single', sib: [], storm: null, tz: '', dirseed: 0, unk: 0, path: 0, stem: 'main', stale: false }); if (JSON.stringify(x) !== JSON.stringify(sc)) yield x; }
    if (sc.builds.length === 2) { if (sc.builds[0].hash !== sc.builds[1].hash) { const x = c(); x.builds[1].hash = x.builds[0].hash; yield x; } if (String(sc.builds[0].clk) !== String(sc.builds[1].clk)) { const x = c(); x.builds[1].clk = x.builds[0].clk; yield x; } }
    if (sc.via === 'lib') { const x = c(); x.via = 'cli'; yield x; }
    if (sc.fmt) { const x = c(); x.fmt = 0; yield x; }
  },
};

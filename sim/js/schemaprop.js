'use strict';
// C05 and C06: verdict and diagnostics of the type checker over hash seeds and declaration orders.
const S = require('./schema');
const { Rng } = require('./prng');
const COMPONENTS = {
  real: ['packetc binary built from /repo (parser, type checker, generator, CLI)', 'packetc library built from /repo, called by a long-lived program (most runs)', 'kernel file system under the shim (tmpfs scratch tree)'],
  simulated: ['hash seed (every hash map iteration order), clock, declaration order, transient I/O faults while reading'],
  stub: [],
};
function permute(ast, seed) {
  const a = S.clone(ast);
  if (seed) { const r = new Rng('perm' + seed); r.shuffle(a.decls); a.xpos = a.exports.map(() => r.range(0, a.decls.length)); }
  return a;
}
function genCase(rng, pValid) {
  let ast = S.genSchema(rng);
  const kinds = [];
  if (rng.p(0.12)) ast = S.spread(rng, ast) || ast;
  if (!rng.p(pValid)) {
    const want = rng.weighted([[6, 1], [2, 2], [1, 3]]);
    for (let k = 0, tries = 0; k < want && tries < 12; tries++) {
      const kind = rng.pick(S.DEFECTS);
      const b = S.breakSchema(rng, ast, kind);
      if (b) { ast = b; kinds.push(kind); k++; }
    }
  }
  // a valid neighbour of an invalid schema is as interesting as the invalid one
  return {
    ast, kinds, fmt: rng.int(1000000), via: rng.p(0.15) ? 'cli' : 'lib',
    runs: Array.from({ length: rng.range(3, 7) }, () => ({ perm: rng.p(0.6) ? rng.u32() || 1 : 0, hash: rng.seed(), storm: rng.p(0.1) ? { seed: rng.seed(), short: 300, eintr: 200, chunk: 64 } : null })),
  };
}
function compile(ctx, text, r, via) {
  const l = via === 'lib' ? ctx.call(text, r) : null;
  if (l) return { exit: l, ok: l.ok, wrote: l.ok, err: l.err };
  const res = ctx.run({ 'in/s.pkt': text }, { procs: [{ args: ['ts', 'in/s.pkt', 'out'], hash: r.hash }], storms: r.storm ? [r.storm] : [] });
  const e = res.exits[0];
  return { exit: e, ok: e.how === 'exit' && e.code === 0, wrote: !!res.snap['out/s.ts'], err: res.err[0].toString(), raw: res };
}
function* shrink(sc) {
  const c = () => S.clone(sc);
  for (let i = 0; i < sc.runs.length; i++) if (sc.runs.length > 1) { const x = c(); x.runs.splice(i, 1); yield x; }
  if (!sc.ast) return;
  for (const a of S.shrinkAst(sc.ast)) { const x = c(); x.ast = a; yield x; }
  for (let i = 0; i < sc.runs.length; i++) { if (sc.runs[i].storm) { const x = c(); x.runs[i].storm = null; yield x; } if (sc.runs[i].perm) { const x = c(); x.runs[i].perm = 0; yield x; } }
  if (sc.via === 'lib') { const x = c(); x.via = 'cli'; yield x; }
  if (sc.fmt) { const x = c(); x.fmt = 0; yield x; }
}
module.exports = { genCase, permute, compile, shrink, COMPONENTS };

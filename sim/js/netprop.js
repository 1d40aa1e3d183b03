'use strict';
// Common shape of the properties decided on the simulated endpoint network.
const S = require('./schema'), X = require('./world');
const COMPONENTS = {
  real: ['packetc binary built from /repo (parser, checker, TypeScript generator, CLI)', 'packetc library built from /repo, embedded in a program (some of the builds)', 'generated TypeScript, emitted by the TypeScript compiler and executed', 'kernel file system under the shim (tmpfs scratch tree)'],
  simulated: ['hash seed, clock, directory order, short/interrupted I/O (LD_PRELOAD shim + simrun)', 'network between endpoints (discrete-event, drop/dup/delay/corrupt/cut/splice)', 'endpoint restart and redeploy'],
  stub: ['the external "packet" runtime library (Reader/Writer), two failure policies and several growth policies'],
};
const ASSUME = ['the runtime library reads and writes little-endian fixed-width values, fails a read past the end and keeps the failed flag', 'strings are ASCII (character encoding belongs to the runtime library)', 'schemas avoid the names listed in known-findings.json'];
function netProp(o) {
  return {
    id: o.id, quick: o.quick, thorough: o.thorough, rule: o.rule, components: COMPONENTS, assumptions: ASSUME, chunk: 10,
    gen(rng, info) {
      const ast = S.genSchema(rng);
      const nb = rng.range(o.builds[0], o.builds[1]);
      const builds = Array.from({ length: nb }, () => Object.assign(X.genBuild(rng), { lib: rng.p(o.pLib || 0.2) }));
      return { ast, fmt: rng.int(1000000), other: rng.p(0.3) ? S.genSchema(rng, 'small') : null, builds, net: X.genNet(rng, ast, nb, o.net) };
    },
    run(sc, ctx) {
      if (!sc.pinned && !X.valid(sc.ast)) return { skip: true };
      const b = X.buildAll(ctx, sc);
      if (b.rejected) { ctx.count('rejected_builds'); return o.onReject ? o.onReject(b) : { skip: true }; }
      for (const m of b.mods) if (m.errors.length || !m.js) return { viol: { cls: 'module', msg: 'generated module does not parse: ' + m.errors[0] } };
      const before = ctx.counts.packets_delivered || 0;
      const r = X.runNet(ctx, sc, b.mods, o.mon(sc.ast, sc, b, ctx));
      return { viol: r.viol, nontrivial: (ctx.counts.packets_delivered || 0) > before, sample: X.sample(sc) };
    },
    shrink: X.shrinkWorld,
  };
}
module.exports = { netProp, COMPONENTS, ASSUME };

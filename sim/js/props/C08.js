'use strict';
// Exit status 0 means every schema was compiled and fully written.
const fs = require('fs'), path = require('path');
const G = require('../fsgen');
const SPECIAL = ['missing-input', 'missing-parent', 'out-is-file', 'out-below-file', 'output-is-dir', 'sweep', 'two-faults'];
module.exports = {
  id: 'C08', quick: { runs: 10000, secs: 150 }, thorough: { runs: 110000, secs: 780 }, components: G.COMPONENTS, assumptions: G.ASSUME, chunk: 20,
  rule: 'A run is one random input tree and invocation, executed with up to 3 hard I/O errors placed at points the fault-free run reaches, each once, several times in a row, or for the rest of the run everywhere or on that file, or with a device that fills up (sweep runs place an error at every single point in turn), or with a missing input or a blocked output path. Non-trivial if a fault fired, an input was missing, invalid or blocked, or several outputs were written.',
  gen(rng) {
    const c = G.genCase(rng, { raw: 1, links: 1, pBad: rng.p(0.15) ? 0.3 : 0 });
    if (rng.p(0.02)) rng.pick(c.tree.files).t = ['n'];
    if (rng.p(0.03)) c.inv.lang = rng.pick(['TS', 'Ts', 'tS', 'rust', 'tsx', 'js', 't']);
    // every schema bad, as many as an exit status can count
    if (rng.p(0.004)) { const n = rng.pick([100, 128, 255, 256, 256, 512]); c.tree = { files: Array.from({ length: n }, (_, i) => ({ p: 'f' + i + '.pkt', t: ['x', rng.pick(['bad', 'A: struct { v: B }\nexport A\n'])] })), extra: [], empty: [] }; c.inv = G.simple({ mode: 'dir', src: '', out: 'out' }); }
    // more schemas than a process may have open files
    if (rng.p(0.002)) { const n = rng.range(1030, 1300); c.tree = { files: Array.from({ length: n }, (_, i) => ({ p: (i % 3 ? '' : 'd' + (i % 7) + '/') + 'f' + i + '.pkt', t: ['v', rng.int(8)] })), extra: [], empty: [] }; c.inv = G.simple({ mode: 'dir', src: '', out: 'out' }); }
    c.env = G.genProc(rng);
    c.stale = G.genStale(rng, 0.3);
    c.special = rng.p(0.2) ? rng.pick(SPECIAL) : null;
    c.faults = rng.p(0.85) ? Array.from({ length: rng.weighted([[8, 1], [2, 2], [1, 3]]) }, () => G.genFault(rng)) : [];
    if (c.special === 'sweep' && c.tree.files.length < 20) c.sweep = rng.int(16);
    c.storm = rng.p(0.2) ? { seed: rng.seed(), short: 400, eintr: 100, chunk: rng.pick([1, 50, 1000]) } : null;
    return c;
  },
  run(sc, ctx) {
    const outs = G.outputs(sc.tree, sc.inv), names = Object.keys(outs).sort();
    const scope = sc.inv.mode === 'file' ? sc.tree.files.filter(f => f.p === sc.inv.src) : sc.tree.files.filter(f => !sc.inv.src || f.p.startsWith(sc.inv.src + '/'));
    const known = !sc.inv.lang || sc.inv.lang.toLowerCase() === 'ts';
    const allValid = scope.every(f => G.isValid(f.t)) && known;
    let blocked = null, missing = false;
    const world = () => {
      const w = G.mkWorld(ctx, sc.tree, sc.inv, sc.stale), rm = p => fs.rmSync(path.join(w.root, p), { recursive: true, force: true });
      const clear = o => { try { return !fs.existsSync(path.join(w.root, o)); } catch (e) { return false; } };
      if (sc.special === 'missing-input' || sc.special === 'missing-parent') {
        if (sc.inv.cwd === 'in') { /* the working directory must exist */ } else { rm(sc.special === 'missing-parent' || !sc.inv.src ? 'in' : 'in/' + sc.inv.src); missing = true; }
      } else if (names.length && /^out/.test(sc.inv.out)) {
        if (sc.special === 'out-is-file') { rm('out'); fs.mkdirSync(path.join(w.root, path.dirname(sc.inv.out)), { recursive: true }); fs.writeFileSync(path.join(w.root, sc.inv.out), 'a file'); blocked = sc.inv.out; }
        else if (sc.special === 'out-below-file') { rm('out'); fs.writeFileSync(path.join(w.root, 'out'), 'a file'); blocked = 'out'; }
        else if (sc.special === 'output-is-dir' && !G.hasRaw(sc.tree)) { const o = names[(sc.env.clk[1]) % names.length]; rm(o); fs.mkdirSync(path.join(w.root, o), { recursive: true }); fs.writeFileSync(path.join(w.root, o, 'f'), ''); blocked = o; }
      }
      void clear;
      return w;
    };
    const once = (faults, storms) => {
      const w = world();
      try { const r = ctx.exec(w, { procs: [G.procOf(sc.inv, w, sc.env)], faults, storms }); r.snap = ctx.cli.snapshot(w.root); ctx.traceSnap(r.snap); return r; } finally { ctx.cli.drop(w); }
    };
    const judge = r => {
      const e = r.exits[0], fired = G.hardFired(r), tag = fired.length ? ' after ' + fired.map(G.describe).join('; ') : '';
      if (e.how !== 'exit') return { cls: 'died', msg: `ended by ${e.how} ${e.code}${tag}` };
      if (e.code === 0) {
        if (missing) return { cls: 'missing-ok', msg: `exit 0 although the input ${sc.inv.src || 'directory'} does not exist` };
        if (!known) return { cls: 'language-ok', msg: `exit 0 although there is no language '${sc.inv.lang}'` };
        if (!allValid) return { cls: 'invalid-ok', msg: 'exit 0 although a schema is invalid' + tag };
        const why = G.incomplete(ctx, r.snap, outs);
        if (why) return { cls: 'incomplete', msg: `exit 0 but ${why}${tag}` };
      } else {
        if (!r.err[0].length && !fired.some(f => f.op === 'stderr')) return { cls: 'silent', msg: `exit ${e.code} without a word on stderr${tag}` };
        if (!missing && !blocked && allValid && !fired.length && !G.hasRaw(sc.tree)) return { cls: 'spurious', msg: `exit ${e.code} with valid inputs and no failing operation: ${r.err[0].toString().trim().slice(0, 200)}` };
      }
      return null;
    };
    let counts = null;
    if (sc.faults.length || sc.sweep !== undefined) {
      const r = once([], []); counts = G.countOps(r);
      const v = judge(r); if (v) return { viol: v };
    }
    let hit = 0;
    if (sc.sweep !== undefined) {
      // an error at every operation of the run, one at a time
      for (const cls of G.HARD) for (let n = 0; n < (counts[cls] || 0) && n < 40; n++) {
        const r = once([{ p: 0, cls, nth: n, act: 'fail', err: G.ERRS[cls][(sc.sweep + n) % G.ERRS[cls].length], rep: [0, -2, -1][(n + (sc.sweep >> 2)) % 3] }], []);
        ctx.count('sweep_points'); hit += G.hardFired(r).length;
        const v = judge(r); if (v) return { viol: v };
      }
      return { nontrivial: hit > 0, sample: G.sampleOf(sc) };
    }
    const r = once(sc.faults.map(f => G.resolveFault(f, counts)).filter(Boolean), sc.storm ? [sc.storm] : []);
    const v = judge(r); if (v) return { viol: v };
    hit = G.hardFired(r).length;
    if (missing) ctx.count('missing_input'); if (blocked) ctx.count('blocked_output'); if (!allValid) ctx.count('invalid_schema'); if (hit) ctx.count('runs_with_hard_fault'); if (hit && G.exitOk(r.exits[0])) ctx.count('hard_fault_survived');
    return { nontrivial: hit > 0 || missing || !!blocked || !allValid || names.length > 1, sample: G.sampleOf(sc) };
  },
  *shrink(sc) {
    yield* G.shrinkCase(sc);
    if (sc.storm) { const x = JSON.parse(JSON.stringify(sc)); x.storm = null; yield x; }
  },
};

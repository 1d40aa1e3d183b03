'use strict';
// check driver: node driver.js <PROPERTY> | --replay FILE | --det PROPERTY N
const fs = require('fs');
const os = require('os');
const path = require('path');
const { fork, spawnSync } = require('child_process');
const { Rng } = require('./prng');
const { Ctx } = require('./ctx');

const VERIF = path.resolve(__dirname, '..', '..');
const TIER = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
const SEED = /^-?\d+$/.test(process.env.VERIF_SEED || '') ? parseInt(process.env.VERIF_SEED, 10) : 1;
const plain = s => s.replace(/[\x00-\x08\x0b-\x1f\x7f-\x9f]/g, '.');
const load = id => require('./props/' + id + '.js');

function scratchBase() {
  for (const d of ['/dev/shm', path.join(VERIF, '.build')]) {
    try { const p = fs.mkdtempSync(path.join(d, 'pktsim-')); return p; } catch (e) { /* next */ }
  }
  throw new Error('no scratch directory');
}
function build() {
  const r = spawnSync('bash', [path.join(VERIF, 'build.sh')], { encoding: 'utf8', stdio: ['ignore', 'pipe', 'inherit'] });
  if (r.status !== 0) { console.error('build failed'); process.exit(2); }
  const [libhost, bin] = r.stdout.trim().split('\n').slice(-2);
  return { bin, libhost };
}
function mkenv({ bin, libhost }) { return { bin, libhost: libhost === '-' ? null : libhost, thr: path.join(VERIF, '.build', 'libthr.so'), simrun: path.join(VERIF, '.build', 'simrun'), shim: path.join(VERIF, '.build', 'libsimshim.so') }; }

// Executes one scenario; never throws for behaviour of the code under test.
function runOne(prop, sc, ctx) {
  ctx.reset();
  let r = prop.run(sc, ctx) || {};
  if (r.viol && ctx.libUsed) { // only what a fresh embedding process shows as well; influence of earlier calls is C21
    ctx.lib.stop(); ctx.reset();
    r = prop.run(sc, ctx) || {};
    if (!r.viol) ctx.count('not_in_fresh_process');
  }
  const s = ctx.sig();
  return { viol: r.viol || null, nontrivial: r.nontrivial !== false && !r.skip, skip: !!r.skip, sig: s.full, fold: s.fold, sample: r.sample };
}

// ---------------- worker ----------------
function worker() {
  let prop, ctx, prefix, tier;
  process.on('message', m => {
    if (m.init) { prop = load(m.id); tier = m.tier; ctx = new Ctx(m.env, m.scratch); ctx.tier = tier; prefix = m.prefix; process.send({ ready: true }); return; }
    if (m.exit) process.exit(0);
    const out = { from: m.from, to: m.to, ran: 0, skipped: 0, sigs: [], folds: [], viol: null, samples: [], mismatch: 0, rechecks: 0 };
    ctx.counts = {}; ctx.faults = {}; ctx.simNs = 0;
    for (let i = m.from; i < m.to; i++) {
      const seed = prefix + i;
      const sc = m.scenario || prop.gen(new Rng(seed), { tier, index: i });
      let r;
      const t1 = Date.now();
      try { r = runOne(prop, sc, ctx); } catch (e) { out.error = `run ${i}: ${e.stack}`; out.errorScenario = sc; break; }
      out.ran++;
      if (process.env.VERIF_SLOW && Date.now() - t1 > Number(process.env.VERIF_SLOW)) console.error(`slow run ${i}: ${Date.now() - t1} ms`);
      if (r.skip) out.skipped++;
      else if (r.nontrivial) { out.sigs.push(r.sig); out.folds.push(r.fold); }
      if (i % 61 === 7) { // repeatability spot check: the same scenario again must give the same execution
        const c = ctx.counts, f = ctx.faults, t = ctx.simNs; ctx.counts = {}; ctx.faults = {};
        const r2 = runOne(prop, sc, ctx);
        ctx.counts = c; ctx.faults = f; ctx.simNs = t;
        out.rechecks++;
        if (r2.sig !== r.sig) { out.mismatch++; if (process.env.VERIF_SLOW) console.error(`run ${i} not repeated exactly`); }
      }
      if (i < 3 && r.sample) out.samples.push(r.sample);
      if (r.viol) { out.viol = { index: i, seed, scenario: sc, viol: r.viol }; break; }
    }
    out.counts = ctx.counts; out.faults = ctx.faults; out.simNs = ctx.simNs;
    process.send(out);
  });
}

// Runs one scenario in a process of its own and tells whether that process died.
function dies(id, tier, env, scratch, prefix, m) {
  return new Promise(resolve => {
    const c = fork(__filename, ['--worker'], { serialization: 'advanced', stdio: ['ignore', 'ignore', 'ignore', 'ipc'] });
    let answered = false, timer = setTimeout(() => { c.kill('SIGKILL'); }, 200000);
    c.on('message', r => { if (r.ready) { c.send(m); return; } answered = true; c.send({ exit: true }); });
    c.on('exit', (code, sig) => { clearTimeout(timer); resolve(answered ? null : `exit ${code === null ? sig : code}`); });
    c.send({ init: true, id, tier, env, scratch, prefix });
  });
}

// ---------------- known findings ----------------
function knownFindings(id) {
  const f = path.join(VERIF, 'known-findings.json');
  if (!fs.existsSync(f)) return [];
  return JSON.parse(fs.readFileSync(f, 'utf8')).findings.filter(x => x.property === id);
}

function shrink(prop, v, ctx, secs) {
  const end = Date.now() + secs * 1000;
  let cur = v.scenario, viol = v.viol, tried = 0, kept = 0;
  const same = sc => { tried++; let r; try { r = runOne(prop, sc, ctx); } catch (e) { return null; } return r.viol && r.viol.cls === v.viol.cls ? r.viol : null; };
  for (let again = true; again && Date.now() < end;) {
    again = false;
    try {
      for (const cand of prop.shrink ? prop.shrink(cur) : []) {
        if (Date.now() > end) break;
        const nv = same(cand);
        if (nv) { cur = cand; viol = nv; again = true; kept++; break; }
      }
    } catch (e) { console.error('minimising stopped: ' + e.message); break; } // report what there is
  }
  return { scenario: cur, viol, tried, kept };
}

async function replay(file) {
  const rp = JSON.parse(fs.readFileSync(file, 'utf8'));
  const prop = load(rp.property);
  const base = scratchBase();
  const ctx = new Ctx(mkenv(build()), path.join(base, 'r00'));
  ctx.tier = rp.tier || 'quick';
  try {
    if (rp.violation.cls === 'process-death') {
      const d = await dies(rp.property, ctx.tier, ctx.env, path.join(base, 'x00'), 'replay/', { from: 0, to: 1, scenario: rp.scenario });
      console.log(d ? `process-death: ${d}\nVIOLATION property=${rp.property} replay=${file}` : 'no violation');
      process.exitCode = d ? 1 : 0;
      return;
    }
    const r = runOne(prop, rp.scenario, ctx);
    if (process.env.VERIF_VERBOSE) console.log(ctx.trace.join('\n'));
    if (r.viol) {
      console.log(plain(`${r.viol.cls}: ${r.viol.msg}`));
      console.log(`execution ${r.sig}${rp.execution ? (r.sig === rp.execution ? ' (same as recorded)' : ' (recorded: ' + rp.execution + ')') : ''}`);
      console.log(`VIOLATION property=${rp.property} replay=${file}`);
      process.exitCode = 1;
    } else { console.log('no violation'); process.exitCode = 0; }
  } finally { fs.rmSync(base, { recursive: true, force: true }); }
}

// determinism proof: the same seeds in two passes with different worker layout and order must give equal signatures
async function main(id) {
  const t0 = Date.now();
  const prop = load(id);
  const bin = build();
  const env = mkenv(bin);
  const base = scratchBase();
  const cleanup = () => { try { fs.rmSync(base, { recursive: true, force: true }); } catch (e) { /* leave */ } };
  process.on('exit', cleanup);
  for (const s of ['SIGINT', 'SIGTERM', 'SIGHUP']) process.on(s, () => process.exit(2));
  const budget = prop[TIER];
  const agg = { ran: 0, skipped: 0, counts: {}, faults: {}, sigs: new Set(), folds: new Set(), samples: [], mismatch: 0, rechecks: 0, simNs: 0 };
  let tSearch = t0;
  const known = knownFindings(id);
  let knownHit = 0;
  const pctx = new Ctx(env, path.join(base, 'p00')); pctx.tier = TIER;
  for (const k of known) {
    const r = runOne(prop, k.scenario, pctx);
    if (r.viol && r.viol.cls === k.cls) { console.log(`KNOWN-FINDING: property=${id} ${k.what}`); knownHit++; }
    else if (r.viol) { return finish({ index: -1, seed: 'known-finding ' + k.id, scenario: k.scenario, viol: r.viol }); }
  }
  tSearch = Date.now();
  const deadline = t0 + budget.secs * 1000;
  const nw = Math.max(1, Math.min(Number(process.env.VERIF_WORKERS) || os.cpus().length, 16));
  const total = Number(process.env.VERIF_RUNS) || budget.runs;
  const chunk = Math.max(1, Math.min(prop.chunk || 20, Math.ceil(total / nw / 4)));
  let next = 0, limit = total, best = null, err = null;
  const add = (o, x) => { for (const k in x) o[k] = (o[k] || 0) + x[k]; };
  const dead = [];
  await Promise.all(Array.from({ length: nw }, (_, w) => new Promise(resolve => {
    const c = fork(__filename, ['--worker'], { serialization: 'advanced' });
    let timer = null, over = false, mine = null;
    const done = () => { if (!over) { over = true; clearTimeout(timer); resolve(); } };
    const arm = () => { clearTimeout(timer); timer = setTimeout(() => { err = err || 'worker did not answer for 300 s'; c.kill('SIGKILL'); }, 300000); };
    const give = () => {
      if (next >= limit || Date.now() > deadline || err) { c.send({ exit: true }); return; }
      const from = next, to = Math.min(from + chunk, limit); next = to; mine = { from, to }; arm(); c.send(mine);
    };
    c.on('message', m => {
      mine = null;
      if (m.ready) return give();
      agg.ran += m.ran; agg.skipped += m.skipped; add(agg.counts, m.counts); add(agg.faults, m.faults); agg.simNs += m.simNs;
      for (const s of m.sigs) agg.sigs.add(s);
      for (const s of m.folds) agg.folds.add(s);
      agg.samples.push(...m.samples); agg.mismatch += m.mismatch; agg.rechecks += m.rechecks;
      if (m.error) err = err || m.error;
      if (m.viol && (!best || m.viol.index < best.index)) { best = m.viol; limit = Math.min(limit, best.index); }
      give();
    });
    c.on('exit', code => { if (code !== 0 && !over) { if (mine) dead.push(mine); err = err || `worker exited with ${code}`; } done(); });
    arm();
    c.send({ init: true, id, tier: TIER, env, scratch: path.join(base, 'w' + String(w).padStart(2, '0')), prefix: `${SEED}/${id}/` });
  })));
  // a worker that died is itself a finding if one scenario of its chunk kills a fresh process every time
  for (const d of best ? [] : dead) for (let i = d.from; i < d.to && !best; i++) {
    const go = n => dies(id, TIER, env, path.join(base, 'x' + n), `${SEED}/${id}/`, { from: i, to: i + 1 });
    const why = await go('01');
    if (why && await go('02')) best = { index: i, seed: `${SEED}/${id}/${i}`, scenario: prop.gen(new Rng(`${SEED}/${id}/${i}`), { tier: TIER, index: i }), viol: { cls: 'process-death', msg: 'the process executing the generated code died (' + why + ')' } };
  }
  if (err && !best) { console.error('check error: ' + err); process.exit(2); }
  return finish(best);

  function finish(v) {
    const searchS = (Date.now() - tSearch) / 1000;
    let violations = 0;
    if (v) {
      violations = 1;
      const lethal = v.viol.cls === 'process-death';
      const m = lethal ? { scenario: v.scenario, viol: v.viol, tried: 0, kept: 0 } : shrink(prop, v, pctx, TIER === 'quick' ? 40 : 90);
      // the minimised scenario must reproduce, exactly, before it is reported
      const a = lethal ? v : runOne(prop, m.scenario, pctx), b = lethal ? v : runOne(prop, m.scenario, pctx);
      let sc = m.scenario, vv = m.viol, exact = a.viol && b.viol && a.sig === b.sig, sig = a.sig;
      if (!a.viol || !b.viol) {
        sc = v.scenario; vv = v.viol; let hits = 0;
        for (let i = 0; i < 20; i++) { const r = runOne(prop, sc, pctx); if (r.viol) { hits++; sig = r.sig; vv = r.viol; } }
        if (!hits) { console.error(`check error: violation at seed ${v.seed} did not reproduce: ${v.viol.msg}`); process.exit(2); }
        console.log(`note: reproduced in ${hits} of 20 repeats (the code under test varies outside the simulated sources)`);
      }
      const dir = path.join(VERIF, 'replays');
      fs.mkdirSync(dir, { recursive: true });
      const file = path.join(dir, `${id}-${SEED}-${v.index}.json`);
      fs.writeFileSync(file, JSON.stringify({ property: id, tier: TIER, verif_seed: SEED, run_index: v.index, run_seed: v.seed, violation: vv, minimised: { tried: m.tried, accepted: m.kept }, execution: sig, exact, scenario: sc }, null, 1) + '\n');
      console.log(plain(`violation at seed ${v.seed}: ${vv.cls}: ${vv.msg}`));
      console.log(`VIOLATION property=${id} replay=${file}`);
    }
    writeEvidence();
    process.exit(violations ? 1 : 0);

    function writeEvidence() {
      const ev = {
        property: id, tier: TIER, seed: SEED, level: 'exploration',
        coverage: Object.assign({
          evaluations: agg.ran, distinct_nontrivial: agg.sigs.size, rule: prop.rule,
          samples: agg.samples.slice(0, 3),
          distinct_schedules: agg.folds.size,
          schedule_measure: 'hash of the ordered sequence of (process, operation, injected fault) and network/editor events of a run, without data',
          skipped_invalid: agg.skipped,
          seeds_per_hour: Math.round(agg.ran / Math.max(searchS, 0.001) * 3600),
          faults_injected: agg.faults, probes: agg.counts,
          simulated_time_s: Math.round(agg.simNs / 1e6) / 1000,
          repeatability: { rechecked: agg.rechecks, different: agg.mismatch },
          components: prop.components, known_findings_reproduced: knownHit,
        }),
        assumptions: prop.assumptions || [], wall_s: Math.round((Date.now() - t0) / 100) / 10, violations,
      };
      fs.mkdirSync(path.join(VERIF, 'evidence'), { recursive: true });
      fs.writeFileSync(path.join(VERIF, 'evidence', id + '.json'), JSON.stringify(ev, null, 1) + '\n');
      console.log(`${id} ${TIER} seed=${SEED}: ${agg.ran} runs (${agg.sigs.size} distinct, ${agg.folds.size} schedules, ${agg.skipped} skipped), ${agg.rechecks} repeated (${agg.mismatch} different), ${ev.wall_s}s${violations ? ', VIOLATED' : ''}`);
    }
  }
}

// node driver.js --det ID N : signatures of the first N seeds, one per line (compared by tools/determinism.sh)
function det(id, n, order) {
  const prop = load(id), base = scratchBase(), ctx = new Ctx(mkenv(build()), path.join(base, 'd00'));
  ctx.tier = 'quick';
  try {
    const idx = Array.from({ length: n }, (_, i) => i);
    if (order === 'rev') idx.reverse();
    const out = [];
    for (const i of idx) { const r = runOne(prop, prop.gen(new Rng(`${SEED}/${id}/${i}`), { tier: 'quick', index: i }), ctx); out[i] = `${i} ${r.sig} ${r.viol ? r.viol.cls : '-'}`; }
    console.log(out.join('\n'));
  } finally { fs.rmSync(base, { recursive: true, force: true }); }
}

const a = process.argv.slice(2);
if (a[0] === '--worker') worker();
else if (a[0] === '--replay') replay(a[1]).catch(e => { console.error('check error: ' + (e.stack || e)); process.exit(2); });
else if (a[0] === '--det') det(a[1], Number(a[2] || 200), a[3]);
else if (a[0]) main(a[0]).catch(e => { console.error('check error: ' + (e.stack || e)); process.exit(2); });
else { console.error('usage: driver.js PROPERTY | --replay FILE | --det PROPERTY N'); process.exit(2); }

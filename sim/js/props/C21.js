'use strict';
// Compilations in one process do not influence each other.
const S = require('../schema');
const { sha, body, head } = require('../ctx');
const { variants, twin } = require('./C13');
const TIME = /[A-Z][a-z]{2}, \d{1,2} [A-Z][a-z]{2} \d{4,} \d{2}:\d{2}:\d{2} [+-]\d{4}/;
const COMPONENTS = {
  real: ['packetc library built from /repo, embedded in a program (sim/libhost)', 'packetc binary built from /repo, for the compilation alone'],
  simulated: ['thread schedule (one thread at a time, switched at allocations, releases and futex waits)', 'hash seed and clock of every thread'],
  stub: [],
};
function genText(rng, vs, i) {
  let ast = vs[i];
  const kind = rng.weighted([[6, 'ok'], [3, 'bad'], [2, 'syntax']]);
  if (kind === 'bad') { const b = S.breakSchema(rng, ast, rng.pick(S.DEFECTS)); if (b) ast = b; }
  const text = S.printSchema(ast, rng.int(100));
  if (kind !== 'syntax') return { ast, text };
  const at = rng.int(text.length + 1);
  return { text: text.slice(0, at) + rng.pick(['%', 'é', '}', ': :', '\u{1F600}{', '?']) + text.slice(at) };
}
module.exports = {
  id: 'C21', quick: { runs: 8000, secs: 120 }, thorough: { runs: 90000, secs: 780 }, components: COMPONENTS, chunk: 15,
  assumptions: ['threads are switched at allocations, releases and blocking waits; two accesses to shared memory with none of these in between are not separated'],
  rule: 'A run is a fresh process that embeds the library: 1-6 threads with 1-8 calls each (sometimes one thread with up to 1500) over 2-6 schemas that declare the same names differently or differ in one word, some invalid, some syntactically damaged; every call has the result of the same text compiled alone by the command-line program. Non-trivial if at least two calls were made.',
  gen(rng) {
    const n = rng.range(2, 6), vs = variants(rng, n);
    const texts = Array.from({ length: n }, (_, i) => genText(rng, vs, i));
    if (rng.p(0.15)) texts[1] = { text: twin(rng, texts[0].text), any: 1 }; // if it is refused, any of several reasons may be given
    const long = rng.p(0.03);
    const nt = long ? 1 : rng.weighted([[2, 1], [4, 2], [3, 3], [1, 6]]);
    const threads = Array.from({ length: nt }, () => ({ hash: rng.seed(), clk: [rng.range(0, 4102444800), rng.int(1000000000)], calls: Array.from({ length: long ? rng.range(50, rng.p(0.3) ? 1500 : 400) : rng.range(1, nt === 1 ? 14 : 8) }, () => rng.int(n)) }));
    return { texts, threads, seed: rng.seed(), mean: nt === 1 ? 0 : rng.pick([0, 1, 2, 5, 20, 100, 500]), budget: rng.pick([200, 3000]) };
  },
  run(sc, ctx) {
    if (!ctx.env.libhost) throw new Error('the library of /repo could not be built into the embedding program');
    ctx.lib.stop(); // a fresh process
    const alone = sc.texts.map(t => ctx.ref(t.text));
    const g = { seed: sc.seed, mean: sc.mean, budget: sc.budget, threads: sc.threads.map(t => ({ hash: t.hash, clk: t.clk, calls: t.calls.map(c => sc.texts[c % sc.texts.length].text) })) };
    const r = ctx.lib.exec([g]);
    ctx.lib.stop();
    const calls = sc.threads.reduce((a, t) => a + t.calls.length, 0);
    ctx.count('processes'); ctx.count('calls', calls);
    if (r.dead) { ctx.trace.push('dead ' + r.code); return { viol: { cls: 'dead', msg: `the process with ${sc.threads.length} threads and ${calls} calls ended: ${r.dead}` } }; }
    const x = r[0];
    ctx.count('yield_points', x.yields); ctx.count('blocking_waits', x.waits); ctx.fault('preemption', x.switches);
    ctx.trace.push(x.trace); ctx.fold.push(x.trace, sc.threads.map(t => t.calls.map(c => alone[c % alone.length].ok ? 'v' : 'i').join('')).join('|'));
    let viol = null;
    sc.threads.forEach((t, i) => t.calls.forEach((c0, k) => {
      const c = c0 % sc.texts.length, got = x.results[i][k], ref = alone[c], text = sc.texts[c], at = `thread ${i}, call ${k} (schema ${c})`;
      ctx.trace.push(got.st + sha(got.text));
      ctx.count(['accepted', 'refused', 'panicked', 'not_text'][got.st]);
      if (got.st === 1) ctx.fault('refused_call');
      if (viol) return;
      if (got.st === 2) { if (ref.exit.how === 'exit' && ref.exit.code === 101) return; viol = { cls: 'panic', msg: `${at} panicked: ${got.text.slice(0, 200)}` }; return; }
      if ((got.st === 0) !== ref.ok) { viol = { cls: 'verdict', msg: `${at} was ${got.st === 0 ? 'accepted' : 'refused'} but alone it is ${ref.ok ? 'accepted' : 'refused'}: ${(got.st ? got.text : ref.err).trim().slice(0, 160)}` }; return; }
      if (got.st === 0) {
        if (body(got.text) !== Buffer.from(ref.body, 'latin1').toString('utf8')) { const a = ref.body.split('\n'), b = body(got.text).split('\n'); let l = 0; while (a[l] === b[l]) l++; viol = { cls: 'text', msg: `${at}: line ${l + 2} is ${JSON.stringify(b[l])}, alone ${JSON.stringify(a[l])}` }; return; }
        const h = head(got.text), m = h.match(TIME);
        if (h.replace(TIME, '') !== head(ref.text).replace(TIME, '')) viol = { cls: 'head', msg: `${at}: first line ${JSON.stringify(h)}, alone ${JSON.stringify(head(ref.text))}` };
        else if (m && Date.parse(m[0]) !== t.clk[0] * 1000) viol = { cls: 'stamp', msg: `${at}: stamped ${m[0]}, but the clock of the call shows ${new Date(t.clk[0] * 1000).toUTCString()}` };
      } else if (text.ast) {
        const j = S.judgeDiagnostic(got.text, text.ast);
        if (j && !j.unjudged) viol = { cls: 'diagnostic', msg: `${at}: "${got.text.trim().slice(0, 160)}" but ${j}` };
      } else if (!text.any && !ref.err.replace(/\s+/g, ' ').includes(got.text.replace(/\s+/g, ' ').trim())) viol = { cls: 'diagnostic', msg: `${at}: "${got.text.trim().slice(0, 120)}", alone "${ref.err.trim().slice(0, 120)}"` };
    }));
    return { viol, nontrivial: calls > 1, sample: { threads: sc.threads.map(t => t.calls), mean: sc.mean, switches: x.switches, schema0: sc.texts[0].text.slice(0, 200) } };
  },
  *shrink(sc) {
    const c = () => S.clone(sc);
    for (let i = 0; i < sc.threads.length; i++) if (sc.threads.length > 1) { const x = c(); x.threads.splice(i, 1); yield x; }
    for (let i = 0; i < sc.threads.length; i++) { const n = sc.threads[i].calls.length; for (let m = n >> 1; m >= 1; m >>= 1) for (let k = 0; k + m <= n; k += m) { if (n - m < 1) continue; const x = c(); x.threads[i].calls.splice(k, m); yield x; } }
    if (sc.mean) { const x = c(); x.mean = 0; yield x; }
    for (const b of [1, 2, 4, 8, 16, 32, 64, 128]) if (b < sc.budget) { const x = c(); x.budget = b; yield x; }
    const used = new Set(sc.threads.flatMap(t => t.calls.map(k => k % sc.texts.length)));
    for (const i of used) if (sc.texts[i].ast) for (const a of S.shrinkAst(sc.texts[i].ast)) { const x = c(); x.texts[i] = { ast: a, text: S.printSchema(a, 0) }; yield x; }
    for (let i = 0; i < sc.texts.length; i++) if (!used.has(i) && sc.texts.length > 1) { const x = c(); x.texts.splice(i, 1); x.threads.forEach(t => { t.calls = t.calls.map(k => { const q = k % sc.texts.length; return q > i ? q - 1 : q; }); }); yield x; }
  },
};

'use strict';
// The generation stamp tells the UTC time and nothing else uses the clock.
const fs = require('fs');
const G = require('../fsgen');
const { body, head } = require('../ctx');
const VERSION = () => { const m = /\[package\][^[]*?\nversion\s*=\s*"([^"]+)"/.exec(fs.readFileSync('/repo/Cargo.toml', 'utf8')); return m[1]; };
const DOW = ['Sun', 'Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat'], MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec'];
const CLKS = [0, 1, 59, 60, 86399, 86400, 951782399, 951782400, 951868800, 1078012800, 1709164799, 1709251199, 1709251200, 1735689599, 1735689600, 2147483647, 2147483648, 4107542400, 4294967295, 4294967296, 253402300700];
module.exports = {
  id: 'C17', quick: { runs: 10000, secs: 150 }, thorough: { runs: 90000, secs: 780 }, components: G.COMPONENTS,
  assumptions: G.ASSUME.concat(['Clock readings lie between 1970-01-01 and 9999-12-31.']), chunk: 20,
  rule: 'A run executes one batch under 2-4 clock histories (arbitrary start incl. leap days, year ends and 2038/2106, ticks from 0 to a day per operation, jumps forwards and backwards between any two operations) and time zones; each stamp must name the compiler version and a time this host clock showed between the first opening of the schema and the last write of its output, and everything else must be equal across the histories. Non-trivial if at least one stamp was checked.',
  gen(rng) {
    const c = G.genCase(rng, { pBad: rng.p(0.1) ? 0.3 : 0, n: rng.p(0.5) ? rng.range(1, 3) : 0 });
    const base = G.genProc(rng); c.stale = null;
    c.tries = Array.from({ length: rng.range(2, 4) }, () => {
      const t = Object.assign({}, base, { hash: rng.p(0.5) ? base.hash : rng.seed(), clk: [rng.p(0.4) ? rng.pick(CLKS) : rng.p(0.8) ? rng.range(0, 4102444800) : rng.range(0, 253402300799), rng.p(0.3) ? rng.pick([0, 999999999, 500000000]) : rng.int(1000000000)], step: rng.pick([0, 1000000, 500000000, 1000000000, 61000000000, 3601000000000, 86400000000000]), tz: rng.pick(['', 'UTC', 'Europe/Prague', 'America/New_York', 'XXX+11:30', 'Asia/Kolkata', 'ABC-14', ':/nonexistent', 'EST5EDT,M3.2.0,M11.1.0', 'garbage value']) });
      const jumps = rng.p(0.4) ? Array.from({ length: rng.range(1, 3) }, () => ({ nth: rng.p(0.5) ? rng.int(60) : rng.int(12), d: rng.pick([-86400 * 365, -86400, -3600, -60, -1, 1, 60, 3600, 86400, 86400 * 3650]) })) : [];
      const lo = jumps.reduce((s, j) => s + Math.min(0, j.d), 0); // never before 1970, never after 9999
      t.clk[0] = Math.min(Math.max(t.clk[0], -lo), 253402300799 - 86400 * 40000);
      if (!jumps.length && rng.p(0.05)) { t.clk[0] = 253402300700; t.step = 0; }
      return { env: t, jumps };
    });
    return c;
  },
  run(sc, ctx) {
    const version = VERSION(), outs = G.outputs(sc.tree, sc.inv);
    let first = null, stamps = 0;
    for (const t of sc.tries) {
      const w = G.mkWorld(ctx, sc.tree, sc.inv, null);
      let r, snap;
      try { r = ctx.exec(w, { procs: [G.procOf(sc.inv, w, t.env)], jumps: t.jumps }); snap = ctx.cli.snapshot(w.root); ctx.traceSnap(snap); } finally { ctx.cli.drop(w); }
      const e = r.exits[0];
      if (e.how !== 'exit') return { viol: { cls: 'died', msg: `clock ${t.env.clk[0]}: ended by ${e.how} ${e.code}` } };
      const sum = [`exit ${e.code === 0 ? 0 : 1}`].concat(Object.keys(snap).sort().map(p => p + (snap[p] === null ? '/' : outs[p] !== undefined ? ' ' + body(snap[p].toString('latin1')) : '')));
      if (!first) first = sum;
      else for (let i = 0; i < Math.max(sum.length, first.length); i++) if (sum[i] !== first[i]) return { viol: { cls: 'leak', msg: `clock ${t.env.clk[0]}, tz ${JSON.stringify(t.env.tz)}: the run differs in more than the stamp from the one at clock ${sc.tries[0].env.clk[0]}: ${String(sum[i]).slice(0, 80)} / ${String(first[i]).slice(0, 80)}` } };
      if (e.code !== 0) continue;
      // what the clock showed at each operation
      const clock = r.events.map((x, k) => t.env.clk[0] + t.jumps.reduce((n, j) => n + (j.nth <= k ? j.d : 0), 0) + Number((BigInt(t.env.clk[1]) + BigInt(t.env.step) * BigInt(k)) / 1000000000n));
      for (const o of Object.keys(outs)) {
        const f = snap[o];
        if (!f) continue; // C08
        const h = head(f.toString('latin1'));
        const m = /\b([A-Z][a-z]{2}), (\d{1,2}) ([A-Z][a-z]{2}) (\d{4}) (\d{2}):(\d{2}):(\d{2}) ([+-]\d{4}|GMT|UT|UTC|Z)/.exec(h);
        if (!/^\/\//.test(h)) return { viol: { cls: 'comment', msg: `first line of ${o} is not a comment: ${h.slice(0, 80)}` } };
        if (!h.includes(version)) return { viol: { cls: 'version', msg: `first line of ${o} does not name version ${version}: ${h.slice(0, 100)}` } };
        if (!m) return { viol: { cls: 'format', msg: `first line of ${o} holds no RFC 2822 time: ${h.slice(0, 120)}` } };
        if (/^[+-]/.test(m[8]) && Number(m[8].slice(1)) !== 0) return { viol: { cls: 'zone', msg: `stamp of ${o} is not UTC: ${h.slice(0, 120)}` } };
        const sec = Date.UTC(2000, MON.indexOf(m[3]), +m[2], +m[5], +m[6], +m[7]), d = new Date(sec); d.setUTCFullYear(+m[4], MON.indexOf(m[3]), +m[2]);
        const stamp = d.getTime() / 1000;
        if (DOW[d.getUTCDay()] !== m[1] || MON.indexOf(m[3]) < 0 || d.getUTCDate() !== +m[2]) return { viol: { cls: 'calendar', msg: `stamp of ${o} is not a calendar date: ${m[0]}` } };
        // what the clock showed from the opening of the schema to the last write of its output
        const src = sc.inv.mode === 'file' ? 'in/' + sc.inv.src : 'in/' + (sc.inv.src ? sc.inv.src + '/' : '') + (sc.inv.out === '.' ? o : o.slice(sc.inv.out.length + 1)).replace(/\.ts$/, '.pkt');
        const a = r.events.findIndex(x => x.op === 'open' && x.path === src), b = r.events.reduce((n, x, i) => (x.path === o && G.MUT.has(x.op)) || x.path2 === o ? i : n, -1);
        const shown = clock.slice(Math.max(a, 0), (b < 0 ? clock.length : b) + 1);
        stamps++;
        if (!shown.includes(stamp)) return { viol: { cls: 'time', msg: `stamp of ${o} is ${m[0]} (${stamp}) but the clock went from ${shown[0]} to ${shown[shown.length - 1]} between opening the schema and the last write of the output` } };
      }
    }
    ctx.count('stamps_checked', stamps);
    return { nontrivial: stamps > 0, sample: { tries: sc.tries.map(t => [t.env.clk[0], t.env.step, t.env.tz, t.jumps]) } };
  },
  *shrink(sc) {
    yield* G.shrinkCase(sc);
    const c = () => JSON.parse(JSON.stringify(sc));
    for (let i = 0; i < sc.tries.length; i++) {
      if (sc.tries.length > 1) { const x = c(); x.tries.splice(i, 1); yield x; }
      if (sc.tries[i].jumps.length) { const x = c(); x.tries[i].jumps = []; yield x; }
      if (sc.tries[i].env.tz) { const x = c(); x.tries[i].env.tz = ''; yield x; }
      if (sc.tries[i].env.dirseed) { const x = c(); x.tries[i].env.dirseed = 0; yield x; }
      if (sc.tries[i].env.step !== 1000000) { const x = c(); x.tries[i].env.step = 1000000; yield x; }
    }
  },
};

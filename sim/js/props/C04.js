'use strict';
// Damaged or hostile packets are refused, never crash or mislead.
const W = require('../wire');
const { netProp } = require('../netprop');
module.exports = netProp({
  id: 'C04', pLib: 0.75, builds: [1, 2],
  net: { pfault: 0.85, maxMsgs: 30, kinds: [[0.3, 'drop'], [1, 'dup'], [1, 'delay'], [4, 'flip'], [6, 'cut'], [8, 'mark'], [2, 'splice'], [1, 'append'], [2, 'random']] },
  mon: (ast, sc, b, ctx) => {
    const exp = ast.exports[0];
    return {
      delivered(c, p, bytes, intact, res) {
        const r = W.refDecode(ast, exp, bytes);
        ctx.count('verdict_' + r.verdict);
        if (res.error) return { cls: res.error instanceof W.Budget ? 'unbounded' : 'throws', msg: `decoding ${bytes.length} bytes threw: ${res.error.message}` };
        if (r.verdict === 'huge') return null;
        if (r.verdict === 'reject') return res.obj === null ? null : { cls: 'accepted', msg: `packet ${p.i} (${r.why}) was accepted: ${bytes.toString('hex').slice(0, 80)}` };
        if (res.obj === null) {
          if (r.verdict === 'either') return null;
          return { cls: 'refused', msg: `well-formed packet ${p.i} was refused after ${c.h.refused - 1} refusals on that endpoint: ${bytes.toString('hex').slice(0, 80)}` };
        }
        if (res.obj === undefined) return { cls: 'undefined', msg: 'read() returned undefined' };
        const d = W.diff(ast, exp, r.value, res.obj);
        return d ? { cls: 'misread', msg: `packet ${p.i} ${bytes.toString('hex').slice(0, 80)}: ${d}` } : null;
      },
    };
  },
  rule: 'A run is one random valid schema, 1-2 builds, 2-4 endpoints and 4-30 messages whose packets are mostly cut, flipped, spliced, extended, replaced by random bytes or given boundary values at enum, length, count and presence positions; every delivery is judged by an independent decoder. Non-trivial if at least one packet was delivered.',
  quick: { runs: 8000, secs: 120 }, thorough: { runs: 90000, secs: 780 },
});

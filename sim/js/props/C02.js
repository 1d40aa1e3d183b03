'use strict';
// A packet delivered intact decodes to exactly the message sent.
const S = require('../schema'), W = require('../wire'), X = require('../world');
const { netProp } = require('../netprop');
module.exports = netProp({
  id: 'C02', pLib: 0.75, builds: [1, 3],
  net: { pfault: 0.45, kinds: [[2, 'drop'], [3, 'dup'], [3, 'delay'], [1, 'flip'], [1, 'cut'], [1, 'mark'], [1, 'splice'], [0.5, 'append'], [0.5, 'random']] },
  mon: ast => {
    const exp = ast.exports[0], kept = [];
    return {
      sent(c, p) {
        if (p.error) return { cls: 'encode-throws', msg: `encoding message ${p.i} threw: ${p.error.message}` };
        const d = W.diff(ast, exp, p.value, p.obj);
        if (d) return { cls: 'sender-changed', msg: `the message object does not hold what it was constructed with: ${d}` };
        return null;
      },
      delivered(c, p, bytes, intact, res) {
        if (!intact) return null;
        if (res.error) return { cls: 'decode-throws', msg: `decoding intact packet ${p.i} threw: ${res.error.message}` };
        if (res.obj === null) return { cls: 'refused', msg: `intact packet ${p.i} was refused` };
        const d = W.diff(ast, exp, p.value, res.obj);
        if (d) return { cls: 'differs', msg: `packet ${p.i}: ${d}` };
        kept.push([p, res.obj]);
        return null;
      },
      end() { // a message decoded earlier must not change because others were decoded later
        for (const [p, o] of kept) { const d = W.diff(ast, exp, p.value, o); if (d) return { cls: 'changed-later', msg: `packet ${p.i} was decoded correctly and changed later: ${d}` }; }
        return null;
      },
    };
  },
  rule: 'A run is one random valid schema compiled by 1-3 simulated builds, 2-4 endpoints from those builds, 4-14 random messages over a faulty link, with restarts and redeploys; it is non-trivial if at least one packet was delivered intact.',
  quick: { runs: 8000, secs: 120 }, thorough: { runs: 90000, secs: 780 },
});

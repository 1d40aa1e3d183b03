'use strict';
// Packets follow the declared layout and carry nothing else.
const W = require('../wire');
const { netProp } = require('../netprop');
module.exports = netProp({
  id: 'C03', pLib: 0.75, builds: [1, 4],
  net: { pfault: 0.35, kinds: [[1, 'drop'], [2, 'dup'], [3, 'delay'], [1, 'mark'], [1, 'flip'], [1, 'cut']] },
  mon: ast => {
    const exp = ast.exports[0];
    return {
      sent(c, p) {
        if (p.error) return { cls: 'encode-throws', msg: `encoding message ${p.i} threw: ${p.error.message}` };
        if (c.h.ep.stat.type.length) return { cls: 'wrong-kind', msg: `message ${p.i}: ${c.h.ep.stat.type[0]}` };
        const want = W.refEncode(ast, exp, p.value);
        if (!want.equals(p.bytes)) {
          let k = 0; while (k < want.length && k < p.bytes.length && want[k] === p.bytes[k]) k++;
          return { cls: 'layout', msg: `message ${p.i} (build ${p.build}): declared layout ${want.length} bytes, packet ${p.bytes.length} bytes, first difference at byte ${k} (${want.subarray(k, k + 8).toString('hex')} / ${p.bytes.subarray(k, k + 8).toString('hex')})` };
        }
        return null;
      },
      delivered(c, p, bytes, intact, res) {
        if (!intact || res.error || res.obj === null) return null; // C02 and C04
        let again;
        try { again = c.h.ep.reencode(res.obj); } catch (e) { return { cls: 'reencode-throws', msg: `re-encoding decoded packet ${p.i} threw: ${e.message}` }; }
        if (!again.equals(bytes)) return { cls: 'reencode', msg: `packet ${p.i}: decoded and encoded again it is ${again.length} bytes (was ${bytes.length}) or differs` };
        return null;
      },
    };
  },
  rule: 'A run is one random valid schema compiled by 1-4 builds; every packet any endpoint emits is compared byte for byte with an independent encoder of the declared layout, and every intact delivery is re-encoded by the receiver. Non-trivial if at least one packet was delivered.',
  quick: { runs: 8000, secs: 120 }, thorough: { runs: 90000, secs: 780 },
});

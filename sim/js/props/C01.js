'use strict';
// Independently built endpoints speak the same wire format.
const W = require('../wire');
const { netProp } = require('../netprop');
module.exports = netProp({
  id: 'C01', builds: [3, 7],
  net: { pfault: 0.3, maxMsgs: 8, kinds: [[2, 'drop'], [3, 'dup'], [3, 'delay']] },
  onReject: () => ({ skip: true }),
  mon: (ast, sc) => {
    const exp = ast.exports[0];
    const enc = (ep, v) => { try { return ep.encode(v, false).bytes; } catch (e) { return 'throws ' + e.message; } };
    return {
      sent(c, p) {
        // every other build encodes the same message to the same bytes
        const mine = p.bytes || 'throws ' + p.error.message;
        for (let i = 0; i < c.peers.length; i++) {
          const b = enc(c.peers[i], p.given);
          if (Buffer.isBuffer(mine) !== Buffer.isBuffer(b) || (Buffer.isBuffer(b) && !b.equals(mine)))
            return { cls: 'bytes', msg: `builds ${p.build} and ${i} of the same schema encode message ${p.i} differently: ${hex(mine)} / ${hex(b)}` };
        }
        return null;
      },
      delivered(c, p, bytes, intact, res) {
        if (!intact) return null;
        // the receiver's build and every other build decode it to the same message
        const view = (obj, err) => err ? 'throws' : obj === null ? 'null' : W.diff(ast, exp, p.value, obj) || 'same';
        const mine = view(res.obj, res.error);
        for (let i = 0; i < c.peers.length; i++) {
          let o, e; try { o = c.peers[i].decode(bytes); } catch (x) { e = x; }
          const v = view(o, e);
          if (v !== mine) return { cls: 'decode', msg: `builds ${c.h.b} and ${i} of the same schema decode packet ${p.i} differently: ${mine} / ${v}` };
          if (v !== 'same' && i !== p.build && view(...own(c.peers[p.build], bytes)) === 'same') return { cls: 'decode', msg: `build ${i} does not understand build ${p.build}: ${v}` };
        }
        return null;
      },
    };
  },
  rule: 'A run is one random valid schema compiled by 3-7 builds that differ in hash seed, clock, time zone, path form, batch and directory order; every message sent is encoded by every build and every packet delivered is decoded by every build. Non-trivial if at least one packet was delivered.',
  quick: { runs: 4000, secs: 120 }, thorough: { runs: 50000, secs: 780 },
});
function own(ep, bytes) { try { return [ep.decode(bytes), null]; } catch (e) { return [null, e]; } }
function hex(b) { return Buffer.isBuffer(b) ? b.toString('hex').slice(0, 60) : b; }

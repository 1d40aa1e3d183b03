'use strict';
// Corrupted schema files never crash or hang the compiler.
const G = require('../fsgen'), S = require('../schema');
const { Rng } = require('../prng');
const { parse } = require('../pkt');
const { body, canon } = require('../ctx');
const TOK = ['struct', 'enum', 'export', '{', '}', ':', ',', '?', '[]', '#', '\n', ' ', '\t', '\r', 'uint8', 'string', '\0', 'é', '☃', '\u{1F600}', 'A', '_', '0', '[', ']', '"', "'", '\\', ' ', '/*'];
function corrupt(buf, ops) {
  let b = Buffer.from(buf);
  for (const o of ops) {
    const r = new Rng('c' + o.s), at = b.length ? r.int(b.length) : 0;
    switch (o.k) {
      case 'bit': if (b.length) b[at] ^= 1 << r.int(8); break;
      case 'byte': if (b.length) b[at] = r.int(256); break;
      case 'cut': b = b.subarray(0, at); break;
      case 'head': b = b.subarray(at); break;
      case 'zero': b = Buffer.from(b); b.fill(0, at); break;
      case 'hole': { b = Buffer.from(b); b.fill(0, at, Math.min(b.length, at + r.range(1, 512))); break; }
      case 'del': b = Buffer.concat([b.subarray(0, at), b.subarray(Math.min(b.length, at + r.range(1, 20)))]); break;
      case 'dup': { const e = Math.min(b.length, at + r.range(1, 200)); b = Buffer.concat([b.subarray(0, e), b.subarray(at)]); break; }
      case 'tok': { const n = r.range(1, 3); let t = ''; for (let i = 0; i < n; i++) t += r.pick(TOK); b = Buffer.concat([b.subarray(0, at), Buffer.from(t), b.subarray(at)]); break; }
      case 'utf8': b = Buffer.concat([b.subarray(0, at), r.pick([Buffer.from([0xff]), Buffer.from([0xc3]), Buffer.from([0xed, 0xa0, 0x80]), Buffer.from([0xf0, 0x9f, 0x98]), Buffer.from([0xc0, 0x80])]), b.subarray(at)]); break;
      case 'bom': b = Buffer.concat([Buffer.from([0xef, 0xbb, 0xbf]), b]); break;
      case 'crlf': b = Buffer.from(b.toString('latin1').replace(/\n/g, r.pick(['\r\n', '\r', '\n\r'])), 'latin1'); break;
      case 'mix': { const x = Buffer.from(G.text(['v', r.int(G.NPOOL)])); const k = Math.min(b.length, x.length), q = r.int(k + 1); b = r.p(0.5) ? Buffer.concat([x.subarray(0, q), b.subarray(q)]) : Buffer.concat([b.subarray(0, q), x.subarray(q)]); break; }
      case 'blocks': { const x = Buffer.from(G.text(['v', r.int(G.NPOOL)])); const bs = r.pick([16, 64, 512]); const out = []; for (let i = 0; i < Math.max(b.length, x.length); i += bs) out.push((r.p(0.5) ? b : x).subarray(i, i + bs)); b = Buffer.concat(out); break; }
      case 'rep': { const u = Buffer.from(r.pick(['{', '}', '#', 'a', ' ', '\n', 'a: struct {', '[]', 'export A\n', 'x: enum { A }\n', 'struct ', '?', '\r'])); const a = []; for (let i = r.pick([10, 200, 3000]); i > 0; i--) a.push(u); b = Buffer.concat([b.subarray(0, at), ...a, b.subarray(at)]); break; }
      case 'line': { const l = b.toString('latin1').split('\n'), x = r.int(l.length), y = r.int(l.length), h = r.int(3); if (h === 0) l.splice(x, r.range(1, 2)); else if (h === 1) l.splice(y, 0, l[x]); else [l[x], l[y]] = [l[y], l[x]]; b = Buffer.from(l.join('\n'), 'latin1'); break; }
      case 'letter': { const c = []; for (let i = 0; i < b.length; i++) if ((b[i] | 32) >= 97 && (b[i] | 32) <= 122) c.push(i); if (c.length) b[r.pick(c)] ^= r.pick([32, 1, 2, 3, 4]); break; }
      case 'blank': { const c = []; for (let i = 0; i < b.length; i++) if (b[i] <= 32 || b[i] === 44) c.push(i); if (c.length) b[r.pick(c)] = r.pick([32, 9, 10, 13, 44]); break; }
      case 'note': case 'noteend': { // a comment with long characters, perhaps with everything after it lost
        const c = []; for (let i = 0; i < b.length; i++) if (b[i] === 32 || b[i] === 10) c.push(i + 1);
        const p = c.length ? r.pick(c) : 0; let t = '# '; for (let i = r.range(1, 12); i > 0; i--) t += r.pick(['é', '☃', '\u{1F600}', 'x', ' ', '\u0301', '\t', 'ÿ', '\u2028', '\u00a0']);
        b = Buffer.concat([b.subarray(0, p), Buffer.from(t), ...(o.k === 'note' ? [Buffer.from('\n'), b.subarray(p)] : [])]); break;
      }
      case 'pad': { // whole lines lost or kept, followed by filler
        const c = [b.length]; for (let i = 0; i < b.length; i++) if (b[i] === 10) c.push(i + 1);
        const p = r.p(0.5) ? b.length : r.pick(c), f = r.pick([0, 0, 0, 26, 255, 32, 10, 35]), n = r.p(0.3) ? 1 : r.range(1, 600);
        b = Buffer.concat([b.subarray(0, p), Buffer.alloc(n, f), ...(r.p(0.2) ? [b.subarray(p)] : [])]); break;
      }
      case 'long': { // a very long line
        const set = r.pick([['é', 'ü'], ['☃', 'x'], ['\u{1F600}'], ['x'], ['é', '☃', '\u{1F600}', 'x', ' ', '\u0301', '\t']]); let t = r.pick(['# ', '#', '@', '', 'x: ', 'é']);
        for (let i = r.pick([r.range(20, 60), r.range(20, 300), 1000]); i > 0; i--) t += r.pick(set);
        b = Buffer.concat([b.subarray(0, at), Buffer.from(t + r.pick(['', '\n'])), b.subarray(at)]); break;
      }
      default: throw new Error(o.k);
    }
  }
  return b;
}
const KINDS = ['bit', 'bit', 'byte', 'byte', 'cut', 'cut', 'head', 'zero', 'hole', 'del', 'dup', 'tok', 'tok', 'utf8', 'bom', 'crlf', 'mix', 'blocks', 'rep', 'line', 'line', 'letter', 'letter', 'blank', 'blank', 'note', 'noteend', 'long', 'pad'];
module.exports = {
  id: 'C18', quick: { runs: 40000, secs: 120 }, thorough: { runs: 600000, secs: 780 }, components: G.COMPONENTS, assumptions: G.ASSUME, chunk: 40,
  rule: 'A run damages one valid schema file in 1-4 of 24 ways (bit flips, lost or zeroed tail, holes, duplicated or deleted ranges, torn mixes of two versions, invalid UTF-8, byte order mark, line-end changes, lost, repeated or swapped lines, changed letters and blanks, comments with long characters, long lines, filler in place of lines, long repetitions) and compiles it 2-3 times under different hash seeds, alone or beside a good schema, with short reads; the verdict is compared with an independent reader of the grammar and of the schema rules, and accepted output with the compilation of what that reader saw. Non-trivial: every run whose damaged bytes differ from the original.',
  gen(rng) {
    return {
      t: rng.p(0.1) ? ['x', rng.pick(['', '\n', '#', 'export A', 'A: struct {}\nexport A'])] : ['v', rng.p(0.015) ? G.BIG + rng.int(G.NBIG) : rng.int(G.NPOOL)],
      ops: Array.from({ length: rng.weighted([[6, 1], [3, 2], [1, 4]]) }, () => ({ k: rng.pick(KINDS), s: rng.u32() })),
      runs: Array.from({ length: rng.range(2, 3) }, () => ({ hash: rng.seed(), storm: rng.p(0.3) ? { seed: rng.seed(), short: 500, eintr: 100, chunk: rng.pick([1, 7, 64]) } : null })),
      dir: rng.p(0.3), via: rng.p(0.2) ? 'cli' : 'lib',
    };
  },
  run(sc, ctx) {
    const orig = Buffer.from(G.text(sc.t)), buf = corrupt(orig, sc.ops);
    let first = null;
    // what the damaged file says, by an independent reader of the grammar and the schema rules
    const p = parse(buf), why = p.bad || (S.refDefects(p.ast)[0] && JSON.stringify(S.refDefects(p.ast)[0])), says = why ? null : S.printSchema(p.ast, 0);
    ctx.count(p.bad ? 'says_bad_syntax' : why ? 'says_bad_schema' : 'says_valid');
    if (sc.via === 'lib' && ctx.env.libhost && Buffer.from(buf.toString('utf8')).equals(buf)) { // many more texts by calls of the library
      for (const r of sc.runs) {
        const x = ctx.call(buf, r);
        if (x.how !== 'exit') return { viol: { cls: 'signal', msg: `the embedding process ended: ${x.err}` } };
        if (x.code === 101) return { viol: { cls: 'panic', msg: x.err.slice(0, 240) } };
        ctx.count(x.ok ? 'accepted' : 'refused');
        if (!x.ok && x.err.length < 10) return { viol: { cls: 'silent', msg: 'refused without a reason' } };
        if (first && first.ok !== x.ok) return { viol: { cls: 'verdict', msg: `one call ${first.ok ? 'accepts' : 'refuses'} the text and another ${x.ok ? 'accepts' : 'refuses'} it (hash ${r.hash}): ${x.err.slice(0, 120)}` } };
        first = first || x;
        if (x.ok && why) return { viol: { cls: 'accepts', msg: `the damaged text was compiled although it is not a valid schema (${why})` } };
        if (!x.ok && !why) return { viol: { cls: 'refuses', msg: `the damaged text still is a valid schema but was refused: ${x.err.slice(0, 160)}` } };
        if (x.ok) { const y = ctx.call(says, r); if (y.ok && canon(y.text) !== canon(x.text)) return { viol: { cls: 'other-text', msg: 'the output is not the compilation of what the damaged text says' } }; }
      }
      if (!buf.equals(orig)) ctx.count('damaged');
      return { nontrivial: !buf.equals(orig), sample: { ops: sc.ops, text: buf.toString('latin1').slice(0, 200) } };
    }
    for (const r of sc.runs) {
      const tree = { 'in/s.pkt': buf };
      if (sc.dir) tree['in/good.pkt'] = G.text(['v', 1]);
      const x = ctx.run(tree, { procs: [{ args: ['ts', sc.dir ? 'in' : 'in/s.pkt', 'out'], hash: r.hash, dirseed: r.hash }], storms: r.storm ? [r.storm] : [], maxsteps: 60000 });
      const e = x.exits[0], err = x.err[0].toString();
      if (e.how !== 'exit') return { viol: { cls: e.how === 'sig' ? 'signal' : 'hang', msg: `ended by ${e.how} ${e.code}: ${err.trim().slice(0, 160)}` } };
      if (e.code === 101 || /panicked at/.test(err)) return { viol: { cls: 'panic', msg: err.trim().slice(0, 240) } };
      const out = x.snap['out/s.ts'];
      if (e.code !== 0 && Object.keys(x.snap).some(p => p === 'out' || p.startsWith('out/'))) return { viol: { cls: 'output', msg: `refused (exit ${e.code}) but output was produced` } };
      if (e.code !== 0 && !err.length) return { viol: { cls: 'silent', msg: `exit ${e.code} without a word on stderr` } };
      if (e.code === 0 && !out) return { viol: { cls: 'nothing', msg: 'exit 0 without output' } };
      const v = { ok: e.code === 0, body: out ? body(out.toString('latin1')) : null };
      ctx.count(v.ok ? 'accepted' : 'refused');
      if (first && first.ok !== v.ok) return { viol: { cls: 'verdict', msg: `one run ${first.ok ? 'accepts' : 'refuses'} the file and another ${v.ok ? 'accepts' : 'refuses'} it (hash ${r.hash}): ${err.trim().slice(0, 120)}` } };
      first = first || v;
      if (v.ok && why) return { viol: { cls: 'accepts', msg: `the damaged file was compiled although it is not a valid schema (${why})` } };
      if (!v.ok && !why) return { viol: { cls: 'refuses', msg: `the damaged file still is a valid schema but was refused: ${err.trim().slice(0, 160)}` } };
      if (v.ok) { const ref = ctx.ref(says); if (ref.ok && ref.canon !== canon(out.toString('latin1'))) return { viol: { cls: 'other-text', msg: 'the output is not the compilation of what the damaged file says' } }; }
    }
    if (!buf.equals(orig)) ctx.count('damaged');
    return { nontrivial: !buf.equals(orig), sample: { ops: sc.ops, text: buf.toString('latin1').slice(0, 200) } };
  },
  *shrink(sc) {
    const c = () => JSON.parse(JSON.stringify(sc));
    for (let i = 0; i < sc.runs.length; i++) if (sc.runs.length > 1) { const x = c(); x.runs.splice(i, 1); yield x; }
    for (let i = 0; i < sc.ops.length; i++) { const x = c(); x.ops.splice(i, 1); yield x; }
    if (sc.via === 'lib') { const x = c(); x.via = 'cli'; yield x; }
    if (sc.dir) { const x = c(); x.dir = false; yield x; }
    for (let i = 0; i < sc.runs.length; i++) if (sc.runs[i].storm) { const x = c(); x.runs[i].storm = null; yield x; }
    // turn the damage into a literal text and shorten that
    const t = corrupt(Buffer.from(G.text(sc.t)), sc.ops);
    if (sc.ops.length && Buffer.from(t.toString('utf8')).equals(t)) { const x = c(); x.t = ['x', t.toString('utf8')]; x.ops = []; yield x; }
    if (!sc.ops.length && sc.t[0] === 'x') { const s = sc.t[1]; for (let n = s.length >> 1; n >= 1; n >>= 1) for (let i = 0; i + n <= s.length; i += n) { const x = c(); x.t[1] = s.slice(0, i) + s.slice(i + n); yield x; } }
  },
};

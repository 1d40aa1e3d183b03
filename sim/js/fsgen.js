'use strict';
// Input trees, invocations, faults and crashes for the command-line checks.
const fs = require('fs');
const path = require('path');
const { Rng } = require('./prng');
const S = require('./schema');
const { canon, body, sha } = require('./ctx');
const { genHost } = require('./host');
const { ts } = require('./endpoint');
const { RAW, fp } = require('./cli');

const COMPONENTS = {
  real: ['packetc binary built from /repo, started as a process for every run', 'Rust standard library and C library above the intercepted calls', 'kernel file system (tmpfs scratch tree)'],
  simulated: ['result, order and partial completion of every file operation', 'directory enumeration order and entry types', 'clock, time zone, hash seed, process id', 'scheduling of concurrent processes and of an editor'],
  stub: [],
};
const ASSUME = [
  'Faults are injected at C library calls; the kernel file system itself is trusted.',
  'Errors of close() are not injected (the standard library ignores them); a schema whose path is not valid UTF-8 may be compiled or refused; outputs are not symbolic links.',
];

// ---- texts: a fixed pool, so that reference compilations are shared between runs ----
// ['v', k]: valid schema k, ['b', k]: invalid schema k, ['x', text]: literal, ['n']: a symbolic link to nothing
const NPOOL = 240;
// beyond the pool: texts and outputs larger than any buffer (['v', BIG + k])
const BIG = 1000, NBIG = 15;
function bigText(k) {
  // more than a megabyte of text, of output, very many declarations
  if (k === 12) return Array.from({ length: 8000 }, (_, i) => '# ' + 'padding '.repeat(i % 40 + 1)).join('\n') + '\n' + text(['v', 1]);
  if (k === 13) return 'A: struct {\n' + Array.from({ length: 12000 }, (_, i) => `  field_${i}: uint8,\n`).join('') + '}\nexport A\n';
  if (k === 14) return Array.from({ length: 9000 }, (_, i) => `S${i}: struct { a: ${i ? 'uint8' : 'string'} }\n`).join('') + 'A: struct { v: S0, w: S8999[] }\nexport A\n';
  const rng = new Rng('big' + k), pad = [9000, 17000, 34000, 67000, 132000, 200000][k % 6];
  let s = S.printSchema(poolAst(k), 0);
  if (k < 6) { // long text, small output
    let c = '';
    while (c.length < pad) c += '# ' + 'padding '.repeat(rng.range(1, 40)) + '\n';
    const lines = s.split('\n'), at = rng.int(2) ? 0 : lines.findIndex(l => /^\w+:/.test(l));
    lines.splice(Math.max(at, 0), 0, c.trimEnd());
    return lines.join('\n');
  }
  let f = ''; // many fields, large output
  for (let i = 0; f.length < pad / 8; i++) f += `  field_${i}: ${rng.pick(S.BUILTINS)}${rng.p(0.2) ? '[]' : ''},\n`;
  return `Big: struct {\n${f}}\nexport Big\n`;
}
const memo = new Map();
const SIZES = ['tiny', 'small', 'small', 'medium', 'tiny', 'medium', 'deep', 'large'];
function poolAst(k) { return S.genSchema(new Rng('pool' + k), SIZES[k % 8]); }
function text(t) {
  if (t[0] === 'x') return t[1];
  const key = t[0] + t[1];
  if (memo.has(key)) return memo.get(key);
  let v;
  if (t[0] === 'b' && t[1] >= BIG) { const g = bigText(t[1] - BIG), at = g.indexOf('\n') + 1; v = t[1] % 3 ? g + ['export Nope\n', 'B: struct { a: Nope }\n'][t[1] % 2] : g.slice(0, at) + 'Bad: struct { a: uint8, a: uint8 }\n' + g.slice(at); if (t[1] === BIG + 12 || t[1] === BIG + 3) v = 'Bad: enum {}\n' + g; }
  else if (t[0] === 'v' && t[1] >= BIG) v = bigText(t[1] - BIG);
  else if (t[0] === 'v') v = t[1] === 0 ? 'A: struct { v: uint8 }\nexport A\n' : S.printSchema(poolAst(t[1]), t[1]);
  else {
    const k = t[1], rng = new Rng('bad' + k);
    if (k === 0) v = 'A: struct { v: uint8 }\n';
    else if (k % 5 === 1) { const g = text(['v', k]); v = rng.pick([g + '\n@', '%' + g, g + '\nB: struct {', '', '   ', '\n\n', '# nothing\n', g + '}', g + '\nexport Nope\n', 'export\n']); }
    else if (k % 5 === 2) v = Buffer.concat([Buffer.from(text(['v', k])), Buffer.from([0x23, 0xff, 0xfe, 0x0a])]);
    else { for (;;) { const b = S.breakSchema(rng, poolAst(k), rng.pick(S.DEFECTS)); if (b && S.refDefects(b).length) { v = S.printSchema(b, k); break; } } }
  }
  memo.set(key, v);
  return v;
}
const isValid = t => t[0] === 'v';
const genText = (rng, pBad = 0) => rng.p(pBad) ? ['b', rng.p(0.04) ? BIG + rng.int(12) : rng.int(NPOOL)] : ['v', rng.p(0.3) ? rng.int(8) : rng.int(NPOOL)];

// ---- trees ----
const STEMS = ['a', 'b', 'c', 'main', 'x.y', 'v1.2.3', 'a b', 'ünï', '.hidden', 'Zed', 'x', 'x.pkt', 'a.ts', 'long' + 'g'.repeat(120), '-dash', 'b.d', 'pkt', 'name.with.pkt.inside', 'A', 'e\u0301', '\u00e9', 'back\\slash', 'per%41cent', '#hash', 'quo\'te"', 'w'.repeat(200), 'ts', '\u65e5\u672c', '$HOME', '~', '*', '..x', 'x..', ' lead', 'new\nline', '\u{1F600}', 'CON', '[a]', 'a:b'];
const DIRS = ['sub', 'sub/deep', 'd.pkt', 'b c', '.git', 'sub/deep/er', 'Z', 'gen', 'a.b', 'node_modules', 'B', 'ts', 'd.ts', '..d', 'e\u0301 x', '1/2/3/4/5/6/7/8/9/10/11/12'];
const IGNORED = ['notes.txt', 'a.pkt~', 'b.pkt.bak', 'README', 'apkt', 'c.pkts', 'x.ts', 'q.pk', 'main.rs', 'a.pkt.swp', 'pkt.d', 'x.xpkt', 'q.PKT', 'main.Pkt', 'c.pkt2', 'a._pkt', 'b.pkt ', 'd.pktx', 'e.p.k.t', 'x.pk.t'];
const RAWS = ['\uF7FF', 'a\uF7C3', '\uF780b', 'x\uF7C3(y', '\uF7E9t\uF7E9'];
const CHARS = Array.from('aZ09 _-.,;:!?@#$%^&*()[]{}<>|~`\'"\\=+\t\u00e9\u00df\u0416\u4e2d\u{1F680}');
const anyName = rng => { for (;;) { const s = Array.from({ length: rng.weighted([[3, 1], [3, 2], [4, rng.range(3, 12)]]) }, () => rng.pick(CHARS)).join(''); if (s !== '.' && s !== '..') return s; } };
function genTree(rng, o = {}) {
  const n = o.n || rng.weighted([[3, 1], [4, 2], [4, 3], [3, rng.range(4, 6)], [1, rng.range(7, 14)], [0.12, rng.range(30, 100)], [0.04, rng.range(110, 280)]]);
  const files = [], seen = new Set(), dirs = [''].concat(rng.sample(DIRS, rng.int(4)));
  if (rng.p(0.1)) dirs.push(anyName(rng));
  if (rng.p(0.01)) dirs.push(Array.from({ length: rng.pick([15, 17, 24, 32, 33, 40, 64, 66, 100, 130]) }, () => rng.pick(['a', 'b', 'd'])).join('/'));
  if (rng.p(0.006)) dirs.push(Array.from({ length: rng.range(2, 9) }, () => rng.pick(['p', 'q']).repeat(rng.range(90, 250))).join('/'));
  while (files.length < n) {
    const d = rng.pick(dirs), s = n > 20 ? rng.pick(['m', 'f', 'x.']) + files.length : rng.p(0.5) ? rng.pick(STEMS.slice(0, 4)) : rng.p(0.2) ? anyName(rng) : rng.pick(STEMS);
    const p = (d ? d + '/' : '') + s + '.pkt';
    if (seen.has(p)) { if (seen.size > 40 || rng.p(0.2)) dirs.push(rng.pick(DIRS)); continue; }
    seen.add(p);
    files.push({ p, t: n > 20 && !rng.p(o.pBad || 0) ? ['v', rng.int(8)] : genText(rng, o.pBad || 0) });
  }
  if (rng.p(0.02)) rng.pick(files).t = ['v', BIG + rng.int(NBIG)];
  const extra = [];
  if (rng.p(0.5)) for (let i = rng.range(1, 4); i > 0; i--) { const d = rng.pick(dirs); extra.push({ p: (d ? d + '/' : '') + rng.pick(IGNORED), t: rng.p(0.5) ? ['x', 'not a schema {'] : genText(rng) }); }
  const empty = rng.p(0.3) ? rng.sample(DIRS, rng.range(1, 2)) : [];
  // a name that is both a file and a directory cannot exist
  const isDir = p => files.concat(extra).some(f => f.p.startsWith(p + '/')) || empty.some(e => e === p || e.startsWith(p + '/'));
  const out = { files: files.filter(f => !isDir(f.p)), extra: [], empty: empty.filter(e => !files.some(f => e === f.p || e.startsWith(f.p + '/'))) };
  const names = new Set(out.files.map(f => f.p));
  for (const e of extra) if (!names.has(e.p) && !isDir(e.p) && !out.files.some(f => f.p.startsWith(e.p + '/'))) { names.add(e.p); out.extra.push(e); }
  return out;
}

// ---- invocations ----
// {mode:'dir'|'file', src: path below in ('' for in itself), inForm, out: root-relative output directory, outForm, cwd}
const OUTS = ['out', 'out', 'out', 'out/x/y', 'in/gen', 'in', '.', 'o.d/v1.2', 'b b/ü'];
function genInv(rng, tree, o = {}) {
  const subdirs = [...new Set(tree.files.map(f => path.dirname(f.p)).filter(d => d !== '.'))];
  const mode = rng.p(o.pFile === undefined ? 0.25 : o.pFile) ? 'file' : 'dir';
  const src = mode === 'file' ? rng.pick(tree.files).p : subdirs.length && rng.p(0.15) ? rng.pick(subdirs) : '';
  return { mode, src, inForm: rng.int(6), out: o.out || rng.pick(OUTS), outForm: rng.int(5), cwd: rng.weighted([[6, ''], [2, 'w'], [1, 'in']]) };
}
const simple = inv => Object.assign({}, inv, { inForm: 0, outForm: 0, cwd: '' });
const rp = (cwd, p) => path.posix.relative('/' + cwd, '/' + p) || '.';
function argsOf(inv, root) {
  const src = inv.src ? 'in/' + inv.src : 'in', c = inv.cwd;
  const r = rp(c, src), up = rp(c, 'w') === '.' ? './' : rp(c, 'w') + '/../', dash = s => s.startsWith('-') ? './' + s : s;
  const i = [r, './' + r, `${root}/${src}`, c === 'w' ? r : up + src, inv.mode === 'dir' ? r + '/' : r, inv.mode === 'dir' ? r + '/.' : './' + r][inv.inForm];
  const o = rp(c, inv.out);
  const q = [o, o + '/', './' + o, `${root}/${inv.out}`, o + '//'][inv.outForm];
  return [inv.lang || 'ts', dash(i), dash(q)];
}
// output path (root relative) -> text spec
function outputs(tree, inv) {
  const m = {}, base = inv.src;
  if (inv.mode === 'file') {
    const f = tree.files.find(x => x.p === base), b = path.posix.basename(base), e = path.posix.extname(b);
    if (f) m[path.posix.join(inv.out, (e ? b.slice(0, -e.length) : b) + '.ts')] = f.t;
    return m;
  }
  for (const f of tree.files) {
    if (!f.p.endsWith('.pkt') || (base && !f.p.startsWith(base + '/'))) continue;
    const rel = base ? f.p.slice(base.length + 1) : f.p;
    m[path.posix.join(inv.out, rel.slice(0, -4) + '.ts')] = f.t;
  }
  return m;
}
// two outputs clash if one is an ancestor directory of the other, or an input file is in the way
function feasible(tree, inv) {
  const outs = Object.keys(outputs(tree, inv)), files = new Set(tree.files.concat(tree.extra).map(f => 'in/' + f.p));
  const dirs = new Set(['in', 'w']);
  for (const f of tree.files.concat(tree.extra, tree.empty.map(p => ({ p: p + '/x' })))) { let d = path.posix.dirname('in/' + f.p); while (d !== '.') { dirs.add(d); d = path.posix.dirname(d); } }
  const odirs = new Set();
  for (const o of outs) { let d = path.posix.dirname(o); while (d !== '.') { odirs.add(d); d = path.posix.dirname(d); } }
  return outs.every(o => !odirs.has(o) && !dirs.has(o) && !files.has(o)) && [...odirs].every(d => !files.has(d));
}
function genCase(rng, o = {}) {
  for (;;) {
    const tree = genTree(rng, o), inv = genInv(rng, tree, o);
    if (!feasible(tree, inv)) continue;
    if (rng.p(0.03)) rng.pick(tree.files).l = 1;
    if (rng.p(0.02) && tree.files.length > 1) { const [a, b] = rng.sample(tree.files, 2); if (!a.l && !b.l) { b.t = a.t; b.h = a.p; } } // two names of one file
    if (o.links && rng.p(0.04) && !/^in/.test(inv.out)) { const tops = [...new Set(tree.files.filter(f => f.p.includes('/')).map(f => f.p.split('/')[0]))]; if (tops.length) tree.dl = [rng.pick(tops)]; }
    if (o.raw && inv.mode === 'dir' && rng.p(0.03)) { // a name that is not valid UTF-8: a schema, a directory, an ignored file
      const r = rng.pick(RAWS), d = rng.pick(['', ...tree.files.map(f => path.posix.dirname(f.p) + '/').filter(x => x !== './' && !tree.dl)]), k = rng.int(4);
      if (k < 2) tree.files.push({ p: d + r + '.pkt', t: genText(rng, o.pBad || 0) }); else if (k === 2) tree.files.push({ p: d + r + '/a.pkt', t: genText(rng, o.pBad || 0) }); else tree.extra.push({ p: d + r + '.txt', t: ['x', 'not a schema'] });
    }
    if (rng.p(0.01)) { const p = rng.pick(['#lock', 'current.txt', 'latest']); if (!tree.extra.some(f => f.p === p)) tree.extra.push({ p, t: ['n'] }); }
    return { tree, inv };
  }
}
function genProc(rng) {
  return { hash: rng.seed(), clk: [rng.range(0, 4102444800), rng.int(1000000000)], dirseed: rng.p(0.7) ? rng.seed() : 0, unk: rng.p(0.2) ? 1 : 0, tz: rng.pick(['', 'UTC', 'Asia/Kolkata', 'XXX+11:30']), ...genHost(rng) };
}

// ---- stale and foreign files in the output tree ----
const STALE = ['garbage', 'empty', 'longer', 'shorter', 'other', 'headonly', 'onebyte', 'same', 'nul'];
function genStale(rng, p = 0.5) { return rng.p(p) ? { pick: rng.u32(), kinds: Array.from({ length: 4 }, () => rng.pick(STALE)), mt: rng.pick([0, 0, 1, 4102444800, 946684800]), foreign: rng.p(0.5) } : null; }
function staleBytes(ctx, kind, t, rng) {
  const cur = () => { const r = ctx.ref(text(t)); return Buffer.from(r.text || 'x', 'latin1'); };
  switch (kind) {
    case 'garbage': return Buffer.from('garbage ' + rng.int(1000) + '\n'.repeat(rng.int(5)));
    case 'empty': return Buffer.alloc(0);
    case 'longer': return Buffer.concat([cur(), Buffer.from('\n// tail that must go\n'.repeat(rng.range(1, 400)))]);
    case 'shorter': { const c = cur(); return c.subarray(0, rng.int(c.length + 1)); }
    case 'other': return Buffer.from(ctx.ref(text(['v', rng.int(NPOOL)])).text || 'x', 'latin1');
    case 'headonly': { const c = cur(); return c.subarray(0, c.indexOf(10) + 1); }
    case 'onebyte': { const c = Buffer.from(cur()); const i = Math.min(c.length - 1, c.indexOf(10) + 1 + rng.int(c.length)); c[Math.max(0, i)] ^= 1; return c; }
    case 'same': return cur();
    default: { const c = Buffer.from(cur()); c.fill(0, c.length >> 1); return c; }
  }
}
function applyStale(ctx, w, tree, inv, stale) {
  if (!stale) return;
  const rng = new Rng('stale' + stale.pick), outs = outputs({ files: tree.files.filter(f => !RAW.test(f.p)) }, inv);
  Object.keys(outs).sort().forEach((o, i) => {
    if (rng.p(0.3)) return;
    const f = path.join(w.root, o);
    fs.mkdirSync(path.dirname(f), { recursive: true });
    fs.writeFileSync(f, staleBytes(ctx, stale.kinds[i % stale.kinds.length], outs[o], rng));
    if (stale.mt) fs.utimesSync(f, stale.mt, stale.mt);
  });
  if (stale.foreign) {
    const dirs = [...new Set(Object.keys(outs).map(o => path.dirname(o)))];
    const d = path.join(w.root, rng.pick(dirs));
    fs.mkdirSync(d, { recursive: true });
    for (const n of ['keep.txt', 'orphan.ts', 'orphan.js']) if (!outs[path.posix.join(path.relative(w.root, d) || '.', n)]) fs.writeFileSync(path.join(d, n), 'foreign ' + n);
  }
}
function mkWorld(ctx, tree, inv, stale) {
  const t = { 'w/.keep': '' };
  t.in = null;
  // symbolic links: f.l for a single file, tree.dl for a directory directly below in; what they show is in ext/
  const dl = tree.dl || [], at = p => (dl.includes(p.split('/')[0]) ? 'ext/d/' : 'in/') + p;
  tree.files.concat(tree.extra).forEach((f, i) => {
    const q = at(f.p), up = q.split('/').slice(1).map(() => '../').join('');
    if (f.t[0] === 'n') t[q] = { linkTo: up + 'ext/nothing' };
    else if (f.l) { t['ext/f' + i] = text(f.t); t[q] = { linkTo: up + 'ext/f' + i }; }
    else if (f.h && f.t[0] !== 'n' && !dl.length && tree.files.some(a => a.p === f.h && !a.l && !a.h && a.t.join() === f.t.join())) t[q] = { sameAs: at(f.h) };
    else t[q] = text(f.t);
  });
  for (const d of tree.empty) t[at(d)] = null;
  for (const d of dl) t['in/' + d] = { linkTo: '../ext/d/' + d };
  const w = ctx.cli.newRoot(t);
  applyStale(ctx, w, tree, inv, stale);
  return w;
}
function procOf(inv, w, env) { return Object.assign({}, env, { args: argsOf(inv, w.root), cwd: inv.cwd }); }

// ---- faults ----
const EIO = 5, ENXIO = 6, ENOMEM = 12, EACCES = 13, ENFILE = 23, EMFILE = 24, EFBIG = 27, ENOSPC = 28, EROFS = 30, EPIPE = 32, ELOOP = 40, ESTALE = 116, EDQUOT = 122, EPERM = 1;
const ERRS = {
  open: [EIO, EACCES, EMFILE, ENFILE, ELOOP, ENOMEM, EPERM, ESTALE], read: [EIO, ESTALE, ENOMEM], stat: [EIO, EACCES, ELOOP, ENOMEM, ESTALE], opendir: [EIO, EACCES, EMFILE, ENFILE, ENOMEM],
  readdir: [EIO, ESTALE, ENOMEM], openw: [EACCES, EROFS, ENOSPC, EMFILE, EIO, EDQUOT, EPERM], write: [ENOSPC, EIO, EDQUOT, EFBIG], mkdir: [EACCES, ENOSPC, EROFS, EIO, EDQUOT], rename: [EACCES, EIO, ENOSPC], unlink: [EACCES, EIO],
  fsync: [EIO, ENOSPC], trunc: [EIO], stdout: [EIO, ENOSPC, EPIPE], link: [EIO], chmod: [EPERM], rmdir: [EIO],
};
const HARD = Object.keys(ERRS);
// {cls, at, act, e, n}: at in [0,1) selects among the points the fault-free run reaches; e selects the error
function genFault(rng, classes) {
  const cls = rng.pick(classes || ['open', 'read', 'stat', 'opendir', 'readdir', 'openw', 'write', 'write', 'mkdir', 'stdout']);
  // once, a few times in a row, for the rest of the run, or for the rest of the run on that file; a device that fills up
  const rep = rng.weighted([[11, 0], [2, rng.range(1, 6)], [3, -1], [4, -2]]), full = cls === 'write' && rng.p(0.3);
  return { cls, at: rng.p(0.15) ? 0 : rng.p(0.15) ? 0.999 : rng.f(), act: full ? 'full' : 'fail', e: full ? rng.pick([0, 2]) : rng.int(16), n: full ? rng.pick([0, 1, 80, rng.int(3000)]) : 0, rep };
}
function genCrash(rng) { return { cls: rng.weighted([[5, 'any'], [2, 'write'], [2, 'openw'], [1, 'mkdir'], [1, 'stdout']]), at: rng.f(), act: rng.pick(['crash', 'crashmid', 'crashmid', 'crashafter']), e: 0, n: rng.pick([0, 1, 7, 50, 100, 400, 1000, 5000]) }; }
const isFs = e => e.op !== 'random' && e.op !== 'clock' && e.op !== 'stderr' && e.op !== 'escape' && e.op !== 'lock';
function countOps(r, p = 0) {
  const c = { any: 0 };
  for (const e of r.events) if (e.p === p) { c[e.op] = (c[e.op] || 0) + 1; if (isFs(e)) c.any++; }
  return c;
}
function resolveFault(f, counts, p = 0) {
  if (f.nth !== undefined) return { p, cls: f.cls, nth: f.nth, act: f.act, err: f.err, n: f.n, rep: f.rep };
  let cls = f.cls, n = counts[cls] || 0;
  if (!n) { cls = 'any'; n = counts.any || 1; if (f.act === 'fail' || f.act === 'full') return null; }
  return { p, cls, nth: Math.min(n - 1, Math.floor(f.at * n)), act: f.act, err: f.act === 'fail' || f.act === 'full' ? ERRS[f.cls][f.e % ERRS[f.cls].length] : 0, n: f.n, rep: f.rep };
}
const hardFired = r => r.events.filter(e => e.act === 'fail' && e.err !== 4);
const describe = e => `${e.op} ${e.path}${e.path2 ? ' -> ' + e.path2 : ''} ${e.act}${e.err ? ' errno ' + e.err : ''}`;
const MUT = new Set(['openw', 'write', 'mkdir', 'rename', 'unlink', 'rmdir', 'trunc', 'link', 'chmod']);

// ---- oracles ----
const okMemo = new Map();
// the reference compilation of a text, itself checked to be a whole module
function want(ctx, t) {
  const r = ctx.ref(text(t));
  if (!r.ok || r.text === null) return { fail: `'${String(text(t)).slice(0, 60)}...' is valid but does not compile alone: ${r.err.trim().slice(0, 120)}` };
  const k = sha(r.text);
  if (!okMemo.has(k)) {
    const src = ts.createSourceFile('m.ts', Buffer.from(r.text, 'latin1').toString('utf8'), ts.ScriptTarget.ES2020, false);
    const bad = src.parseDiagnostics.length > 0 || !src.statements.some(s => ts.isClassDeclaration(s)) || !/\n\}\n*$/.test(r.text);
    if (okMemo.size > 5000) okMemo.clear();
    okMemo.set(k, bad ? 'output of an undisturbed run is not a complete module' : '');
  }
  if (okMemo.get(k)) return { fail: okMemo.get(k) };
  return r;
}
// are all outputs complete? returns null or a reason
function incomplete(ctx, snap, outs) {
  for (const o of Object.keys(outs).sort()) {
    const r = want(ctx, outs[o]);
    if (r.fail) return r.fail;
    const f = snap[o];
    if (f === undefined) return `${o} is missing`;
    if (f === null) return `${o} is a directory`;
    const t = f.toString('latin1');
    if (canon(t) !== r.canon) return `${o} (${t.length} bytes) is not the complete module (${r.text.length} bytes)`;
    if (!/^\/\//.test(t)) return `${o} does not start with the stamp line`;
  }
  return null;
}
const hasRaw = tree => tree.files.concat(tree.extra).some(f => RAW.test(f.p));
const exitOk = e => e.how === 'exit' && e.code === 0;
function snapDiff(a, b) {
  const d = [];
  for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) {
    const x = a[k], y = b[k];
    if (x === undefined) d.push({ p: k, k: y === null ? 'newdir' : 'new' });
    else if (y === undefined) d.push({ p: k, k: x === null ? 'gonedir' : 'gone' });
    else if ((x === null) !== (y === null) || (x !== null && !x.equals(y))) d.push({ p: k, k: 'changed' });
  }
  return d.sort((p, q) => p.p < q.p ? -1 : 1);
}

// ---- shrinking ----
function* shrinkCase(sc) {
  const c = () => S.clone(sc);
  const keep = x => x.inv.mode === 'dir' || x.tree.files.some(f => f.p === x.inv.src);
  for (let i = 0; i < sc.tree.files.length; i++) { const x = c(); x.tree.files.splice(i, 1); if (keep(x) && x.tree.files.length) yield x; }
  if (sc.tree.extra.length) { const x = c(); x.tree.extra = []; yield x; for (let i = 0; i < sc.tree.extra.length; i++) { const y = c(); y.tree.extra.splice(i, 1); yield y; } }
  if (sc.tree.empty.length) { const x = c(); x.tree.empty = []; yield x; }
  if (sc.stale) { const x = c(); x.stale = null; yield x; }
  if (sc.tree.dl) { const x = c(); delete x.tree.dl; yield x; }
  for (let i = 0; i < sc.tree.files.length; i++) if (sc.tree.files[i].l) { const x = c(); delete x.tree.files[i].l; yield x; }
  for (let i = 0; i < sc.tree.files.length; i++) {
    const f = sc.tree.files[i];
    if (f.t[1] !== 0 && f.t[0] !== 'x' && f.t[0] !== 'n') { const x = c(); x.tree.files[i].t = [f.t[0], 0]; yield x; }
  }
  if (sc.inv.inForm || sc.inv.outForm || sc.inv.cwd) { const x = c(); x.inv = simple(x.inv); yield x; }
  if (sc.inv.lang) { const x = c(); delete x.inv.lang; yield x; }
  if (sc.inv.out !== 'out') { const x = c(); x.inv.out = 'out'; yield x; }
  for (const k of ['faults', 'storms', 'jumps', 'acts', 'rounds']) if (sc[k]) for (let i = 0; i < sc[k].length; i++) { const x = c(); x[k].splice(i, 1); yield x; }
  for (let i = 0; i < (sc.faults || []).length; i++) { const f = sc.faults[i]; if (f.rep) { const x = c(); x.faults[i].rep = 0; yield x; } if (f.act === 'full') { const x = c(); x.faults[i].act = 'fail'; yield x; } }
  if (sc.env) for (const k of ['pid', 'vars']) if (sc.env[k]) { const x = c(); delete x.env[k]; yield x; }
  if (sc.env) { const d = { hash: '1', clk: [1000000000, 0], dirseed: 0, unk: 0, tz: '' }; for (const k in d) if (JSON.stringify(sc.env[k]) !== JSON.stringify(d[k])) { const x = c(); x.env[k] = d[k]; yield x; } }
}
function sampleOf(sc) { return { files: sc.tree.files.map(f => f.p + ':' + f.t[0] + f.t[1]).slice(0, 8), inv: sc.inv, faults: sc.faults, env: sc.env }; }

module.exports = { COMPONENTS, ASSUME, NPOOL, BIG, NBIG, poolAst, text, isValid, genText, genTree, genInv, genCase, genProc, genStale, argsOf, outputs, feasible, mkWorld, procOf, applyStale, staleBytes, STALE, ERRS, HARD, genFault, genCrash, countOps, resolveFault, hardFired, describe, MUT, isFs, want, incomplete, hasRaw, exitOk, snapDiff, shrinkCase, sampleOf, simple, STEMS, DIRS, OUTS };

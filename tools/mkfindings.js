'use strict';
// Writes known-findings.json: each finding is one exact scenario of the check of its property.
const fs = require('fs'), path = require('path');
const B = { hash: '1', clk: [1600000000, 0], tz: '', dirseed: 0, unk: 0, mode: 'single', path: 0, sib: [], storm: null };
const st = (name, ...fields) => ({ k: 'struct', name, fields: fields.map(([n, t, m]) => ({ name: n, type: t, array: m === '[]', optional: m === '?' })) });
const en = (name, ...variants) => ({ k: 'enum', name, variants });
const ast = (...decls) => ({ decls, exports: [decls[decls.length - 1].name], xpos: [decls.length] });
const net = (a, f, more) => ({ pinned: true, ast: a, fmt: 0, other: null, builds: [B], net: { hosts: [0, 0], policy: { sticky: true, grow: 2, cap: 16 }, msgs: [{ t: 0, from: 0, to: 1, v: 7, reuse: false, absent: 0, lat: 1, f: f || [] }], ops: [] }, ...more });
const api = (a, more) => ({ pinned: true, items: [{ ast: a, fmt: 0, builds: [B], v: 1 }], ...more });
const F = [];
const add = (id, property, cls, what, scenario) => F.push({ id, property, cls, what, scenario });

for (const n of ['name', 'length', 'prototype', 'caller'])
  add(`KF1-${n}`, 'C02', 'decode-throws', `a field '${n}' of the exported struct makes read() throw on every packet (the result inherits from the class itself, whose '${n}' cannot be assigned)`, net(ast(st('T', [n, 'uint8']))));
add('KF2-array', 'C04', 'unbounded', 'a 4-byte packet that announces 4294967295 array elements keeps read() busy for the announced count instead of being refused', net(ast(st('T', ['a', 'uint8', '[]'])), [{ k: 'raw', hex: 'ffffffff' }], { runHuge: true }));
add('KF2-struct', 'C04', 'unbounded', 'a packet that announces 4294967295 struct elements and ends keeps read() busy for the announced count instead of being refused', net(ast(st('P', ['x', 'float'], ['s', 'string']), st('T', ['id', 'uint8'], ['p', 'P', '[]'])), [{ k: 'raw', hex: '01ffffffff' }], { runHuge: true }));
for (const n of ['class', 'default', 'new', 'delete', 'this', 'function', 'in', 'public', 'arguments'])
  add(`KF3-field-${n}`, 'C14', 'diagnostics', `a field '${n}' of the exported struct becomes a constructor parameter of that name, which TypeScript refuses`, api(ast(st('T', [n, 'uint8']))));
add('KF3-field-write', 'C14', 'diagnostics', "a field 'write' of the exported struct collides with the generated method write()", api(ast(st('T', ['write', 'uint8']))));
for (const n of ['Object', 'Reader', 'Writer', 'Array'])
  add(`KF3-export-${n}`, 'C14', 'diagnostics', `an exported struct named '${n}' hides the ${n} that the generated code itself uses`, api(ast(st(n, ['a', 'uint8', '[]']))));
add('KF3-export-class', 'C14', 'diagnostics', "an exported struct named 'class' is not a legal class name in TypeScript", api(ast(st('class', ['a', 'uint8']))));
add('KF3-type-read', 'C14', 'diagnostics', "an enum named 'read' collides with the static method read() of the generated class", api(ast(en('read', 'X', 'Y'), st('T', ['a', 'read']))));
add('KF5', 'C14', 'instance', 'the value returned by read() is declared as the class but inherits from the constructor function, so it has no write() method', api(ast(st('T', ['a', 'uint8'])), { wantInstance: true }));

add('KF6', 'C05', 'deep-chain', 'a valid schema with 12000 structs nested in a chain is not accepted: the compiler overflows its stack (3000 compile)', { chain: 12000, fmt: 0, kinds: [], runs: [{ perm: 0, hash: '1', storm: null }] });

const fixed = [
  'fixed: property=C01 a57809c fields of a struct with user types were reordered by hash order, so two builds of one schema encoded differently',
  'fixed: property=C05 12a5a55 a repeated field after the first user-typed field of a struct was accepted',
  'fixed: property=C06 6d2da6e a schema with a cycle could be rejected for a missing declaration of a type that is declared',
  'fixed: property=C02 b0be6d7 enums with 32 variants could not be compiled or decoded (top bit became negative)',
  'fixed: property=C07 f3538b8 the order of type declarations in the output followed the hash seed',
  'fixed: property=C08 d031ec6 an input path that could not be examined was skipped with exit status 0',
  'fixed: property=C12 8231f89 a single schema x.pkt.pkt was written to x.ts instead of x.pkt.ts',
  'fixed: property=C08 5103b5a a directory entry that could not be examined was skipped with exit status 0',
  'fixed: property=C02 51a3f2b two field paths that flatten to the same local variable (a.b and a_b) gave a module that was a syntax error',
];
fs.writeFileSync(path.join(__dirname, '..', 'known-findings.json'), JSON.stringify({ findings: F, fixed }, null, 1) + '\n');
